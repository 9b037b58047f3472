// The stack of open overlays.
import { S, undef, nul, I, lift, seq, litSeq, rec, catSeq, within, Unsupported } from './prelude.mjs';

const F = 'packages/vlossom/src/stores/overlay-callback-store.ts';
const C = 'packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts';
const id = (t, i) => S.app('id' + t, [i], 'Str');
const cb = (t, i) => S.app('handlers' + t, [i], 'Val');

/** any stack of overlays with distinct ids */
function anyStack(E, t) {
    const n = E.nat('open' + t);
    const [a, b] = [E.bvar('Int', 'a'), E.bvar('Int', 'b')];
    E.assume(S.forall([a, b], S.implies(S.and(within(a, n), within(b, n), S.eq(id(t, a), id(t, b))), S.eq(a, b)), [[id(t, a), id(t, b)]]));
    E.assume(S.forall([a], S.is('vobj', cb(t, a)), [[cb(t, a)]]));
    return seq(n, (i) => litSeq([id(t, i), rec(new Map([['value', cb(t, i)]]))]));
}
function store(E) {
    E.deep = true;
    // a handler is a function, or there is none
    const [o, k] = [E.bvar('Obj', 'o'), E.bvar('Str', 'k')];
    const h = S.app('prop', [o, k], 'Val');
    E.assume(S.forall([o, k], S.or(S.is('vobj', h), S.is('undef', h)), [[h]]));
    const keys = [];
    E.globals.set('document', E.obj({ addEventListener: E.native('addEventListener', (a) => (keys.push(a), undef)) }));
    const s = E.construct(E.get(F, 'OverlayCallbackStore'), []);
    // the field holding the stack, found by using it
    E.call(E.getProp(s, 'push'), [S.str('probe'), E.ref(E.obj())]);
    const field = [...s.f.values()].find((x) => x.k === 'obj' && x.kind === 'ref' && x.f.get('value').kind === 'arr');
    if (!field) throw new Unsupported('no stack of overlays found');
    const set = (x) => E.setProp(field, 'value', E.arr(x));
    set(anyStack(E, ''));
    return { s, keys, set, now: () => E.seqOf(E.getProp(E.getProp(s, 'overlays'), 'value')), call: (f, ...x) => E.call(E.getProp(s, f), x) };
}
const handler = (E, h, name) => E.getProp(h, name);
const sameEntry = (E, x, i, h) => {
    const s = E.seqOf(x);
    return S.and(E.same(s.at(I(0)), i), E.same(E.getProp(s.at(I(1)), 'value'), h));
};
const is = (E, label, now, want, t) => {
    E.ensure(label + ': number', S.eq(now.len, want.len));
    const k = E.fresh('k', 'Int');
    if (E.decide(within(k, want.len))) E.ensure(label + ': each', sameEntry(E, now.at(k), E.seqOf(want.at(k)).at(I(0)), E.getProp(E.seqOf(want.at(k)).at(I(1)), 'value')));
};
/** the calls made, as [handler, arguments] */
const called = (E, label, log, want) => {
    E.ensure(label, S.bool(log.length === want.length));
    log.forEach((c, k) => {
        if (!want[k]) return;
        E.ensure(label, E.same(c.fn, want[k][0]));
        E.ensure(label + ': what they are told', S.bool(c.args.length === want[k][1].length));
        want[k][1].forEach((x, m) => c.args[m] && E.ensure(label + ': what they are told', E.same(c.args[m], x)));
    });
};
const present = (E, h, names) => names.map((n) => handler(E, h, n)).filter((f) => E.decide(S.not(E.isNullish(f))));

/** clearing a stack of up to three overlays; for an implementation the invariant does not fit */
function clearFew(E) {
    const t = store(E);
    const n = E.choose('open', 4);
    E.unroll = 8;
    const hs = [0, 1, 2].map((i) => E.val('itsHandlers' + i));
    const ids = [0, 1, 2].map((i) => E.str('its' + i));
    for (const [i, j] of [[0, 1], [0, 2], [1, 2]]) E.assume(S.not(S.eq(ids[i], ids[j])));
    for (const h of hs) E.assume(S.is('vobj', h));
    t.set(litSeq(hs.slice(0, n).map((h, i) => litSeq([ids[i], rec(new Map([['value', h]]))]))));
    const log = [];
    E.opaqueCall = (fn, args) => (log.push({ fn, args }), E.fresh('answer', 'Val'));
    E.awaitHook = (v) => v;
    const arg = E.val('arg');
    t.call('clear', arg);
    E.ensure('nothing stays open', S.eq(t.now().len, I(0)));
    const names = [E.get('packages/vlossom/src/declaration/index.ts', 'OVERLAY_CLOSE').x, 'close'];
    called(E, 'every overlay is closed once, the top one first', log, hs.slice(0, n).reverse().flatMap((h) => present(E, h, names).map((f) => [f, [arg]])));
}

export const contracts = [
    ...['pop', 'remove'].map((how) => ({
        name: how === 'pop' ? 'closing the top overlay' : 'closing a named overlay',
        run(E) {
            const t = store(E);
            const n = E.nat('open');
            const x = E.str('named');
            const p = E.int('position');
            const found = how === 'pop' ? E.decide(S.gt(n, I(0))) : E.decide(E.any(I(0), n, (i) => S.eq(id('', i), x)));
            if (found) E.assume(how === 'pop' ? S.eq(p, S.sub(n, I(1))) : S.and(within(p, n), S.eq(id('', p), x)));
            const [own, handlers] = [id('', p), cb('', p)];
            const log = [];
            let tag = '';
            let at = p;
            let stack = t.now();
            // a close handler may open and close any other overlays
            E.opaqueCall = (fn, args) => {
                log.push({ fn, args });
                tag += 'n';
                stack = anyStack(E, tag);
                at = E.int('position' + tag);
                E.assume(S.and(within(at, E.nat('open' + tag)), S.eq(id(tag, at), own), S.eq(cb(tag, at), handlers)));
                t.set(stack);
                return S.app('answer' + tag, [], 'Val');
            };
            E.awaitHook = (v) => v;
            const arg = E.val('arg');
            t.call(how, ...(how === 'pop' ? [arg] : [x, arg]));
            const now = t.now();
            if (!found) {
                called(E, 'nothing to close: nothing runs', log, []);
                return is(E, 'nothing to close: nothing changes', now, stack);
            }
            const names = [E.get('packages/vlossom/src/declaration/index.ts', 'OVERLAY_CLOSE').x, 'close'];
            called(E, 'its close handlers run once', log, present(E, handlers, names).map((f) => [f, [arg]]));
            is(E, 'exactly that overlay leaves', now, seq(S.sub(stack.len, I(1)), (i) => litSeq([S.ite(S.lt(i, at), id(tag, i), id(tag, S.add(i, I(1)))), rec(new Map([['value', S.ite(S.lt(i, at), cb(tag, i), cb(tag, S.add(i, I(1))))]]))])));
        },
    })),
    {
        name: 'opening an overlay',
        run(E) {
            const t = store(E);
            const before = t.now();
            const x = E.str('opened');
            E.assume(S.not(E.any(I(0), before.len, (i) => S.eq(id('', i), x))));
            const h = E.val('itsHandlers');
            E.assume(S.is('vobj', h));
            const log = [];
            E.opaqueCall = (fn, args) => (log.push({ fn, args }), E.fresh('answer', 'Val'));
            E.awaitHook = (v) => v;
            t.call('push', x, E.ref(h));
            is(E, 'it comes on top, the others stay', t.now(), catSeq(before, litSeq([litSeq([x, rec(new Map([['value', h]]))])])));
            called(E, 'its open handlers run once', log, present(E, h, [E.get('packages/vlossom/src/declaration/index.ts', 'OVERLAY_OPEN').x, 'open']).map((f) => [f, []]));
            E.ensure('it is the top overlay', E.same(t.call('getLastOverlayId'), x));
        },
    },
    {
        name: 'a key press',
        run(E) {
            const t = store(E);
            const before = t.now();
            const n = before.len;
            E.ensure('one key listener', S.bool(t.keys.length === 1));
            const log = [];
            E.opaqueCall = (fn, args) => (log.push({ fn, args }), E.fresh('answer', 'Val'));
            E.awaitHook = (v) => v;
            const code = E.choose('key', 3);
            const ev = E.obj({ code: S.str(['Escape', 'Enter', 'KeyA'][code]), key: E.str('keyName'), ...Object.fromEntries(['defaultPrevented', 'repeat', 'isComposing', 'ctrlKey', 'altKey', 'shiftKey', 'metaKey'].map((f) => [f, E.bool(f)])) });
            E.call(t.keys[0][1], [ev]);
            const top = cb('', S.sub(n, I(1)));
            const key = 'key-' + ['Escape', 'Enter', 'KeyA'][code];
            if (!E.decide(S.gt(n, I(0)))) {
                E.ensure('nothing open: nothing runs', S.bool(log.length === 0));
                E.ensure('nothing open: no top overlay', E.same(t.call('getLastOverlay'), nul));
            } else {
                const f = handler(E, top, key);
                if (E.decide(E.truthy(f))) {
                    E.ensure('the top overlay reacts once', S.bool(log.length === 1));
                    if (log[0]) {
                        E.ensure('with its own handler', E.same(log[0].fn, f));
                        E.ensure('and is given the event', S.bool(log[0].args[0] === ev));
                    }
                } else E.ensure('nothing below the top overlay reacts', S.bool(log.length === 0));
                E.ensure('the top overlay is the last opened', E.same(t.call('getLastOverlayId'), id('', S.sub(n, I(1)))));
            }
            is(E, 'a key press alone closes nothing', t.now(), before);
        },
    },
    {
        name: 'running a handler of an overlay',
        run(E) {
            const t = store(E);
            const before = t.now();
            const log = [];
            E.opaqueCall = (fn, args) => (log.push({ fn, args }), S.app('answer', [], 'Val'));
            E.awaitHook = (v) => v;
            const x = E.str('named');
            const p = E.int('position');
            const found = E.decide(E.any(I(0), before.len, (i) => S.eq(id('', i), x)));
            if (found) E.assume(S.and(within(p, before.len), S.eq(id('', p), x)));
            const [a, b] = [E.val('a'), E.val('b')];
            const r = t.call('run', x, S.str('some-event'), a, b);
            const f = found ? handler(E, cb('', p), 'some-event') : undef;
            const runs = found && E.decide(S.not(E.isNullish(f)));
            called(E, 'only that handler', log, runs ? [[f, [a, b]]] : []);
            E.awaitHook = null;
            E.ensure('answers what the handler answers', E.same(E.awaitValue(r), runs ? S.app('answer', [], 'Val') : undef));
            is(E, 'the overlays stay', t.now(), before);
        },
    },
    {
        name: 'clearing any number of overlays',
        run(E) {
            const t = store(E);
            const n = E.nat('open');
            const names = [E.get('packages/vlossom/src/declaration/index.ts', 'OVERLAY_CLOSE').x, 'close'];
            const lowest = (m) => seq(m, (i) => litSeq([id('', i), rec(new Map([['value', cb('', i)]]))]));
            const log = [];
            E.opaqueCall = (fn, args) => (log.push({ fn, args }), E.fresh('answer', 'Val'));
            E.awaitHook = (v) => v;
            const arg = E.val('arg');
            // invariant: the top overlays are closed, each told once, and the others are as they were
            let closed = null;
            const inv = {
                holds(when) {
                    const told = closed ? present(E, cb('', S.sub(n, S.add(closed, I(1)))), names).map((f) => [f, [arg]]) : [];
                    is(E, 'exactly the top ones are closed ' + when, t.now(), lowest(closed ? S.sub(n, S.add(closed, I(1))) : n));
                    called(E, 'each is told once ' + when, log, told);
                },
                any() {
                    closed = E.nat('closed');
                    E.assume(S.le(closed, n));
                    t.set(lowest(S.sub(n, closed)));
                    log.length = 0;
                },
            };
            E.invariant = inv;
            try {
                t.call('clear', arg);
            } catch (e) {
                if (!(e instanceof Unsupported) || inv.used) throw e;
            }
            if (!inv.used) {
                E.assumed.add('clearing is not a loop over the open overlays: decided for up to three of them only (bounded)');
                return clearFew(E);
            }
            E.ensure('nothing stays open', S.eq(t.now().len, I(0)));
            E.ensure('every overlay is closed', S.eq(closed, n));
            called(E, 'nothing more is told', log, []);
        },
    },
    {
        name: 'an overlay component',
        run(E) {
            const log = [];
            const note = (n) => E.native(n, (a) => (log.push([n, a]), undef));
            E.stubs.set('call:packages/vlossom/src/stores/global-stores.ts#useOverlayCallbackStore', () => E.obj({ push: note('push'), remove: note('remove') }));
            const given = E.choose('id', 2) ? E.str('given') : S.str('');
            const h = E.ref(E.obj());
            const api = E.call(E.get(C, 'useOverlayCallback'), [E.ref(given), h]);
            const own = E.v(E.getProp(api, 'overlayId'));
            E.ensure('known by the given id', S.implies(S.not(S.eq(given, S.str(''))), E.same(own, given)));
            E.ensure('known by some id', S.not(E.same(own, S.str(''))));
            E.settle();
            E.call(E.getProp(api, 'activate'), []);
            E.flush();
            E.ensure('opened once', S.bool(log.length === 1 && log[0][0] === 'push' && log[0][1][1] === h));
            if (log[0]) E.ensure('under its id', E.same(log[0][1][0], own));
            E.ensure('shown as open', E.v(E.getProp(api, 'isActivated')));
            E.call(E.getProp(api, 'deactivate'), []);
            E.flush();
            E.ensure('closed once', S.bool(log.length === 2 && log[1][0] === 'remove'));
            if (log[1]) E.ensure('by its id', E.same(log[1][1][0], own));
            E.ensure('shown as closed', S.not(E.v(E.getProp(api, 'isActivated'))));
        },
    },
];
