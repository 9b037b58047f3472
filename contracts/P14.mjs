// Opening and closing modals by the plugin.
import { S, undef, nul, I, lift, seq, rec, within, Unsupported } from './prelude.mjs';

const P = 'packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts';
const G = 'packages/vlossom/src/stores/global-stores.ts';
const CS = 'packages/vlossom/src/stores/container-store.ts';
const num = (t, c) => S.app('open' + t, [c], 'Int');
const id = (t, c, i) => S.app('id' + t, [c, i], 'Str');
const guard = (t, c, i) => S.app('guard' + t, [c, i], 'Val');

/** any modals in any containers, with distinct ids; `pinned` is open in all of them with the same settings */
function anyModals(E, t) {
    const [c, d] = [E.bvar('Val', 'c'), E.bvar('Val', 'd')];
    const [a, b] = [E.bvar('Int', 'a'), E.bvar('Int', 'b')];
    E.assume(S.forall([c], S.gt(num(t, c), I(0)), [[num(t, c)]]));
    E.assume(
        S.forall(
            [c, d, a, b],
            S.implies(S.and(within(a, num(t, c)), within(b, num(t, d)), S.eq(id(t, c, a), id(t, d, b))), S.and(S.eq(c, d), S.eq(a, b))),
            [[id(t, c, a), id(t, d, b)]],
        ),
    );
    return E.symMap('map', 'containers' + t, (k) => list(t, k));
}
const list = (t, c) => seq(num(t, c), (i) => rec(new Map([['id', id(t, c, i)], ['beforeClose', guard(t, c, i)], ['container', c]])));
const has = (t, c) => S.app(`containers${t}_has`, [c], 'Bool');
const count = (t, c) => S.ite(has(t, c), num(t, c), I(0));

function plugin(E) {

    const s = E.construct(E.get(CS, 'ContainerStore'), []);
    const field = [...s.f.values()].find((x) => x.k === 'obj' && x.kind === 'ref' && x.f.get('value').kind === 'map');
    if (!field) throw new Unsupported('no map of containers found');
    const closed = [];
    const views = [];
    const removed = E.arr([]);
    const stub = (n, v) => E.stubs.set(`call:${G}#${n}`, () => v);
    stub('useModalContainerStore', s);
    stub('useOverlayContainerStore', E.obj({ push: E.native('push', (a) => (views.push(a), undef)) }));
    stub('useOverlayCallbackStore', E.obj({ remove: E.native('remove', (a) => (closed.push(a[0]), E.call(E.getProp(removed, 'push'), [a[0]]), undef)), getLastOverlayId: E.native('getLastOverlayId', () => S.app('topOverlay', [], 'Str')), run: E.native('run', (a) => undef) }));
    const set = (t) => E.setProp(field, 'value', anyModals(E, t));
    set('');
    const api = E.call(E.get(P, 'createModalPlugin'), []);
    return { s, closed, removed: () => E.seqOf(removed), views, set, api, call: (f, ...x) => E.call(E.getProp(api, f), x), get: (c) => E.seqOf(E.call(E.getProp(s, 'get'), [c])), has: (c) => E.call(E.getProp(s, 'has'), [c]) };
}
const same = (E, x, t, c, i) => S.and(E.same(E.getProp(x, 'id'), id(t, lift(c), i)), E.same(E.getProp(x, 'beforeClose'), guard(t, lift(c), i)));
function unchanged(E, label, p, c, t) {
    const now = p.get(c);
    E.ensure(label + ': number', S.eq(now.len, count(t, lift(c))));
    const k = E.fresh('k', 'Int');
    if (E.decide(within(k, now.len))) E.ensure(label + ': each', same(E, now.at(k), t, c, k));
}
const settledValue = (E, x) => {
    const hook = E.awaitHook;
    E.awaitHook = null;
    const r = E.awaitValue(x);
    E.awaitHook = hook;
    return r;
};
/** a guard answers, and meanwhile any modals are opened and closed */
function guarded(E, p) {
    const st = { tag: '', asked: [] };
    E.opaqueCall = (fn) => (st.asked.push(fn), S.app('answer', [], 'Val'));
    E.awaitHook = (v) => {
        st.tag += 'n';
        p.set(st.tag);
        if (v.k === 'obj' && v.kind === 'promise') return undefined;
        return v;
    };
    return st;
}

export const contracts = [
    ...['close', 'closeWithId'].map((how) => ({
        name: how === 'close' ? 'closing the last modal of a container' : 'closing a modal by its id',
        run(E) {
            const p = plugin(E);
            const body = how === 'close' && E.choose('container', 2) === 1;
            const c = body ? S.str('body') : E.str('container');
            const cl = lift(c);
            const n = count('', cl);
            const x = how === 'close' ? id('', cl, S.sub(n, I(1))) : E.str('named');
            const at = E.int('position');
            const found = how === 'close' ? E.decide(S.gt(n, I(0))) : E.decide(S.and(has('', cl), E.any(I(0), num('', cl), (i) => S.eq(id('', cl, i), x))));
            if (found) E.assume(how === 'close' ? S.eq(at, S.sub(n, I(1))) : S.and(within(at, num('', cl)), S.eq(id('', cl, at), x)));
            const g = guard('', cl, at);
            E.assume(S.or(S.is('undef', g), S.is('vobj', g)));
            const st = guarded(E, p);
            const r = settledValue(E, p.call(how, ...(body ? [] : how === 'close' ? [c] : [c, x])));
            const other = E.str('otherContainer');
            if (E.decide(S.not(S.eq(other, c)))) unchanged(E, 'other containers stay as they are', p, other, st.tag);
            if (!found) {
                E.ensure('nothing to close: answers no', E.same(r, S.FALSE));
                E.ensure('nothing to close: no overlay closed', S.bool(p.closed.length === 0 && st.asked.length === 0));
                return unchanged(E, 'nothing to close: the container stays', p, c, st.tag);
            }
            const asks = E.decide(S.is('vobj', g));
            E.ensure('its guard is asked once', S.bool(st.asked.length === (asks ? 1 : 0)));
            if (st.asked[0]) E.ensure('only its own guard', E.same(st.asked[0], g));
            if (asks && E.decide(E.same(S.app('answer', [], 'Val'), S.FALSE))) {
                E.ensure('vetoed: answers no', E.same(r, S.FALSE));
                E.ensure('vetoed: no overlay closed', S.bool(p.closed.length === 0));
                return unchanged(E, 'vetoed: nothing changes', p, c, st.tag);
            }
            E.ensure('answers yes', E.same(r, S.TRUE));
            E.ensure('one overlay closed', S.bool(p.closed.length === 1));
            if (p.closed[0]) E.ensure('its own overlay', E.same(p.closed[0], x));
            // the container afterwards: everything then open, without that modal
            const t = st.tag;
            const m = count(t, cl);
            const now = p.get(c);
            const q = E.int('positionThen');
            if (E.decide(E.any(I(0), m, (i) => S.eq(id(t, cl, i), x)))) {
                E.assume(S.and(within(q, m), S.eq(id(t, cl, q), x)));
                const rest = E.filterSeq(list(t, cl), (i) => S.not(S.eq(id(t, cl, i), x)));
                E.assume(S.eq(rest.len, rest.len));
                E.relateCounts(rest);
                E.ensure('exactly that modal leaves: number', S.eq(now.len, rest.len));
                const k = E.fresh('k', 'Int');
                if (E.decide(within(k, rest.len))) E.ensure('exactly that modal leaves: the others stay in order', E.same(E.getProp(now.at(k), 'id'), E.getProp(rest.at(k), 'id')));
                E.ensure('an emptied container leaves nothing behind', S.eq(p.has(c), S.gt(rest.len, I(0))));
            } else unchanged(E, 'already closed: nothing else changes', p, c, t);
        },
    })),
    {
        name: 'opening a modal',
        run(E) {
            const p = plugin(E);
            const exists = E.choose('the container exists', 2) === 0;
            const asked = [];
            const style = E.obj({ position: E.str('stylePosition') });
            E.globals.set('document', E.obj({ querySelector: E.native('querySelector', (a) => (asked.push(a[0]), exists ? E.obj({ style }) : nul)) }));
            const given = E.choose('container given', 2) === 0;
            const named = E.choose('id given', 2) === 0;
            const c = given ? E.str('container') : S.str('body');
            if (given) E.assume(S.not(S.eq(c, S.str(''))));
            const x = E.str('own');
            E.assume(S.not(S.eq(x, S.str(''))));
            const opts = { beforeClose: E.val('itsGuard'), size: E.val('itsSize'), callbacks: E.val('itsCallbacks') };
            if (given) opts.container = c;
            if (named) opts.id = x;
            const r = p.call('open', E.str('content'), E.obj(opts));
            for (const a of asked) E.ensure('looks for the container asked for', E.same(a, c));
            const other = E.str('otherContainer');
            if (E.decide(S.not(S.eq(other, c)))) unchanged(E, 'other containers stay as they are', p, other, '');
            E.ensure('opening closes nothing', S.bool(p.closed.length === 0));
            const now = p.get(c);
            const n = count('', lift(c));
            if (!exists) return E.ensure('without the container nothing opens', S.eq(now.len, n));
            E.ensure('one more modal', S.eq(now.len, S.add(n, I(1))));
            const k = E.fresh('k', 'Int');
            if (E.decide(within(k, n))) E.ensure('the others stay in order', same(E, now.at(k), '', c, k));
            const last = now.at(n);
            E.ensure('answers its id', E.same(E.getProp(last, 'id'), r));
            if (named) E.ensure('the id asked for', E.same(r, x));
            for (const f of ['beforeClose', 'size', 'callbacks']) E.ensure('its settings', E.same(E.getProp(last, f), opts[f]));
            E.ensure('its container', E.same(E.getProp(last, 'container'), c));
            E.ensure('its content', E.same(E.getProp(last, 'content'), E.str('content')));
            E.ensure('its view is mounted in that container', S.bool(p.views.length === 1));
            if (p.views[0]) E.ensure('its view is mounted in that container', E.same(p.views[0][1], c));
        },
    },
    {
        name: 'closing every modal of a container',
        run(E) {
            const p = plugin(E);
            const body = E.choose('container', 2) === 1;
            const c = body ? S.str('body') : E.str('container');
            p.call('clear', ...(body ? [] : [c]));
            const gone = p.removed();
            E.ensure('as many overlays closed as modals', S.eq(gone.len, count('', lift(c))));
            const k = E.fresh('k', 'Int');
            if (E.decide(within(k, gone.len))) E.ensure('the overlay of each modal', E.same(gone.at(k), id('', lift(c), k)));
            E.ensure('nothing is left open', S.and(S.eq(p.get(c).len, I(0)), S.not(p.has(c))));
            const other = E.str('otherContainer');
            if (E.decide(S.not(S.eq(other, c)))) unchanged(E, 'other containers stay as they are', p, other, '');
        },
    },
    {
        name: 'the gestures that close a modal',
        run(E) {
            const registered = [];
            E.stubs.set('call:packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts#useOverlayCallback', (a) => {
                registered.push(a);
                return E.obj({ activate: E.native('activate', () => undef), deactivate: E.native('deactivate', () => (closes++, undef)) });
            });
            let closes = 0;
            const asked = [];
            E.assume(S.not(S.eq(E.str('own'), S.str(''))));
            const guardOf = E.choose('guard', 2) === 0;
            const own = E.choose('own key handler', 2) === 0;
            const [esc, dim] = [E.bool('escClose'), E.bool('dimClose')];
            const log = [];
            const m = E.mount('packages/vlossom/src/components/vs-modal/VsModalNode.vue', {
                escClose: esc,
                dimClose: dim,
                id: E.str('own'),
                ...(guardOf ? { beforeClose: E.native('guard', () => (asked.push(1), S.app('answer', [], 'Val'))) } : {}),
                ...(own ? { callbacks: E.obj({ 'key-Escape': E.native('own', () => (log.push(1), undef)) }) } : {}),
            });
            E.ensure('registered once', S.bool(registered.length === 1));
            E.ensure('registered under its id', E.same(E.getProp(registered[0][0], 'value'), E.str('own')));
            const handlers = E.getProp(registered[0][1], 'value');
            const key = E.choose('gesture', 2) === 0;
            E.awaitHook = (v) => (v.k === 'obj' && v.kind === 'promise' ? undefined : v);
            const ev = E.obj({ preventDefault: E.native('preventDefault', () => undef), stopPropagation: E.native('stopPropagation', () => undef) });
            if (key) E.call(E.getProp(handlers, 'key-Escape'), [ev]);
            else m.call('onClickDimmed');
            const allowed = E.decide(key ? esc : dim);
            E.ensure('a gesture switched off closes nothing and asks nothing', S.bool(allowed || (closes === 0 && asked.length === 0)));
            E.ensure('its own handler is told of the key', S.bool(log.length === (key && own ? 1 : 0)));
            if (!allowed) return;
            E.ensure('the guard is asked once', S.bool(asked.length === (guardOf ? 1 : 0)));
            const veto = guardOf && E.decide(E.same(S.app('answer', [], 'Val'), S.FALSE));
            E.ensure('closed unless vetoed', S.bool(closes === (veto ? 0 : 1)));
        },
    },
];
