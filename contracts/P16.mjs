// Items per container, and the toasts built on them.
import { S, undef, nul, I, lift, seq, rec, within, Unsupported } from './prelude.mjs';

const CS = 'packages/vlossom/src/stores/container-store.ts';
const OS = 'packages/vlossom/src/stores/overlay-container-store.ts';
const TP = 'packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts';
const G = 'packages/vlossom/src/stores/global-stores.ts';
const num = (c) => S.app('items', [c], 'Int');
const id = (c, i) => S.app('id', [c, i], 'Str');
const what = (c, i) => S.app('what', [c, i], 'Val');
const has = (c) => S.app('containers_has', [c], 'Bool');
const count = (c) => S.ite(has(c), num(c), I(0));
const list = (c) => seq(num(c), (i) => rec(new Map([['id', id(c, i)], ['container', c], ['content', what(c, i)]])));

/** any items in any containers; ids need not be distinct */
function store(E) {
    const s = E.construct(E.get(CS, 'ContainerStore'), []);
    const field = [...s.f.values()].find((x) => x.k === 'obj' && x.kind === 'ref' && x.f.get('value').kind === 'map');
    if (!field) throw new Unsupported('no map of containers found');
    const c = E.bvar('Val', 'c');
    E.assume(S.forall([c], S.gt(num(c), I(0)), [[num(c)]]));
    E.setProp(field, 'value', E.symMap('map', 'containers', list));
    return { s, call: (f, ...x) => E.call(E.getProp(s, f), x), get: (k) => E.seqOf(E.call(E.getProp(s, 'get'), [k])), has: (k) => E.call(E.getProp(s, 'has'), [k]) };
}
const sameItem = (E, x, c, i) => S.and(E.same(E.getProp(x, 'id'), id(lift(c), i)), E.same(E.getProp(x, 'content'), what(lift(c), i)));
function prefix(E, label, now, c, n) {
    const k = E.fresh('k', 'Int');
    if (E.decide(within(k, n))) E.ensure(label, sameItem(E, now.at(k), c, k));
}
function others(E, p, c) {
    const o = E.str('otherContainer');
    if (!E.decide(S.not(S.eq(o, c)))) return;
    const now = p.get(o);
    E.ensure('other containers keep their number of items', S.eq(now.len, count(lift(o))));
    E.ensure('other containers neither appear nor vanish', S.eq(p.has(o), has(lift(o))));
    prefix(E, 'other containers keep their items', now, o, now.len);
}
/** the items of c afterwards: those before without the ones named x */
function without(E, p, c, x) {
    const cl = lift(c);
    const now = p.get(c);
    if (!E.decide(has(cl))) return E.ensure('nothing there, nothing removed', S.and(S.eq(now.len, I(0)), S.not(p.has(c))));
    const rest = E.filterSeq(list(cl), (i) => S.not(S.eq(id(cl, i), x)));
    E.relateCounts(rest);
    E.ensure('only items with that id leave: number', S.eq(now.len, rest.len));
    const k = E.fresh('k', 'Int');
    if (E.decide(within(k, rest.len))) {
        E.ensure('only items with that id leave: the others stay in order', E.same(E.getProp(now.at(k), 'id'), E.getProp(rest.at(k), 'id')));
        E.ensure('only items with that id leave: unchanged', E.same(E.getProp(now.at(k), 'content'), E.getProp(rest.at(k), 'content')));
    }
    E.ensure('an emptied container leaves nothing behind', S.eq(p.has(c), S.gt(rest.len, I(0))));
}
function added(E, p, c) {
    const now = p.get(c);
    const n = count(lift(c));
    E.ensure('one more item', S.eq(now.len, S.add(n, I(1))));
    E.ensure('the container is there', p.has(c));
    prefix(E, 'the items before stay in order', now, c, n);
    return now.at(n);
}

export const contracts = [
    {
        name: 'adding an item',
        run(E) {
            const p = store(E);
            const c = E.str('container');
            p.call('push', c, rec(new Map([['id', E.str('x')], ['container', c], ['content', E.val('new')]])));
            const last = added(E, p, c);
            E.ensure('the new item is last', S.and(E.same(E.getProp(last, 'id'), E.str('x')), E.same(E.getProp(last, 'content'), E.val('new'))));
            others(E, p, c);
        },
    },
    {
        name: 'removing by id',
        run(E) {
            const p = store(E);
            const c = E.str('container');
            p.call('remove', c, E.str('x'));
            without(E, p, c, E.str('x'));
            others(E, p, c);
        },
    },
    {
        name: 'removing the last item',
        run(E) {
            const p = store(E);
            const c = E.str('container');
            p.call('pop', c);
            const n = count(lift(c));
            const left = S.ite(S.gt(n, I(0)), S.sub(n, I(1)), I(0));
            E.ensure('one item fewer', S.eq(p.get(c).len, left));
            prefix(E, 'the items before stay in order', p.get(c), c, left);
            E.ensure('an emptied container leaves nothing behind', S.eq(p.has(c), S.gt(left, I(0))));
            others(E, p, c);
        },
    },
    {
        name: 'replacing and clearing the items of a container',
        run(E) {
            const p = store(E);
            const c = E.str('container');
            if (E.choose('how', 2) === 0) {
                const m = E.nat('many');
                p.call('set', c, E.arr(seq(m, (i) => rec(new Map([['id', S.app('newId', [i], 'Str')]])))));
                E.ensure('as many as given', S.eq(p.get(c).len, m));
                const k = E.fresh('k', 'Int');
                if (E.decide(within(k, m))) E.ensure('the items given', E.same(E.getProp(p.get(c).at(k), 'id'), S.app('newId', [k], 'Str')));
            } else {
                p.call('delete', c);
                E.ensure('nothing left', S.and(S.eq(p.get(c).len, I(0)), S.not(p.has(c))));
            }
            others(E, p, c);
        },
    },
    {
        name: 'clearing everything, and reading',
        run(E) {
            const p = store(E);
            const c = E.str('container');
            E.ensure('reading tells whether a container has items', S.eq(p.has(c), has(lift(c))));
            E.ensure('reading returns its items', S.eq(p.get(c).len, count(lift(c))));
            prefix(E, 'reading returns its items in order', p.get(c), c, count(lift(c)));
            p.call('clear');
            E.ensure('nothing left anywhere', S.and(S.eq(p.get(c).len, I(0)), S.not(p.has(c))));
        },
    },
    ...['show', 'info', 'success', 'warning', 'error'].map((kind) => ({
        name: `showing a toast: ${kind}`,
        run(E) {
            const p = store(E);
            const exists = E.choose('the container exists', 2) === 0;
            const asked = [];
            const views = [];
            E.globals.set('document', E.obj({ querySelector: E.native('querySelector', (a) => (asked.push(a[0]), exists ? E.obj({ style: E.obj({ position: E.str('pos') }) }) : nul)) }));
            E.globals.set('console', E.obj(Object.fromEntries(['log', 'warn', 'error', 'info'].map((n) => [n, E.native(n, () => undef)]))));
            E.stubs.set(`call:${G}#useToastContainerStore`, () => p.s);
            E.stubs.set(`call:${G}#useOverlayContainerStore`, () => E.obj({ push: E.native('push', (a) => (views.push(a), undef)) }));
            const api = E.call(E.get(TP, 'createToastPlugin'), []);
            const own = {};
            const logged = [];
            if (E.choose('settings', 2) === 0) {
                own.colorScheme = E.str('ownColor');
                own.timeout = E.val('ownTimeout');
                own.placement = E.str('ownPlacement');
                own.align = E.str('ownAlign');
                own.autoClose = E.bool('ownAutoClose');
                own.primary = E.bool('ownPrimary');
                own.logger = E.native('logger', (a) => (logged.push(a[0]), undef));
            }
            if (E.choose('container given', 2) === 0) {
                own.container = E.str('container');
                E.assume(S.not(S.eq(own.container, S.str(''))));
            }
            const c = own.container ?? S.str('body');
            const none = Object.keys(own).length === 0 && E.choose('no settings at all', 2) === 0;
            E.call(E.getProp(api, kind), [E.str('content'), ...(none ? [] : [E.obj(own)])]);
            others(E, p, c);
            for (const a of asked) E.ensure('looks for the container asked for', E.same(a, c));
            if (!exists) {
                E.ensure('without the container nothing is shown', S.eq(p.get(c).len, count(lift(c))));
                return prefix(E, 'without the container nothing changes', p.get(c), c, count(lift(c)));
            }
            const last = added(E, p, c);
            E.ensure('its content', E.same(E.getProp(last, 'content'), E.str('content')));
            E.ensure('its container', E.same(E.getProp(last, 'container'), c));
            for (const f of ['timeout', 'autoClose', 'primary']) E.ensure(`its ${f}`, E.same(E.getProp(last, f), own[f] ?? undef));
            const color = { show: undef, info: S.str('cyan'), success: S.str('green'), warning: S.str('yellow'), error: S.str('red') }[kind];
            E.ensure('its colour', E.same(E.getProp(last, 'colorScheme'), own.colorScheme ?? color));
            E.ensure('its placement', E.same(E.getProp(last, 'placement'), own.placement ?? S.str('top')));
            E.ensure('its alignment', E.same(E.getProp(last, 'align'), own.align ?? S.str('center')));
            E.ensure('logged when asked', S.bool(logged.length === (own.logger ? 1 : 0)));
            if (logged[0]) E.ensure('logged when asked', E.same(logged[0], E.str('content')));
            E.ensure('its view is mounted in that container', S.bool(views.length === 1));
            if (views[0]) E.ensure('its view is mounted in that container', E.same(views[0][1], c));
        },
    })),
    {
        name: 'removing and clearing toasts',
        run(E) {
            const p = store(E);
            E.stubs.set(`call:${G}#useToastContainerStore`, () => p.s);
            const api = E.call(E.get(TP, 'createToastPlugin'), []);
            const c = E.str('container');
            if (E.choose('how', 2) === 0) {
                E.call(E.getProp(api, 'remove'), [c, E.str('x')]);
                without(E, p, c, E.str('x'));
                return others(E, p, c);
            }
            const body = E.choose('container', 2) === 1;
            const d = body ? S.str('body') : c;
            E.call(E.getProp(api, 'clear'), body ? [] : [c]);
            E.ensure('nothing left', S.and(S.eq(p.get(d).len, I(0)), S.not(p.has(d))));
            others(E, p, d);
        },
    },
    {
        name: 'closing a toast on the screen',
        run(E) {
            const p = store(E);
            E.stubs.set(`call:${G}#useToastContainerStore`, () => p.s);
            const c = E.str('container');
            const m = E.mount('packages/vlossom/src/components/vs-toast/VsToastView.vue', { container: c });
            m.call('removeToast', E.str('x'));
            without(E, p, c, E.str('x'));
            others(E, p, c);
        },
    },
    {
        name: 'closing a modal on the screen',
        run(E) {
            const p = store(E);
            E.stubs.set(`call:${G}#useModalContainerStore`, () => p.s);
            const c = E.str('container');
            const m = E.mount('packages/vlossom/src/components/vs-modal/VsModalView.vue', { container: c });
            const shown = E.seqOf(m.val('modals'));
            const real = E.decide(S.eq(c, S.str(''))) ? S.str('body') : c;
            E.ensure('shows the modals of its container', S.eq(shown.len, count(lift(real))));
            prefix(E, 'shows the modals of its container in order', shown, real, shown.len);
            m.call('onClose', E.str('x'));
            without(E, p, c, E.str('x'));
            others(E, p, c);
        },
    },
    {
        name: 'one view per overlay id',
        run(E) {
            const s = E.construct(E.get(OS, 'OverlayContainerStore'), []);
            const field = [...s.f.values()].find((x) => x.k === 'obj' && x.kind === 'ref' && x.f.get('value').kind === 'map');
            if (!field) throw new Unsupported('no map of views found');
            const hasView = (k) => S.app('views_has', [k], 'Bool');
            const at = (k) => S.app('viewContainer', [k], 'Str');
            E.setProp(field, 'value', E.symMap('map', 'views', (k) => rec(new Map([['container', at(k)], ['component', S.app('viewComponent', [k], 'Val')]]))));
            const view = (k) => E.call(E.getProp(E.getProp(E.getProp(s, 'overlayViewMap'), 'value'), 'get'), [k]);
            const [x, o] = [E.str('x'), E.str('otherId')];
            const op = E.choose('op', 3);
            if (op === 0) E.call(E.getProp(s, 'push'), [x, E.str('container'), E.val('component')]);
            if (op === 1) E.call(E.getProp(s, 'delete'), [x]);
            if (op === 2) E.call(E.getProp(s, 'clear'), []);
            const v = view(x);
            if (op === 0) {
                const old = E.decide(hasView(lift(x)));
                E.ensure('a view there stays, otherwise the new one is added', E.same(E.getProp(v, 'container'), old ? at(lift(x)) : E.str('container')));
            } else E.ensure('gone', E.isNullish(v));
            if (op !== 2 && E.decide(S.not(S.eq(o, x)))) {
                if (E.decide(hasView(lift(o)))) E.ensure('other views stay', E.same(E.getProp(view(o), 'container'), at(lift(o))));
                else E.ensure('no other view appears', E.isNullish(view(o)));
            }
        },
    },
];
