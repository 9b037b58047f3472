// Where a floating element is put.
import { S, undef, nul, I, Unsupported } from './prelude.mjs';

const F = 'packages/vlossom/src/composables/positioning/positioning-composable.ts';
const R = (n) => S.real(n);

function page(E) {
    const t = { listeners: [], observers: [] };
    const r = (n) => E.input(n, 'Real');
    const pos = (n) => (E.assume(S.ge(r(n), R(0))), r(n));
    const T = { left: r('targetLeft'), top: r('targetTop'), width: pos('targetWidth'), height: pos('targetHeight') };
    T.right = S.add(T.left, T.width);
    T.bottom = S.add(T.top, T.height);
    const A = { width: pos('width'), height: pos('height'), left: r('ownLeft'), top: r('ownTop') };
    const element = (q) => E.obj({ style: E.obj(), getBoundingClientRect: E.native('getBoundingClientRect', () => E.obj({ ...q, x: q.left, y: q.top })) });
    t.T = T;
    t.A = A;
    t.target = element(T);
    t.own = element({ ...A, right: S.add(A.left, A.width), bottom: S.add(A.top, A.height) });
    t.view = { width: pos('viewWidth'), height: pos('viewHeight') };
    t.scroll = { x: r('scrollX'), y: r('scrollY') };
    const on = (where) => E.native('addEventListener', (a) => (t.listeners.push([where, ...a]), undef));
    const off = (where) =>
        E.native('removeEventListener', (a) => {
            const k = t.listeners.findIndex((l) => l[0] === where && E.same(l[1], a[0]) === S.TRUE && l[2] === a[1]);
            if (k >= 0) t.listeners.splice(k, 1);
            return undef;
        });
    t.missing = false;
    E.globals.set('document', E.obj({ querySelector: E.native('querySelector', () => (t.missing ? nul : t.target)), addEventListener: on('document'), removeEventListener: off('document'), documentElement: E.obj({ scrollLeft: t.scroll.x, scrollTop: t.scroll.y }) }));
    const RO = E.native('ResizeObserver', () => undef);
    RO.construct = (a) => {
        const o = { fn: a[0], on: true };
        t.observers.push(o);
        return E.obj({ observe: E.native('observe', () => undef), disconnect: E.native('disconnect', () => ((o.on = false), undef)) });
    };
    E.globals.set('ResizeObserver', RO);
    E.globals.set('window', E.obj({ innerWidth: t.view.width, innerHeight: t.view.height, scrollX: t.scroll.x, scrollY: t.scroll.y, addEventListener: on('window'), removeEventListener: off('window'), ResizeObserver: RO }));
    t.ref = E.ref(t.own);
    t.api = E.call(E.get(F, 'usePositioning'), [E.str('target'), t.ref]);
    t.get = (f) => E.getProp(E.getProp(t.api, f), 'value');
    t.style = (f) => E.getProp(E.getProp(t.own, 'style'), f);
    t.call = (f, ...x) => E.call(E.getProp(t.api, f), x);
    return t;
}
/** the position the property asks for */
function wanted(E, t, placement, align, margin) {
    const { T, A, view } = t;
    const over = { bottom: S.gt(S.add(T.bottom, A.height), view.height), top: S.lt(S.sub(T.top, A.height), R(0)), left: S.lt(S.sub(T.left, A.width), R(0)), right: S.gt(S.add(T.right, A.width), view.width) };
    const room = { bottom: S.sub(view.height, T.bottom), top: T.top, left: T.left, right: S.sub(view.width, T.right) };
    const opposite = { top: 'bottom', bottom: 'top', left: 'right', right: 'left' };
    let side = placement;
    if (placement !== 'middle' && E.decide(S.and(over[placement], S.gt(room[opposite[placement]], room[placement])))) side = opposite[placement];
    const half = (x) => S.div(x, R(2));
    const x = { start: T.left, end: S.sub(T.right, A.width), center: S.sub(S.add(T.left, half(T.width)), half(A.width)) }[align];
    const y = { start: T.top, end: S.sub(T.bottom, A.height), center: S.sub(S.add(T.top, half(T.height)), half(A.height)) }[align];
    const at = {
        top: [x, S.sub(S.sub(T.top, A.height), margin)],
        bottom: [x, S.add(T.bottom, margin)],
        left: [S.sub(S.sub(T.left, A.width), margin), y],
        right: [S.add(T.right, margin), y],
        middle: [x, S.sub(S.add(T.top, half(T.height)), half(A.height))],
    }[side];
    return { side, x: S.add(at[0], t.scroll.x), y: S.add(at[1], t.scroll.y) };
}
const px = (E, v) => S.strCat(E.toStr(v), S.str('px'));
function check(E, t, label, placement, align, margin, follow) {
    const w = wanted(E, t, placement, align, margin);
    E.ensure(`${label}: side`, E.same(t.get('computedPlacement'), S.str(w.side)));
    E.ensure(`${label}: across`, E.same(t.style('left'), px(E, w.x)));
    E.ensure(`${label}: down`, E.same(t.style('top'), px(E, w.y)));
    E.ensure(`${label}: width`, E.same(t.style('width'), follow ? px(E, t.T.width) : undef));
}

export const contracts = ['top', 'bottom', 'left', 'right', 'middle', null].map((side) => ({
    name: side ? `placing: ${side}` : 'placing by default',
    run(E) {
        const t = page(E);
        const given = {};
        if (side) given.placement = S.str(side);
        const align = ['center', 'start', 'end', 'center'][side ? E.choose('align', 4) : 3];
        if (side) given.align = S.str(align);
        const m = E.choose('margin', 2) === 0;
        const margin = m ? E.input('margin', 'Real') : R(0);
        if (m) given.margin = margin;
        const follow = E.choose('follow width', 2) === 0;
        if (follow) given.followWidth = S.TRUE;
        const bare = Object.keys(given).length === 0;
        t.call('appear', ...(bare ? [] : [E.obj(given)]));
        E.ensure('visible at once', E.same(t.get('isVisible'), S.TRUE));
        E.runDeferred();
        check(E, t, 'at first', side ?? 'top', align, margin, follow);
    },
}));
contracts.push({
    name: 'following while visible',
    run(E) {
        const t = page(E);
        const side = ['top', 'left'][E.choose('placement', 2)];
        const given = E.obj({ placement: S.str(side), align: S.str('start'), margin: E.input('margin', 'Real') });
        t.call('appear', given);
        E.runDeferred();
        t.call('appear', given);
        E.runDeferred();
        const heard = (w, n) => t.listeners.filter((l) => l[0] === w && E.same(l[1], S.str(n)) === S.TRUE);
        E.ensure('listens to scrolling once', S.bool(heard('document', 'scroll').length === 1));
        E.ensure('listens to resizing once', S.bool(heard('window', 'resize').length === 1));
        E.ensure('watches sizes', S.bool(t.observers.length === 1));
        // the page moves
        for (const n of ['left', 'top']) t.T[n] = E.input('later' + n, 'Real');
        t.T.right = S.add(t.T.left, t.T.width);
        t.T.bottom = S.add(t.T.top, t.T.height);
        const now = E.obj({ ...t.T, x: t.T.left, y: t.T.top });
        E.setProp(t.target, 'getBoundingClientRect', E.native('getBoundingClientRect', () => now));
        const how = E.choose('moved by', 3);
        const fns = [heard('document', 'scroll')[0]?.[2], heard('window', 'resize')[0]?.[2], t.observers[0]?.fn];
        if (!fns[how]) return;
        E.call(fns[how], [E.obj()]);
        check(E, t, 'after moving', side, 'start', E.input('margin', 'Real'), false);
        t.call('disappear');
        E.ensure('hidden', E.same(t.get('isVisible'), S.FALSE));
        E.ensure('stops listening', S.bool(t.listeners.length === 0 && t.observers.every((o) => !o.on)));
        // and again
        t.call('disappear');
        t.call('appear', given);
        E.runDeferred();
        E.ensure('listens again', S.bool(t.listeners.length === 2));
        check(E, t, 'shown again', side, 'start', E.input('margin', 'Real'), false);
    },
});
contracts.push({
    name: 'without a target or an element',
    run(E) {
        const t = page(E);
        if (E.choose('missing', 2) === 0) t.missing = true;
        else E.setProp(t.ref, 'value', nul);
        t.call('appear', E.obj({ placement: S.str('top') }));
        E.runDeferred();
        E.ensure('nothing is moved', S.and(E.same(t.style('left'), undef), E.same(t.style('top'), undef)));
        E.ensure('nothing is listened to', S.bool(t.listeners.length === 0 && t.observers.length === 0));
    },
});
