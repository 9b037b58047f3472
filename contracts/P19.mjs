// Locking and releasing the scrolling of an element.
import { S, undef, nul, I } from './prelude.mjs';

const F = 'packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts';
const STYLES = ['overflow', 'paddingRight', 'paddingBottom'];
const STEPS = 5;

function page(E) {
    const before = Object.fromEntries(STYLES.map((n) => [n, E.str(n)]));
    const other = E.str('otherStyle');
    const style = E.obj({ ...before, color: other });
    const size = (n) => E.nat(n);
    const el = E.obj({ style, scrollHeight: size('scrollHeight'), clientHeight: size('clientHeight'), scrollWidth: size('scrollWidth'), clientWidth: size('clientWidth') });
    const t = { before, el, missing: false, asked: [] };
    E.globals.set('document', E.obj({ querySelector: E.native('querySelector', (a) => (t.asked.push(a[0]), t.missing ? nul : el)) }));
    const points = E.nat('touchPoints');
    E.globals.set('navigator', E.obj({ maxTouchPoints: points, userAgent: E.str('userAgent') }));
    const coarse = E.bool('coarse');
    E.globals.set('window', E.obj({ matchMedia: E.native('matchMedia', () => E.obj({ matches: coarse })) }));
    t.touch = S.or(S.gt(points, I(0)), coarse);
    t.now = (n) => E.getProp(style, n);
    t.untouched = () => E.same(E.getProp(style, 'color'), other);
    t.open = (...x) => {
        t.api = E.call(E.get(F, 'useScrollLock'), x);
        t.call = (f) => E.call(E.getProp(t.api, f), []);
        t.locked = () => E.getProp(E.getProp(t.api, 'isLocked'), 'value');
    };
    return t;
}
const frame = (E) => E.runDeferred((d) => d.kind === 'frame');

/**
 * The variables of one lock - a counter of waiting restores and the saved styles - found by using it.
 * Null when it keeps its state in another way; any further state makes it null as well.
 */
function inside(E) {
    const t = page(E);
    t.open();
    t.some = (x) => Object.fromEntries(STYLES.map((n) => [n, E.str(`${x} ${n}`)]));
    const vars = () => {
        const out = [];
        for (let e = E.force(E.getProp(t.api, 'lock')).env; e; e = e.parent)
            for (const [k, v] of e.f ?? []) {
                out.push({ e, k, v });
                if (v.k === 'obj' && v.kind === 'ref') out.push({ e: v, k: 'value', v: v.f.get('value') });
            }
        return out;
    };
    const seen = [vars()];
    for (const f of ['lock', 'unlock', 'lock', 'unlock']) {
        t.call(f);
        seen.push(vars());
    }
    frame(E);
    seen.push(vars());
    if (seen.some((x) => x.length !== seen[0].length)) return [t, null];
    const moved = seen[0].filter((x, i) => seen.some((y) => y[i].v !== x.v));
    const lock = E.getProp(t.api, 'isLocked');
    const own = moved.filter((x) => x.e !== lock);
    const count = own.find((x) => x.v.op === 'num');
    const saved = own.find((x) => x.v.k === 'obj' && x.v.kind === 'obj');
    if (own.length !== 2 || !count || !saved) return [t, null];
    const cell = (x) => vars().find((y) => y.e === x.e && y.k === x.k).v;
    if (STYLES.some((n) => !cell(saved).f.has(n))) return [t, null];
    const style = E.getProp(t.el, 'style');
    const m = {
        waiting: () => cell(count),
        saved: (n) => E.getProp(cell(saved), n),
        kept: (label) => STYLES.forEach((n) => E.ensure(label, E.same(m.saved(n), t.before[n]))),
        put: (x) => {
            E.write(lock, 'value', x.locked);
            E.write(count.e, count.k, x.waiting);
            E.write(saved.e, saved.k, E.obj({ ...x.saved }));
            for (const n of STYLES) E.write(style, n, x.shown[n]);
        },
        /** the frames requested by a call, which may change nothing but the known variables */
        step: (f) => {
            const had = E.deferred.length;
            const known = (x) => [count, saved].some((y) => y.e === x.e && y.k === x.k) || x.e === lock;
            const was = vars();
            t.call(f);
            const now = vars();
            E.ensure('nothing else is remembered', S.bool(was.length === now.length && was.every((x, i) => known(x) || now[i].v === x.v)));
            return E.deferred.slice(had);
        },
    };
    return [t, m];
}
/** histories of a few steps; for an implementation the invariant does not fit */
function histories(E, first) {
    E.assumed.add(`the state of the lock is not the expected one: decided for histories of up to ${STEPS} steps only (bounded)`);
    const t = page(E);
    t.open();
    let locked = false;
    for (let i = 0; i < STEPS; i++) {
        const op = i === 0 ? first : E.choose('step' + i, 3);
        if (op === 2) frame(E);
        else {
            t.call(op === 0 ? 'lock' : 'unlock');
            locked = op === 0;
        }
        E.ensure('tells whether it is locked', E.same(t.locked(), S.bool(locked)));
    }
    frame(E);
    if (locked) {
        E.ensure('scrolling is off while locked', E.same(t.now('overflow'), S.str('hidden')));
        t.call('unlock');
        frame(E);
    }
    for (const n of STYLES) E.ensure('restored exactly', E.same(t.now(n), t.before[n]));
    E.ensure('nothing else is touched', t.untouched());
}
export const assumptions = ['requested animation frames run in the order of the requests, each once, and never inside a lock or a release'];

export const contracts = [
    {
        name: 'one lock and its release',
        run(E) {
            const t = page(E);
            const c = E.choose('container given', 2) === 0 ? E.str('container') : null;
            t.open(...(c ? [c] : []));
            for (const a of t.asked) E.ensure('locks the container asked for', E.same(a, c ?? S.str('body')));
            E.ensure('not locked at first', E.same(t.locked(), S.FALSE));
            t.call('lock');
            E.ensure('locked', E.same(t.locked(), S.TRUE));
            const early = E.choose('released before the frame', 2) === 0;
            if (!early) {
                frame(E);
                E.ensure('scrolling is off while locked', E.same(t.now('overflow'), S.str('hidden')));
                const room = (f, a, b) => E.decide(S.and(S.not(t.touch), S.ge(E.getProp(t.el, a), E.getProp(t.el, b)))) && E.ensure('the place of the scroll bar is kept', E.same(t.now(f), S.str('8px')));
                room('paddingRight', 'scrollHeight', 'clientHeight');
                room('paddingBottom', 'scrollWidth', 'clientWidth');
                if (E.decide(t.touch)) for (const n of STYLES.slice(1)) E.ensure('no room is made on touch devices', E.same(t.now(n), t.before[n]));
            }
            t.call('unlock');
            E.ensure('released', E.same(t.locked(), S.FALSE));
            frame(E);
            for (const n of STYLES) E.ensure('restored exactly', E.same(t.now(n), t.before[n]));
            E.ensure('nothing else is touched', t.untouched());
        },
    },
    // For histories of any length. Between frames the requested frames alternate between applying and restoring the
    // styles; invariant: the counter is the number of restoring ones, the styles from before the first lock are the saved
    // ones while locked or any is waiting, the page shows them when nothing is waiting and nothing is locked, and the last
    // requested frame applies when locked and restores when not. Each step keeps it from any state that satisfies it.
    {
        name: 'a lock taken in any state',
        run(E) {
            const [t, m] = inside(E);
            if (!m) return histories(E, 0);
            const waiting = E.nat('waiting');
            const any = E.choose('restores waiting', 2) === 1;
            E.assume(any ? S.gt(waiting, I(0)) : S.eq(waiting, I(0)));
            m.put({ locked: S.FALSE, waiting, saved: any ? t.before : t.some('saved'), shown: any ? t.some('shown') : t.before });
            const shown = STYLES.map(t.now);
            const f = m.step('lock');
            E.ensure('locked', E.same(t.locked(), S.TRUE));
            E.ensure('the counter stands for the waiting restores', E.same(m.waiting(), waiting));
            m.kept('the styles from before the first lock are saved');
            STYLES.forEach((n, i) => E.ensure('the styles wait for the frame', E.same(t.now(n), shown[i])));
            E.ensure('one frame is requested', S.bool(f.length === 1));
            if (f.length !== 1) return;
            // when its turn comes the earlier ones have run, and later locks and unlocks have been asked for
            const [later, locked] = [E.nat('waiting later'), E.bool('locked later')];
            m.put({ locked, waiting: later, saved: t.before, shown: t.before });
            E.call(f[0].fn, f[0].args ?? []);
            E.ensure('scrolling is off while locked', E.same(t.now('overflow'), S.str('hidden')));
            E.ensure('the counter stands for the waiting restores', E.same(m.waiting(), later));
            E.ensure('a frame does not change the lock', E.same(t.locked(), locked));
            m.kept('the styles from before the first lock are saved');
            E.ensure('nothing else is touched', t.untouched());
        },
    },
    {
        name: 'a release in any state',
        run(E) {
            const [t, m] = inside(E);
            if (!m) return histories(E, 1);
            const waiting = E.nat('waiting');
            m.put({ locked: S.TRUE, waiting, saved: t.before, shown: t.some('shown') });
            const shown = STYLES.map(t.now);
            const f = m.step('unlock');
            E.ensure('released', E.same(t.locked(), S.FALSE));
            E.ensure('the counter stands for the waiting restores', E.same(m.waiting(), S.add(waiting, I(1))));
            m.kept('the styles from before the first lock are saved');
            STYLES.forEach((n, i) => E.ensure('the styles wait for the frame', E.same(t.now(n), shown[i])));
            E.ensure('one frame is requested', S.bool(f.length === 1));
            if (f.length !== 1) return;
            const [later, locked] = [E.nat('waiting later'), E.bool('locked later')];
            E.assume(S.gt(later, I(0)));
            m.put({ locked, waiting: later, saved: t.before, shown: t.some('shown later') });
            E.call(f[0].fn, f[0].args ?? []);
            for (const n of STYLES) E.ensure('restored exactly', E.same(t.now(n), t.before[n]));
            E.ensure('the counter stands for the waiting restores', E.same(m.waiting(), S.sub(later, I(1))));
            E.ensure('a frame does not change the lock', E.same(t.locked(), locked));
            m.kept('the styles from before the first lock are saved');
            E.ensure('nothing else is touched', t.untouched());
        },
    },
    {
        name: 'asking again changes nothing',
        run(E) {
            const [t, m] = inside(E);
            if (!m) return histories(E, 2);
            E.ensure('nothing waits at first', E.same(m.waiting(), I(0)));
            const locked = E.choose('locked', 2) === 1;
            const [waiting, saved, shown] = [E.nat('waiting'), t.some('saved'), t.some('shown')];
            m.put({ locked: S.bool(locked), waiting, saved, shown });
            const f = m.step(locked ? 'lock' : 'unlock');
            E.ensure('no frame is requested', S.bool(f.length === 0));
            E.ensure('the lock stays', E.same(t.locked(), S.bool(locked)));
            E.ensure('the counter stays', E.same(m.waiting(), waiting));
            for (const n of STYLES) E.ensure('the styles stay', S.and(E.same(t.now(n), shown[n]), E.same(m.saved(n), saved[n])));
        },
    },
    {
        name: 'without the container',
        run(E) {
            const t = page(E);
            t.missing = true;
            t.open(E.str('container'));
            t.call('lock');
            frame(E);
            t.call('unlock');
            frame(E);
            E.ensure('nothing happens', E.same(t.locked(), S.FALSE));
        },
    },
];
