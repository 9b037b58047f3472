export const entry = `export { usePositioning } from '@/composables';
export { ref, nextTick } from 'vue';`;
export const needsDom = true;
export function gen(r) {
    const n = () => r.pick([0, 10, 50, 90, 95, 100, 105, 110, 150, 190, 200, 250, r.int(-50, 300)]);
    const size = () => r.pick([0, 10, 20, 45, 90, 100, 105, r.int(0, 250)]);
    return {
        target: { left: n(), top: n(), width: size(), height: size() },
        moved: { left: n(), top: n() },
        own: { width: size(), height: size() },
        view: { width: r.pick([200, 300, 100]), height: r.pick([200, 300, 100]) },
        scroll: { x: r.pick([0, 0, 7]), y: r.pick([0, 0, 13]) },
        placement: r.pick(['top', 'bottom', 'left', 'right', 'middle', undefined]),
        align: r.pick(['start', 'center', 'end', undefined]),
        margin: r.pick([undefined, 0, 5, -3, 20]),
        follow: r.pick([undefined, true, false]),
        by: r.pick(['scroll', 'resize', 'observer', 'none']),
        again: r.bool(),
        missing: r.bool(0.05),
    };
}
const J = JSON.stringify;
const OPP = { top: 'bottom', bottom: 'top', left: 'right', right: 'left' };
function wanted(t, T) {
    const [right, bottom] = [T.left + T.width, T.top + T.height];
    const { width: w, height: h } = t.own;
    const room = { top: T.top, left: T.left, bottom: t.view.height - bottom, right: t.view.width - right };
    const need = { top: h, bottom: h, left: w, right: w };
    let side = t.placement ?? 'top';
    if (side !== 'middle' && room[side] < need[side] && room[OPP[side]] > room[side]) side = OPP[side];
    const align = t.align ?? 'center';
    const m = t.margin ?? 0;
    const x = { start: T.left, end: right - w, center: T.left + T.width / 2 - w / 2 }[align];
    const y = { start: T.top, end: bottom - h, center: T.top + T.height / 2 - h / 2 }[align];
    const at = { top: [x, T.top - h - m], bottom: [x, bottom + m], left: [T.left - w - m, y], right: [right + m, y], middle: [x, T.top + T.height / 2 - h / 2] }[side];
    return { side, x: at[0] + t.scroll.x, y: at[1] + t.scroll.y };
}
export async function run(M, t) {
    document.body.innerHTML = t.missing ? '' : '<div id="target"></div>';
    let T = { ...t.target };
    const target = document.getElementById('target');
    const rect = (q) => ({ ...q, x: q.left, y: q.top, right: q.left + q.width, bottom: q.top + q.height });
    if (target) target.getBoundingClientRect = () => rect(T);
    const own = document.createElement('div');
    document.body.appendChild(own);
    own.getBoundingClientRect = () => rect({ left: 0, top: 0, ...t.own });
    const set = (o, k, v) => Object.defineProperty(o, k, { configurable: true, writable: true, value: v });
    set(window, 'innerWidth', t.view.width);
    set(window, 'innerHeight', t.view.height);
    set(window, 'scrollX', t.scroll.x);
    set(window, 'scrollY', t.scroll.y);
    const heard = [];
    const watch = (o, name) => {
        const [add, rem] = [o.addEventListener, o.removeEventListener];
        o.addEventListener = (n, f) => void (['scroll', 'resize'].includes(n) && heard.push([name, n, f]));
        o.removeEventListener = (n, f) => {
            const k = heard.findIndex((h) => h[0] === name && h[1] === n && h[2] === f);
            if (k >= 0) heard.splice(k, 1);
        };
        return () => ((o.addEventListener = add), (o.removeEventListener = rem));
    };
    const observers = [];
    const RO = globalThis.ResizeObserver;
    const Fake = class {
        constructor(f) {
            this.f = f;
            this.on = true;
            observers.push(this);
        }
        observe() {}
        disconnect() {
            this.on = false;
        }
    };
    globalThis.ResizeObserver = Fake;
    window.ResizeObserver = Fake;
    const undo = [watch(document, 'document'), watch(window, 'window')];
    try {
        const p = M.usePositioning('#target', M.ref(own));
        const info = { placement: t.placement, align: t.align, margin: t.margin, followWidth: t.follow };
        for (const k in info) if (info[k] === undefined) delete info[k];
        const show = async () => {
            p.appear(...(Object.keys(info).length ? [info] : []));
            await M.nextTick();
            await M.nextTick();
        };
        const close = (a, b) => Math.abs(parseFloat(a) - b) < 1e-6 && a.endsWith('px');
        const check = (what) => {
            const w = wanted(t, T);
            const where = `${what}: target ${J(T)}, own ${J(t.own)}, view ${J(t.view)}, ${J(info)}`;
            if (p.computedPlacement.value !== w.side) return `${where}: on the ${p.computedPlacement.value}, expected ${w.side}`;
            if (!close(own.style.left, w.x) || !close(own.style.top, w.y)) return `${where}: at ${own.style.left} ${own.style.top}, expected ${w.x} ${w.y}`;
            if (t.follow ? !close(own.style.width, T.width) : own.style.width) return `${where}: width ${own.style.width}`;
            return null;
        };
        await show();
        if (!p.isVisible.value) return 'not visible';
        if (t.missing) return heard.length || own.style.left ? 'moved without a target' : null;
        let bad = check('at first');
        if (bad) return bad;
        await show();
        if (heard.length !== 2 || observers.length !== 1) return `listens ${heard.length} times, ${observers.length} observers`;
        if (t.by !== 'none') {
            T = { ...T, ...t.moved };
            if (t.by === 'observer') observers[0].f();
            else {
                const h = heard.find((x) => x[1] === t.by);
                if (!h) return `does not listen to ${t.by}`;
                h[2](new Event(t.by));
            }
            bad = check(`after ${t.by}`);
            if (bad) return bad;
        }
        p.disappear();
        if (p.isVisible.value) return 'still visible';
        if (heard.length || observers.some((o) => o.on)) return 'still listening when hidden';
        if (t.again) {
            T = { ...t.target };
            await show();
            bad = check('again');
            if (bad) return bad;
            if (heard.length !== 2) return `listens ${heard.length} times when shown again`;
        }
        return null;
    } finally {
        for (const f of undo) f();
        globalThis.ResizeObserver = RO;
        window.ResizeObserver = RO;
    }
}
