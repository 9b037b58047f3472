export const entry = `export { useScrollLock } from '@/composables';`;
export const needsDom = true;
const STYLES = ['overflow', 'paddingRight', 'paddingBottom'];
export function gen(r) {
    return {
        style: { overflow: r.pick(['', 'auto', 'scroll', 'hidden']), paddingRight: r.pick(['', '0px', '8px', '3px']), paddingBottom: r.pick(['', '0px', '8px', '5px']) },
        size: [r.pick([50, 100, 150]), r.pick([50, 100, 150])],
        touch: r.bool(0.3),
        body: r.bool(),
        ops: r.list(r.int(1, 14), () => r.pick(['lock', 'unlock', 'frame', 'frame'])),
    };
}
export function* shrink(t) {
    for (let i = 0; i < t.ops.length; i++) yield { ...t, ops: t.ops.filter((_, k) => k !== i) };
}
export async function run(M, t) {
    document.body.innerHTML = '<div id="box"></div>';
    const el = t.body ? document.body : document.getElementById('box');
    for (const k of STYLES) el.style[k] = t.style[k];
    const before = STYLES.map((k) => el.style[k]);
    const def = (k, v) => Object.defineProperty(el, k, { configurable: true, get: () => v });
    def('scrollHeight', t.size[0]);
    def('clientHeight', 100);
    def('scrollWidth', t.size[1]);
    def('clientWidth', 100);
    const keep = [globalThis.requestAnimationFrame, window.requestAnimationFrame, window.matchMedia];
    let frames = [];
    globalThis.requestAnimationFrame = window.requestAnimationFrame = (f) => frames.push(f);
    window.matchMedia = () => ({ matches: t.touch });
    const frame = () => {
        const list = frames;
        frames = [];
        for (const f of list) f(0);
    };
    const now = () => STYLES.map((k) => el.style[k]);
    const what = JSON.stringify(t);
    try {
        const s = t.body ? M.useScrollLock() : M.useScrollLock('#box');
        let locked = false;
        for (const o of t.ops) {
            if (o === 'frame') {
                frame();
                if (locked && el.style.overflow !== 'hidden') return `${what}: scrolling is on while locked`;
                if (!locked && String(now()) !== String(before)) return `${what}: released with ${now()}, expected ${before}`;
            } else {
                s[o]();
                locked = o === 'lock';
            }
            if (s.isLocked.value !== locked) return `${what}: says locked ${s.isLocked.value}`;
        }
        s.unlock();
        frame();
        if (String(now()) !== String(before)) return `${what}: released with ${now()}, expected ${before}`;
        return null;
    } finally {
        [globalThis.requestAnimationFrame, window.requestAnimationFrame, window.matchMedia] = keep;
        for (const k of STYLES) el.style[k] = '';
    }
}
