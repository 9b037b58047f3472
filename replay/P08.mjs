import { mount } from './mount.mjs';
export const entry = `export { default as VsCheckbox } from '@/components/vs-checkbox/VsCheckbox.vue';
export { default as VsSwitch } from '@/components/vs-switch/VsSwitch.vue';
export { useValueMatcher } from '@/composables';
export { h, createApp, reactive, nextTick, toRaw, ref } from 'vue';`;
export const needsDom = true;
const POOL = [1, 2, '1', 'a', true, false, null, { id: 1 }, { id: 2 }, { id: 1, n: { x: [1] } }, [1], [1, 2], 0, ''];
export function gen(r) {
    return {
        multiple: r.bool(0.7),
        own: r.int(0, POOL.length - 1),
        other: r.int(0, POOL.length - 1),
        group: r.list(r.int(0, 6), () => r.int(0, POOL.length - 1)),
        bound: r.pick(['group', 'group', 'group', 'nil', 'scalar']),
        single: r.int(0, POOL.length - 1),
        ops: r.list(r.int(1, 5), () => r.pick(['check', 'uncheck', 'add', 'clear', 'own'])),
        via: r.pick(['fn', 'fn', 'fn', 'fn', 'VsCheckbox', 'VsSwitch']),
        twice: r.bool(),
    };
}
export function* shrink(t) {
    if (t.ops.length > 1) for (let i = 0; i < t.ops.length; i++) yield { ...t, ops: t.ops.filter((_, k) => k !== i) };
    for (let i = 0; i < t.group.length; i++) yield { ...t, group: t.group.filter((_, k) => k !== i) };
}
const J = JSON.stringify;
const copy = (x) => (x && typeof x === 'object' ? JSON.parse(JSON.stringify(x)) : x);
export async function run(M, t) {
    const own = copy(POOL[t.own]);
    const other = copy(POOL[t.other]);
    const same = (a, b) => a === b || (typeof a === 'object' && typeof b === 'object' && J(a) === J(b));
    if (t.via !== 'fn') return component(M, t, own, other, same);
    const value = !t.multiple ? copy(POOL[t.single]) : t.bound === 'nil' ? null : t.bound === 'scalar' ? 'x' : t.group.map((i) => copy(POOL[i]));
    const input = M.ref(value);
    const m = M.useValueMatcher(M.ref(t.multiple), input, M.ref(own), M.ref(other));
    let now = copy(value);
    const list = () => (Array.isArray(now) ? now : []);
    const has = () => (t.multiple ? list().some((x) => same(x, own)) : same(now, own));
    const init = M.toRaw(m.getInitialValue());
    const wantInit = t.multiple ? list() : has() ? own : other;
    if (J(init) !== J(wantInit)) return `starts as ${J(init)}, expected ${J(wantInit)} (bound ${J(now)}, own ${J(own)}, other ${J(other)})`;
    for (const op of t.ops) {
        const before = M.toRaw(input.value);
        const copyOf = copy(before);
        let want;
        let got;
        if (op === 'check' || op === 'uncheck') {
            got = m.getUpdatedValue(op === 'check');
            want = t.multiple ? (op === 'check' ? (has() ? list() : [...list(), own]) : list().filter((x) => !same(x, own))) : op === 'check' ? own : other;
        } else if (op === 'clear') {
            got = m.getClearedValue();
            want = t.multiple ? [] : other;
        } else if (op === 'own') {
            if (!t.multiple) continue;
            got = [...list(), own];
            want = got;
        } else {
            m.addTrueValue();
            got = input.value;
            want = t.multiple && Array.isArray(now) && !has() ? [...now, own] : now;
        }
        if (J(got) !== J(want)) return `${op} on ${J(now)} with own ${J(own)}, other ${J(other)}: ${J(got)}, expected ${J(want)}`;
        if (op !== 'add' && J(before) !== J(copyOf)) return `${op} modified the bound group ${J(copyOf)} to ${J(before)}`;
        input.value = got;
        now = copy(want);
        if (m.isMatched.value !== has()) return `${J(now)} with own ${J(own)} reads as checked: ${m.isMatched.value}`;
    }
    return null;
}
async function component(M, t, own, other, same) {
    if (own === null || other === null || same(own, other)) return null;
    const group = t.group.map((i) => copy(POOL[i])).filter((x) => x !== null);
    const value = t.multiple ? group : copy(POOL[t.single]) ?? other;
    const c = mount(M, M[t.via], { multiple: t.multiple, modelValue: copy(value), trueValue: own, falseValue: other }, { vmodel: true });
    try {
        for (let i = 0; i < 3; i++) await M.nextTick();
        let now = t.multiple ? group : same(value, own) ? own : other;
        for (let k = 0; k < t.ops.length; k++) {
            const bound = M.toRaw(c.s.inputValue);
            if (J(bound) !== J(now)) return `${t.via}: value ${J(bound)}, expected ${J(now)}`;
            const on = t.multiple ? now.some((x) => same(x, own)) : same(now, own);
            if (c.s.isChecked !== on) return `${t.via}: checked ${c.s.isChecked} with ${J(now)}, own ${J(own)}`;
            const held = copy(bound);
            await (c.s.toggle ?? c.s.onChange)(new window.MouseEvent('click'));
            for (let i = 0; i < 3; i++) await M.nextTick();
            if (J(bound) !== J(held)) return `${t.via}: toggling modified the bound group ${J(held)} to ${J(bound)}`;
            now = t.multiple ? (on ? now.filter((x) => !same(x, own)) : [...now, own]) : on ? other : own;
        }
        const end = M.toRaw(c.state.modelValue);
        if (J(end) !== J(now)) return `${t.via}: bound value ${J(end)}, expected ${J(now)}`;
    } finally {
        c.unmount();
    }
    return null;
}
