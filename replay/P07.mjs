import { mount } from './mount.mjs';
export const entry = `export { default as VsSelect } from '@/components/vs-select/VsSelect.vue';
export { useSelectValue } from '@/components/vs-select/composables/select-value-composable';
export { h, createApp, reactive, nextTick, toRaw, ref } from 'vue';`;
export const needsDom = true;
export function gen(r) {
    const n = r.int(0, 7);
    const plain = r.pick(['str', 'num', 'obj', 'desc']);
    return {
        n: plain === 'desc' ? r.int(12, 24) : n,
        plain,
        multiple: r.bool(0.7),
        off: r.list(24, () => r.bool(0.3)),
        shown: r.list(24, () => r.bool(0.75)),
        start: r.list(r.int(0, 4), () => r.int(0, 7)).filter((x, i, l) => l.indexOf(x) === i),
        unavailable: r.bool(0.1),
        component: r.bool(0.35),
        ops: r.list(r.int(1, 6), () => r.pick([['toggle', r.int(0, 23)], ['toggle', r.int(0, 7)], ['all'], ['selectAll'], ['deselectAll'], ['deselect', r.int(0, 7)], ['clear'], ['bind', r.list(r.int(0, 4), () => r.int(0, 8))], ['lock', r.bool()]])),
    };
}
export function* shrink(t) {
    if (t.ops.length > 1) for (let i = 0; i < t.ops.length; i++) yield { ...t, ops: t.ops.filter((_, k) => k !== i) };
    if (t.start.length) yield { ...t, start: [] };
    if (t.n > 1) yield { ...t, n: t.n - 1, start: t.start.filter((x) => x < t.n - 1) };
}
const value = (t, i) => ({ str: 'v' + i, num: i, obj: { id: i }, desc: t.n - i })[t.plain];
const J = JSON.stringify;
export async function run(M, t) {
    const N = t.n;
    let start = t.start.filter((x) => x < N);
    if (!t.multiple) start = start.slice(0, 1);
    return t.component ? component(M, t, N, start) : composable(M, t, N, start);
}
function composable(M, t, N, start) {
    const options = Array.from({ length: N }, (_, i) => ({ id: 'o' + i, label: 'L' + i, value: value(t, i), item: value(t, i), index: i, disabled: t.off[i] }));
    const lock = M.ref(t.unavailable);
    const shown = options.filter((_, i) => t.shown[i]);
    const s = M.useSelectValue({ isSelectUnavailable: lock, computedOptions: M.ref(options), filteredOptions: M.ref(shown), multiple: M.ref(t.multiple) });
    let sel = start.map((i) => 'o' + i);
    s.selectedOptionIds.value = sel.slice();
    const avail = shown.filter((o) => !o.disabled).map((o) => o.id);
    for (const op of t.ops) {
        const id = 'o' + op[1];
        const was = sel;
        if (op[0] === 'toggle') {
            s.toggleSelect(id);
            if (!lock.value) {
                if (t.multiple && sel.includes(id)) sel = sel.filter((x) => x !== id);
                else if (avail.includes(id)) sel = t.multiple ? [...sel, id] : [id];
            }
        } else if (op[0] === 'all') {
            if (!t.multiple) continue;
            const full = avail.length > 0 && avail.every((x) => sel.includes(x));
            s.toggleSelectAll();
            if (!lock.value) sel = full ? sel.filter((x) => !avail.includes(x)) : [...sel, ...avail.filter((x) => !sel.includes(x))];
        } else if (op[0] === 'selectAll') {
            if (!t.multiple) continue;
            s.selectAll();
            if (!lock.value) sel = [...sel, ...avail.filter((x) => !sel.includes(x))];
        } else if (op[0] === 'deselectAll') {
            s.deselectAll();
            sel = sel.filter((x) => !avail.includes(x));
        } else if (op[0] === 'deselect') {
            s.deselectOption(id);
            sel = sel.filter((x) => x !== id);
        } else if (op[0] === 'clear') {
            s.clearSelected();
            sel = [];
        } else if (op[0] === 'lock') lock.value = op[1];
        else {
            const vals = op[1].map((i) => (t.plain === 'obj' ? { id: i } : value(t, i)));
            const known = (v) => options.some((o) => J(o.value) === J(v));
            const got = s.convertValue(t.multiple ? vals : vals[0]);
            const want = t.multiple ? vals.filter(known) : vals.length && known(vals[0]) ? vals[0] : null;
            if (J(got) !== J(want)) return `bound ${J(vals)} converts to ${J(got)}, expected ${J(want)}`;
        }
        const now = s.selectedOptionIds.value;
        if (J(now) !== J(sel)) return `${J(op)} on ${J(was)} (on offer ${J(avail)}, unavailable ${lock.value}): ${J(now)}, expected ${J(sel)}`;
        const full = t.multiple && avail.length > 0 && avail.every((x) => sel.includes(x));
        if (s.isSelectedAll.value !== full) return `${J(op)}: shown as all ${s.isSelectedAll.value}, expected ${full}`;
        if (s.isEmpty.value !== (sel.length === 0)) return `isEmpty ${s.isEmpty.value} with ${J(sel)}`;
        if (J(s.selectedOptions.value.map((o) => o.id)) !== J(sel)) return `selected options ${J(s.selectedOptions.value.map((o) => o.id))}, expected ${J(sel)}`;
        for (const o of options) if (s.isSelected(o.id) !== sel.includes(o.id)) return `isSelected(${o.id}) is ${s.isSelected(o.id)}`;
    }
    return null;
}
async function component(M, t, N, start) {
    const options = Array.from({ length: N }, (_, i) => value(t, i));
    const bound = start.map((i) => value(t, i));
    const c = mount(M, M.VsSelect, { options, multiple: t.multiple, optionsDisabled: (_o, i) => t.off[i], modelValue: t.multiple ? bound : (bound[0] ?? null), disabled: t.unavailable }, { vmodel: true });
    const settle = async () => {
        for (let i = 0; i < 4; i++) await M.nextTick();
    };
    try {
        await settle();
        let sel = start;
        const can = options.map((_, i) => i).filter((i) => !t.off[i]);
        let lock = t.unavailable;
        for (const op of t.ops) {
            const was = sel;
            if (op[0] === 'toggle') {
                if (!N) continue;
                const i = op[1] % N;
                c.s.selectOptionItem(c.s.filteredOptions[i]);
                if (!lock) {
                    if (t.multiple && sel.includes(i)) sel = sel.filter((x) => x !== i);
                    else if (can.includes(i)) sel = t.multiple ? [...sel, i] : [i];
                }
            } else if (op[0] === 'all' && t.multiple) {
                const full = can.length > 0 && can.every((x) => sel.includes(x));
                c.s.toggleSelectAll();
                if (!lock) sel = full ? sel.filter((x) => !can.includes(x)) : [...sel, ...can.filter((x) => !sel.includes(x))];
            } else if (op[0] === 'deselect' && N) {
                const i = op[1] % N;
                c.s.deselectOption(c.s.filteredOptions[i].id);
                sel = sel.filter((x) => x !== i);
            } else if (op[0] === 'clear') {
                c.s.clear();
                sel = [];
            } else if (op[0] === 'lock') {
                lock = op[1];
                c.state.disabled = lock;
            } else if (op[0] === 'bind') {
                const ix = op[1].filter((x, i, l) => l.indexOf(x) === i);
                const vals = ix.map((i) => (i < N ? value(t, i) : 'nothing'));
                c.state.modelValue = t.multiple ? vals : (vals[0] ?? null);
                sel = (t.multiple ? ix : ix.slice(0, 1)).filter((i) => i < N);
            } else continue;
            await settle();
            const want = sel.map((i) => value(t, i));
            const now = M.toRaw(c.s.inputValue);
            if (J(now) !== J(t.multiple ? want : (want[0] ?? null))) return `${J(op)} on ${J(was)} of ${J(options)} (disabled ${J(options.map((_, i) => i).filter((i) => t.off[i]))}, unavailable ${lock}): value ${J(now)}, expected ${J(want)}`;
            for (let i = 0; i < N; i++) if (c.s.isSelected(c.s.filteredOptions[i].id) !== sel.includes(i)) return `${J(op)}: option ${J(options[i])} shown as selected: ${!sel.includes(i)}`;
        }
    } finally {
        c.unmount();
    }
    return null;
}
