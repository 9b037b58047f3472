import { mount } from './mount.mjs';
export const entry = `export { default as VsSelect } from '@/components/vs-select/VsSelect.vue';
export { default as VsRadioSet } from '@/components/vs-radio/VsRadioSet.vue';
export { default as VsCheckboxSet } from '@/components/vs-checkbox/VsCheckboxSet.vue';
export { useInputOption, useOptionList, useOptionLabelValue } from '@/composables';
export { h, createApp, reactive, nextTick, toRaw, ref } from 'vue';`;
export const needsDom = true;
const plain = [0, 1, 2, 10, 11, '', 'a', 'a1', 'b', false, true, null, '0'];
function option(r, kind) {
    if (kind === 'plain') return r.pick(plain);
    if (kind === 'mixed') return r.bool(0.5) ? r.pick(plain) : option(r, 'obj');
    const o = { name: r.pick(['n1', 'n', 'x', '', 7, undefined]), code: r.pick([0, 1, '', 'c', false, null, undefined, { z: 1 }]), in: { v: r.int(0, 3) } };
    return JSON.parse(JSON.stringify(o));
}
export function gen(r) {
    const kind = r.pick(['plain', 'plain', 'obj', 'mixed', 'desc']);
    const list = () => (kind === 'desc' ? Array.from({ length: r.int(5, 24) }, (_, i, n = 22) => n - i) : r.list(r.int(0, 6), () => option(r, kind)));
    return {
        kind,
        label: r.pick(['', 'name', 'in.v']),
        value: r.pick(['', 'code', 'in.v']),
        lists: r.list(r.int(1, 4), list),
        pickFrom: r.list(r.int(0, 4), () => r.int(0, 5)),
        alien: r.bool(0.3),
        multiple: r.bool(0.5),
        off: r.pick([true, false, 'even', 'last', 'falsy']),
        via: r.pick(['fn', 'fn', 'fn', 'VsSelect', 'VsRadioSet', 'VsCheckboxSet']),
    };
}
export function* shrink(t) {
    if (t.lists.length > 1) for (let i = 0; i < t.lists.length; i++) yield { ...t, lists: t.lists.filter((_, k) => k !== i) };
    for (let i = 0; i < t.lists.length; i++) for (let j = 0; j < t.lists[i].length; j++) yield { ...t, lists: t.lists.map((l, k) => (k === i ? l.filter((_, q) => q !== j) : l)) };
}
const J = (x) => (x === undefined ? 'undefined' : JSON.stringify(x));
const isObj = (o) => !!o && typeof o === 'object' && o.constructor === Object;
const at = (o, k) => k.split('.').reduce((x, p) => (x == null ? undefined : x[p]), o);
const same = (a, b) => a === b || (a && b && typeof a === 'object' && typeof b === 'object' && J(a) === J(b));
const copy = (x) => (x && typeof x === 'object' ? JSON.parse(JSON.stringify(x)) : x);
const quiet = async (f) => {
    const e = console.error;
    console.error = () => {};
    try {
        return await f();
    } finally {
        console.error = e;
    }
};
export const run = (M, t) => quiet(() => go(M, t));
async function go(M, t) {
    const value = (o) => (isObj(o) && t.value && at(o, t.value) !== undefined ? at(o, t.value) : o);
    const label = (o) => {
        if (!isObj(o)) return o + '';
        const l = t.label ? at(o, t.label) : null;
        return !t.label || !l ? JSON.stringify(o) : typeof l === 'string' ? l : JSON.stringify(l);
    };
    const rule = { true: true, false: false, even: (_o, i) => i % 2 === 0, last: (_o, i, l) => i === l.length - 1, falsy: (o) => !o }[t.off];
    const off = (o, i, l) => (typeof rule === 'function' ? !!rule(o, i, l) : rule);
    const first = t.lists[0];
    let chosen = t.pickFrom.filter((i) => i < first.length).map((i) => copy(value(first[i])));
    if (t.alien) chosen.push('gone');
    if (t.via !== 'fn') return component(M, t, value, chosen);
    const options = M.ref(first);
    const input = M.ref(t.multiple ? chosen : (chosen[0] ?? null));
    let want = M.toRaw(input.value);
    const R = (x) => M.ref(x);
    const list = M.useOptionList(options, R(t.label), R(t.value), R(rule));
    M.useInputOption(input, options, R(t.label), R(t.value), R(t.multiple));
    for (let k = 0; k < t.lists.length; k++) {
        const cur = t.lists[k];
        if (k > 0) {
            const equal = J(cur) === J(t.lists[k - 1]);
            options.value = cur;
            await M.nextTick();
            if (!equal) want = t.multiple ? want.filter((v) => cur.some((o) => same(value(o), v))) : cur.some((o) => same(value(o), want)) ? want : null;
        }
        if (J(M.toRaw(input.value)) !== J(want)) return `options ${J(t.lists[k - 1])} -> ${J(cur)}: value ${J(input.value)}, expected ${J(want)}`;
        const c = list.computedOptions.value;
        if (c.length !== cur.length) return `${c.length} entries for ${cur.length} options`;
        const ids = new Set();
        for (let i = 0; i < c.length; i++) {
            const e = c[i];
            const w = { item: cur[i], label: label(cur[i]), value: value(cur[i]), index: i, disabled: off(cur[i], i, cur) };
            for (const f of Object.keys(w)) if (!same(M.toRaw(e[f]), w[f])) return `option ${i} of ${J(cur)}: ${f} ${J(e[f])}, expected ${J(w[f])}`;
            if (ids.has(e.id)) return `options ${J(cur)}: two entries share the id ${e.id}`;
            ids.add(e.id);
        }
    }
    return null;
}
async function component(M, t, value, chosen) {
    // plain distinct values; a select treats null as "nothing"
    if (t.kind !== 'plain' && t.kind !== 'desc') return null;
    const uniq = (l) => l.filter((x, i) => l.indexOf(x) === i && x !== null);
    const multiple = t.via === 'VsCheckboxSet' || (t.via === 'VsSelect' && t.multiple);
    const now = uniq(chosen).filter((v) => uniq(t.lists[0]).includes(v));
    const c = mount(M, M[t.via], { options: uniq(t.lists[0]), ...(t.via === 'VsSelect' ? { multiple } : {}), ...(t.via === 'VsRadioSet' ? { name: 'r' } : {}), modelValue: multiple ? now.slice() : (now[0] ?? null) }, { vmodel: true });
    const settle = async () => {
        for (let i = 0; i < 4; i++) await M.nextTick();
    };
    let want = multiple ? now : (now[0] ?? null);
    try {
        await settle();
        for (let k = 0; k < t.lists.length; k++) {
            if (k) {
                c.state.options = uniq(t.lists[k]);
                await settle();
                const cur = uniq(t.lists[k]);
                want = multiple ? want.filter((v) => cur.includes(v)) : cur.includes(want) ? want : null;
            }
            const got = M.toRaw(c.s.inputValue);
            if (J(got) !== J(want)) return `${t.via}: options ${J(uniq(t.lists[k - 1] ?? []))} -> ${J(uniq(t.lists[k]))}: value ${J(got)}, expected ${J(want)}`;
            if (J(M.toRaw(c.state.modelValue)) !== J(want)) return `${t.via}: bound value ${J(c.state.modelValue)}, expected ${J(want)}`;
        }
    } finally {
        c.unmount();
    }
    return null;
}
