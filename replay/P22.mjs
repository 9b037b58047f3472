export const entry = `export { useInput } from '@/composables';
export { FormStore } from '@/stores';
export { h, createApp, ref, nextTick } from 'vue';`;
export const needsDom = true;
const VALUES = [null, '', 'a', 'b', 0, 1, false, true, [], ['a'], ['a', 'b'], [1, [2]], { k: 1 }, { k: 2 }, { k: { l: [] } }, 'f0', 'f1', ['f0'], ['f0', 'f1'], ['f1', 'f0']];
export function gen(r) {
    const v = () => r.int(0, VALUES.length - 1);
    return {
        value: v(),
        early: r.bool(0.2) ? v() : null,
        empty: v(),
        flags: r.list(4, () => r.bool()),
        state: r.pick(['idle', 'success', 'info', 'warning', 'error']),
        bad: r.list(r.int(0, 6), () => v()),
        ops: r.list(r.int(1, 8), () => ({ op: r.pick(['in', 'in', 'in', 'out', 'out', 'both', 'validate', 'clear', 'form', 'flags', 'twice']), v: v(), w: v(), pause: r.bool() })),
    };
}
export function* shrink(t) {
    for (let i = 0; i < t.ops.length; i++) yield { ...t, ops: t.ops.filter((_, k) => k !== i) };
    if (t.early !== null) yield { ...t, early: null };
}
const J = (x) => JSON.stringify(x, (k, v) => (v instanceof File ? 'file ' + v.name : v === undefined ? '<undefined>' : v));
export async function run(M, t) {
    const files = [new File(['x'], 'same'), new File(['x'], 'same')];
    const dec = (x) => (x === 'f0' ? files[0] : x === 'f1' ? files[1] : Array.isArray(x) ? x.map(dec) : x !== null && typeof x === 'object' ? Object.fromEntries(Object.entries(x).map(([k, y]) => [k, dec(y)])) : x);
    const get = (i) => dec(VALUES[i]);
    const raw = (x) => x?.__v_raw ?? x;
    const isFile = (x) => x instanceof File;
    const eq = (a, b) => {
        a = raw(a);
        b = raw(b);
        if (isFile(a) || isFile(b)) return a === b;
        if (a === null || b === null || typeof a !== 'object' || typeof b !== 'object') return Object.is(a, b);
        if (Array.isArray(a) !== Array.isArray(b)) return false;
        const ka = Object.keys(a);
        return ka.length === Object.keys(b).length && ka.every((k) => Object.hasOwn(b, k) && eq(a[k], b[k]));
    };
    // comparing a file with an empty structure is left open
    const fileish = (x) => isFile(raw(x)) || (Array.isArray(raw(x)) && raw(x).some((y) => isFile(raw(y))));
    const badValues = t.bad.map(get);
    const isBad = (v) => badValues.some((x) => eq(x, v));
    const events = [];
    const calls = [];
    const store = new M.FormStore();
    const [disabled, readonly, state] = [M.ref(t.flags[0]), M.ref(t.flags[1]), M.ref(t.state)];
    const inputValue = M.ref(get(t.value));
    const modelValue = M.ref(get(t.value));
    let api;
    const Child = {
        setup() {
            api = M.useInput(
                { emit: (n, ...a) => events.push([n, ...a.map(raw)]) },
                {
                    inputValue,
                    modelValue,
                    disabled,
                    readonly,
                    state,
                    rules: M.ref([(v) => (isBad(v) ? 'wrong' : '')]),
                    callbacks: { onChange: (n, o) => calls.push([raw(n), raw(o)]), onClear: () => (inputValue.value = get(t.empty)) },
                },
            );
            return () => null;
        },
    };
    const app = M.createApp({ render: () => M.h(Child) });
    app.config.warnHandler = () => {};
    app.provide('vlossom:form-store', store);
    const host = document.createElement('div');
    app.mount(host);
    const told = () => events.filter((e) => e[0] === 'update:modelValue');
    let held = get(t.value);
    let model = get(t.value);
    let changed = false;
    let shown = false;
    try {
        if (t.early !== null) {
            const v = get(t.early);
            inputValue.value = v;
            await M.nextTick();
            const want = eq(held, v) ? 0 : 1;
            if (fileish(held) === fileish(v) && told().length !== want) return `set from ${J(held)} to ${J(v)} right after mounting: told ${told().length} times, expected ${want}`;
            held = v;
            if (events.some((e) => e[0] === 'change')) return 'a change was reported before the input was ready';
        }
        await M.nextTick();
        await M.nextTick();
        let form = [false, false];
        for (const [n, o] of t.ops.entries()) {
            events.length = 0;
            calls.length = 0;
            const at = `step ${n} (${J(o.op)} ${J(get(o.v))})`;
            const v = get(o.v);
            const steps = [];
            let open = false; // comparisons left open
            const move = (to) => {
                if (fileish(held) !== fileish(to)) open = true;
                if (!eq(held, to)) steps.push(to);
                held = to;
            };
            const wasValid = !isBad(held);
            if (o.op === 'in') {
                inputValue.value = v;
                await M.nextTick();
                move(v);
            } else if (o.op === 'out') {
                modelValue.value = v;
                await M.nextTick();
                if (v !== model) {
                    if (fileish(held) !== fileish(v)) open = true;
                    if (!eq(held, v)) move(v);
                }
                model = v;
            } else if (o.op === 'both') {
                const w = get(o.w);
                if (fileish(w) !== fileish(v) || fileish(held) !== fileish(v) || eq(model, w)) continue;
                inputValue.value = v;
                modelValue.value = w;
                await M.nextTick();
                model = w;
                if (!eq(raw(inputValue.value), w)) return `${at}: the outside value ${J(w)} was lost, ${J(inputValue.value)} is held`;
                if (told().length && !eq(told().at(-1)[1], w)) return `${at}: the last value told is ${J(told().at(-1)[1])}, held is ${J(w)}`;
                if (told().length) changed = shown = true;
                held = w;
                continue;
            } else if (o.op === 'twice') {
                const w = get(o.w);
                inputValue.value = v;
                if (o.pause) {
                    await M.nextTick();
                    move(v);
                }
                inputValue.value = w;
                await M.nextTick();
                move(w);
            } else if (o.op === 'validate') {
                const before = api.shake.value;
                const r = api.validate();
                if (r !== !isBad(held)) return `${at}: validate says ${r} for ${J(held)}`;
                if ((api.shake.value !== before) !== isBad(held)) return `${at}: shaken ${api.shake.value !== before} for ${J(held)}`;
                shown = true;
            } else if (o.op === 'clear') {
                api.clear();
                await M.nextTick();
                await M.nextTick();
                const e = get(t.empty);
                move(e);
            } else if (o.op === 'form') {
                form = [o.pause, o.v % 2 === 0];
                store.setDisabled(form[0]);
                store.setReadonly(form[1]);
            } else {
                disabled.value = o.pause;
                readonly.value = o.v % 2 === 0;
            }
            if (open) return null;
            if (o.op !== 'form' && o.op !== 'flags') await M.nextTick();
            if (told().length !== steps.length || !steps.every((x, k) => eq(x, told()[k][1]))) return `${at}: told ${J(told().map((e) => e[1]))}, expected ${J(steps)}`;
            const ch = events.filter((e) => e[0] === 'change');
            if (ch.length !== steps.length) return `${at}: ${ch.length} changes reported, expected ${steps.length}`;
            if (!steps.every((x, k) => eq(x, ch[k][1]))) return `${at}: reported the changes ${J(ch.map((e) => e[1]))}, expected ${J(steps)}`;
            if (calls.length !== steps.length || !steps.every((x, k) => eq(x, calls[k][0]))) return `${at}: the component heard of the changes ${J(calls.map((e) => e[0]))}, expected ${J(steps)}`;
            if (steps.length) changed = shown = true;
            if (o.op === 'clear') changed = shown = false;
            if (!eq(raw(inputValue.value), held)) return `${at}: holds ${J(inputValue.value)}, expected ${J(held)}`;
            if (api.valid.value !== !isBad(held)) return `${at}: valid is ${api.valid.value} for ${J(held)}`;
            if (o.op !== 'twice') {
                const uv = events.filter((e) => e[0] === 'update:valid');
                if (uv.length !== (wasValid === !isBad(held) ? 0 : 1)) return `${at}: validity told ${uv.length} times`;
            }
            if (api.changed.value !== changed) return `${at}: counts as changed: ${api.changed.value}, expected ${changed}`;
            if (api.showRuleMessages.value !== shown) return `${at}: messages shown: ${api.showRuleMessages.value}, expected ${shown}`;
            const st = shown && isBad(held) ? 'error' : state.value;
            if (api.computedState.value !== st) return `${at}: shown as ${api.computedState.value}, expected ${st}`;
            if (api.computedDisabled.value !== (disabled.value || form[0])) return `${at}: disabled is ${api.computedDisabled.value}`;
            if (api.computedReadonly.value !== (readonly.value || form[1])) return `${at}: read-only is ${api.computedReadonly.value}`;
        }
    } finally {
        app.unmount();
    }
    return null;
}
