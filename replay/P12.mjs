export const entry = `export { default as VsForm } from '@/components/vs-form/VsForm.vue';
export { useInputForm } from '@/composables/input-form/input-form-composable';
export { FormStore } from '@/stores';
export { h, createApp, reactive, nextTick, toRef, ref } from 'vue';`;
export const needsDom = true;
export const maxCases = 60000;
export function gen(r) {
    return {
        ops: r.list(r.int(1, 12), () => ({ op: r.pick(['add', 'add', 'remove', 'rename', 'flags', 'flags', 'both', 'move', 'validate', 'form', 'store']), k: r.int(0, 4), id: r.int(0, 7), valid: r.bool(0.6), changed: r.bool(0.3) })),
    };
}
export function* shrink(t) {
    for (let i = 0; i < t.ops.length; i++) yield { ops: t.ops.filter((_, k) => k !== i) };
}
const J = JSON.stringify;
export async function run(M, t) {
    const s = M.reactive({ list: [], disabled: false, readonly: false });
    const seen = {};
    let form;
    const errors = [];
    const Child = {
        props: ['n', 'id', 'valid', 'changed'],
        setup(p) {
            const api = M.useInputForm(M.toRef(p, 'id'), M.toRef(p, 'valid'), M.toRef(p, 'changed'), () => ((seen[p.n].v += 1), p.valid), () => (seen[p.n].c += 1));
            seen[p.n] = { v: 0, c: 0, api };
            return () => null;
        },
    };
    const app = M.createApp({
        render: () => M.h(M.VsForm, { ref: (x) => (form = x), disabled: s.disabled, readonly: s.readonly, onError: (ids) => errors.push(ids) }, { default: () => s.list.map((c) => M.h(Child, { key: c.n, ...c })) }),
    });
    const warn = console.warn;
    console.warn = () => {};
    const host = document.createElement('div');
    app.mount(host);
    const store = M.FormStore.getDefaultFormStore();
    const reg = { valid: {}, changed: {} };
    let n = 0;
    const free = (id) => {
        while (s.list.some((c) => c.id === 'id' + id)) id++;
        return 'id' + id;
    };
    try {
        for (const [i, o] of t.ops.entries()) {
            const c = s.list[o.k % (s.list.length || 1)];
            if (o.op === 'add') s.list.push({ n: n++, id: free(o.id), valid: o.valid, changed: o.changed });
            else if (o.op === 'remove') s.list.splice(o.k % (s.list.length || 1), 1);
            else if (o.op === 'rename' && c) c.id = free(o.id);
            else if (o.op === 'flags' && c) Object.assign(c, { valid: o.valid, changed: o.changed });
            else if (o.op === 'both' && c) Object.assign(c, { id: free(o.id), valid: o.valid, changed: o.changed });
            else if (o.op === 'move' && s.list.length > 1) s.list.unshift(s.list.pop());
            else if (o.op === 'form') Object.assign(s, { disabled: o.valid, readonly: o.changed });
            else if (o.op === 'store') {
                const id = 'id' + o.k;
                const what = o.id % 3;
                if (what === 0) (store.updateValid(id, o.valid), (reg.valid[id] = o.valid));
                else if (what === 1) (store.updateChanged(id, o.changed), (reg.changed[id] = o.changed));
                else (store.removeFromForm(id), delete reg.valid[id], delete reg.changed[id]);
                const got = J([sort(store.validObj.value), sort(store.changedObj.value)]);
                const want = J([sort(reg.valid), sort(reg.changed)]);
                if (got !== want) return `step ${i}: the store holds ${got}, expected ${want}`;
            }
            await M.nextTick();
            const live = s.list;
            const bad = live.filter((x) => !x.valid).map((x) => x.id).sort();
            if (o.op === 'validate') {
                errors.length = 0;
                const before = J(live.map((x) => seen[x.n].v));
                const r = await form.validate();
                if (r !== (bad.length === 0)) return `step ${i}: validate answers ${r}, invalid inputs are ${J(bad)}`;
                if (bad.length ? errors.length !== 1 || J([...errors[0]].sort()) !== J(bad) : errors.length) return `step ${i}: reported errors ${J(errors)}, invalid inputs are ${J(bad)}`;
                const after = live.map((x) => seen[x.n].v);
                if (J(after) !== J(JSON.parse(before).map((x) => x + 1))) return `step ${i}: inputs were asked ${J(after)} times, before ${before}`;
                const cl = live.map((x) => seen[x.n].c);
                form.clear();
                await M.nextTick();
                if (J(live.map((x) => seen[x.n].c)) !== J(cl.map((x) => x + 1))) return `step ${i}: not every input was told to clear once`;
            }
            if (form.valid !== (bad.length === 0)) return `step ${i} (${o.op}): form valid is ${form.valid}, live inputs are ${J(live)}`;
            if (form.changed !== live.some((x) => x.changed)) return `step ${i} (${o.op}): form changed is ${form.changed}, live inputs are ${J(live)}`;
            for (const x of live) {
                const a = seen[x.n].api;
                if (a.formDisabled.value !== s.disabled || a.formReadonly.value !== s.readonly) return `step ${i}: an input does not follow the form's disabled/read-only state`;
            }
        }
        return null;
    } finally {
        app.unmount();
        console.warn = warn;
    }
}
const sort = (o) => Object.entries(o).sort((a, b) => (a[0] < b[0] ? -1 : 1));
