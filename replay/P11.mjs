export const entry = `export { useVsInputRules } from '@/components/vs-input/vs-input-rules';
export { useVsTextareaRules } from '@/components/vs-textarea/vs-textarea-rules';
export { useSelectRules } from '@/components/vs-select/vs-select-rules';
export { useVsCheckboxSetRules } from '@/components/vs-checkbox/vs-checkbox-set-rules';
export { useVsDatePickerRules } from '@/components/vs-date-picker/vs-date-picker-rules';
export { useVsFileDropRules } from '@/components/vs-file-drop/vs-file-drop-rules';
export { ref } from 'vue';`;
export const needsDom = true;
const KINDS = ['input', 'number', 'textarea', 'select', 'selects', 'checkbox', 'date', 'file', 'accept'];
const DATES = ['', '2024-01-31', '2024-02-01', '2024-02-29', '2024-12-01', '2025-01-01', '08:30', '10:00', '2024-02-01T10:00'];
const SINGLE = [undefined, null, '', 0, 1, false, true, 'a', '0', -0, {}, []];
export function gen(r) {
    const lim = () => {
        const n = r.pick([0, 1, 2, 3, 5, 10, -1, 2.5, 9007199254740991, -9007199254740991]);
        return r.bool() ? n : String(n);
    };
    return {
        kind: r.pick(KINDS),
        required: r.bool(),
        min: lim(),
        max: lim(),
        n: r.int(0, 11),
        num: r.pick([-1, 0, 1, 2, 2.5, 2.6, 3, 5, 10, 10.01, 11, -0.5, 9007199254740991]),
        empty: r.bool(0.2),
        type: r.pick(['text', 'email', 'password', 'search', 'tel', 'url']),
        single: r.int(0, SINGLE.length - 1),
        date: r.pick(DATES),
        from: r.pick([undefined, ...DATES]),
        to: r.pick([undefined, ...DATES]),
        multiple: r.bool(),
        accept: r.list(r.int(0, 3), () => r.pick(['.png', '.PNG', 'image/png', 'image/*', '.txt', 'text/plain'])),
        files: r.list(r.int(0, 3), () => r.pick([['a.png', 'image/png'], ['b.PNG', 'image/png'], ['c.txt', 'text/plain'], ['d.jpg', 'image/jpeg'], ['e', '']])),
    };
}
export function* shrink(t) {
    for (let n = 0; n < t.n; n++) yield { ...t, n };
    if (t.files.length > 1) for (let i = 0; i < t.files.length; i++) yield { ...t, files: t.files.filter((_, k) => k !== i) };
}
export function run(M, t) {
    const { ref } = M;
    const [required, max, min] = [ref(t.required), ref(t.max), ref(t.min)];
    const text = 'x'.repeat(t.n);
    const list = Array.from({ length: t.n }, (_, i) => i);
    const over = (n) => n > Number(t.max);
    const under = (n) => n < Number(t.min);
    let api;
    let v;
    let want;
    if (t.kind === 'input' || t.kind === 'textarea') {
        api = t.kind === 'input' ? M.useVsInputRules(required, max, min, ref(t.type)) : M.useVsTextareaRules(required, max, min);
        v = text;
        want = { requiredCheck: t.required && !t.n, maxCheck: over(t.n), minCheck: under(t.n) };
    } else if (t.kind === 'number') {
        api = M.useVsInputRules(required, max, min, ref('number'));
        v = t.empty ? null : t.num;
        want = { requiredCheck: t.required && t.empty, maxCheck: !t.empty && over(v), minCheck: !t.empty && under(v) };
    } else if (t.kind === 'select') {
        api = M.useSelectRules(required, ref(false), min, max);
        v = SINGLE[t.single];
        want = { requiredCheck: t.required && (v === undefined || v === null || v === ''), maxCheck: false, minCheck: false };
    } else if (t.kind === 'selects') {
        api = M.useSelectRules(required, ref(true), min, max);
        v = t.empty ? null : list;
        want = t.empty ? { requiredCheck: t.required, maxCheck: false, minCheck: false } : { requiredCheck: t.required && !t.n, maxCheck: over(t.n), minCheck: under(t.n) };
    } else if (t.kind === 'checkbox') {
        api = M.useVsCheckboxSetRules(required, max, min);
        v = list;
        want = { requiredCheck: t.required && !t.n, maxCheck: over(t.n), minCheck: under(t.n) };
    } else if (t.kind === 'date') {
        api = M.useVsDatePickerRules(required, ref(t.from), ref(t.to));
        v = t.date;
        want = { requiredCheck: t.required && !v, minCheck: !!v && !!t.from && v < t.from, maxCheck: !!v && !!t.to && v > t.to };
    } else {
        const accept = t.kind === 'accept' ? t.accept.join(', ') : '';
        api = M.useVsFileDropRules(required, max, min, ref(accept), ref(t.multiple));
        v = t.kind === 'accept' ? t.files.map(([name, type]) => ({ name, type })) : list;
        const fits = (f) => t.accept.some((a) => a === f.type || (a.startsWith('.') && f.name.toLowerCase().endsWith(a.toLowerCase())) || (a === 'image/*' && f.type.startsWith('image/')));
        want = {
            requiredCheck: t.required && !v.length,
            maxCheck: over(v.length),
            minCheck: under(v.length),
            verifyMultipleFileUpload: !t.multiple && v.length > 1,
            acceptCheck: t.kind === 'accept' && t.accept.length > 0 && v.some((f) => !fits(f)),
        };
    }
    for (const [k, bad] of Object.entries(want)) {
        const got = api[k](v);
        if (typeof got !== 'string' || (got !== '') !== bad)
            return `${t.kind}: ${k} of ${JSON.stringify(v)} gives ${JSON.stringify(got)}, expected ${bad ? 'an error' : 'no error'} (required ${t.required}, min ${JSON.stringify(t.kind === 'date' ? t.from : t.min)}, max ${JSON.stringify(t.kind === 'date' ? t.to : t.max)})`;
    }
    return null;
}
