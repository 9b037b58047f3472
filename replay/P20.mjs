export const entry = `export { stringUtil } from '@/utils';
export { useStringModifier } from '@/composables';
export { useResponsive } from '@/components/vs-responsive/composables/responsive-composable';
export { ref } from 'vue';`;
export const needsDom = true;
const BP = ['xs', 'sm', 'md', 'lg', 'xl'];
const TEXTS = ['0', '10', '3.5', '10px', '50%', 'auto', '', '-5', '1.', '.5', '1e3', ' 10', '10 ', '1.2.3', '007', '٣', 'calc(1px + 2px)', '10\n', '1,5', 'Abc dEf', 'éa', 'ßx', 'a', 'ABC', 'x1'];
const size = (r) => r.pick([null, '', '0', '10', '2.5', '50%', 'auto', 0, 7, 12.25, 1e6, 'undef']);
const split = (r) => Object.fromEntries(BP.filter(() => r.bool()).map((b) => [b, size(r)]));
export function gen(r) {
    const text = r.bool(0.7) ? r.pick(TEXTS) : r.list(r.int(0, 5), () => r.pick([...'0123456789.px%-aB '])).join('');
    const k = r.int(0, 5);
    const bytes = r.pick([0, 1, 1024 ** k, Math.max(0, 1024 ** k - 1), 1024 ** k + r.int(0, 5000), Math.floor(1024 ** k * r.next() * 1000), Math.floor(1024 ** Math.min(k, 4) * (1 + 1022 * r.next()))]);
    return {
        text,
        num: r.pick([0, 1, 10, 0.5, 123.75, 1000000, r.int(0, 100000), r.int(0, 1000) / 8]),
        value: r.pick([text, 0, -1.5, true, false, null, 'undef', [], [1, 'a'], { a: 1 }, { a: { b: [null] } }, NaN]),
        mods: r.pick([{}, { capitalize: true }, { lower: true }, { upper: true }, { upper: false }, { capitalize: true, lower: false }, { lower: true, upper: false, capitalize: false }]),
        bytes: Math.min(bytes, Number.MAX_SAFE_INTEGER),
        width: r.bool() ? size(r) : split(r),
        grid: r.bool() ? size(r) : split(r),
    };
}
const dec = (x) => (x === 'undef' ? undefined : x !== null && typeof x === 'object' && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, dec(v)])) : x);
const isNumber = (s) => {
    const [a, b, ...more] = s.split('.');
    const digits = (x) => x.length > 0 && [...x].every((c) => c >= '0' && c <= '9');
    return !more.length && digits(a) && (b === undefined || digits(b));
};
const sized = (v) => (isNumber(String(v)) ? String(v) + 'px' : String(v));
const given = (v) => v !== undefined && v !== null && v !== '';
const J = (x) => JSON.stringify(x);
export async function run(M, t) {
    const S = M.stringUtil;
    const eq = (what, got, want) => (got === want ? null : `${what} gives ${J(got)}, expected ${J(want)}`);
    let bad = eq(`size ${J(t.text)}`, S.toStringSize(t.text), sized(t.text)) ?? eq(`size ${t.num}`, S.toStringSize(t.num), t.num + 'px');
    if (bad) return bad;
    const v = t.value === 'undef' ? undefined : t.value;
    bad = eq(`text of ${J(v)}`, S.convertToString(v), typeof v === 'object' ? JSON.stringify(v) : `${v}`);
    if (bad) return bad;
    const mods = M.ref(t.mods);
    const { modifyStringValue } = M.useStringModifier(mods);
    const on = Object.keys(t.mods).find((k) => t.mods[k]);
    const want = { capitalize: (s) => s.slice(0, 1).toUpperCase() + s.slice(1), lower: (s) => s.toLowerCase(), upper: (s) => s.toUpperCase() }[on] ?? ((s) => s);
    bad = eq(`${J(t.text)} modified by ${J(t.mods)}`, modifyStringValue(t.text), want(t.text));
    if (bad) return bad;
    mods.value = { upper: true };
    bad = eq(`${J(t.text)} modified by upper`, modifyStringValue(t.text), t.text.toUpperCase());
    if (bad) return bad;
    let k = 0;
    while (k < 4 && t.bytes >= 1024 ** (k + 1)) k++;
    bad = eq(`file size ${t.bytes}`, S.toFileSizeFormat(t.bytes), `${Math.round((t.bytes / 1024 ** k) * 100) / 100} ${['Bytes', 'KB', 'MB', 'GB', 'TB'][k]}`);
    if (bad) return bad;
    const width = dec(t.width);
    const grid = dec(t.grid);
    const r = M.useResponsive(M.ref(width), M.ref(grid));
    const styles = {};
    const classes = [];
    const obj = (x) => x !== null && typeof x === 'object';
    if (obj(width)) {
        for (const b of BP)
            if (given(width[b])) {
                styles['--vs-width-' + b] = sized(width[b]);
                if (b !== 'xs') classes.push('vs-width-' + b);
            }
    } else if (given(width)) styles.width = sized(width);
    if (obj(grid)) {
        for (const b of BP)
            if (given(grid[b])) {
                styles['--vs-grid-' + b] = String(grid[b]);
                if (b !== 'xs') classes.push('vs-grid-' + b);
            }
    } else if (given(grid)) styles['--vs-grid-xs'] = String(grid);
    const sort = (o) => J(Object.entries(o).sort());
    if (sort(r.responsiveStyles.value) !== sort(styles)) return `width ${J(t.width)} grid ${J(t.grid)}: styles ${J(r.responsiveStyles.value)}, expected ${J(styles)}`;
    if (J([...r.responsiveClasses.value].sort()) !== J(classes.sort())) return `width ${J(t.width)} grid ${J(t.grid)}: classes ${J(r.responsiveClasses.value)}, expected ${J(classes)}`;
    return null;
}
