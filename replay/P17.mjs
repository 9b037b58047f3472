export const entry = `export { useColorScheme, useStyleSet } from '@/composables';
export { OptionsStore } from '@/stores/options-store';
export { useOptionsStore } from '@/stores';
export { Vlossom } from '@/framework/vlossom-class';
export { ref, nextTick } from 'vue';`;
export const needsDom = true;
const KEYS = ['color', 'width', '$gap', '$part', 'opacity'];
const VALUES = ['red', 'blue', '1px', 0, '', null, undefined, 0.5];
const NAMES = ['VsButton', 'VsInput', 'default'];
const style = (r) => {
    const o = {};
    for (const k of KEYS) if (r.bool(0.5)) o[k] = k === '$part' ? (r.bool(0.8) ? Object.fromEntries(['a', 'b'].filter(() => r.bool()).map((x) => [x, r.pick(['p', 'q', 7])])) : undefined) : r.pick(VALUES);
    return o;
};
export function gen(r) {
    const schemes = () => Object.fromEntries(NAMES.filter(() => r.bool()).map((n) => [n, r.pick(['red', 'blue', '', undefined])]));
    return {
        comp: r.pick(['VsButton', 'VsInput', 'other']),
        own: r.pick([undefined, '', 'none', 'red', 'green']),
        own2: r.pick([undefined, '', 'none', 'red', 'green']),
        schemes: schemes(),
        schemes2: schemes(),
        base: style(r),
        extra: style(r),
        set: r.pick(['none', 'named', 'missing', 'object', 'object']),
        sets: { wide: Object.fromEntries(['VsButton', 'VsInput'].filter(() => r.bool(0.7)).map((n) => [n, style(r)])) },
        object: style(r),
        ratio: r.pick([undefined, 0, 0.3, 1, 1.5, -2, 1e9]),
        saved: r.pick([null, 'dark', 'light', '']),
        prefers: r.bool(),
        theme: r.pick([undefined, 'light', 'dark']),
        ops: r.list(r.int(0, 4), () => ({ op: r.pick(['toggle', 'theme', 'ratio', 'scheme', 'style']), v: r.bool(), n: r.pick([0, 0.5, 2, -1]) })),
    };
}
const J = (x) => JSON.stringify(x, (k, v) => (v === undefined ? '<undefined>' : v));
const plain = (x) => x !== null && typeof x === 'object';
function resolve(base, set, extra) {
    const out = {};
    const given = (o, k) => Object.hasOwn(o, k) && o[k] !== undefined;
    for (const k of new Set([...Object.keys(base), ...Object.keys(set), ...Object.keys(extra)])) {
        const layers = [given(base, k) ? [base[k]] : [], Object.hasOwn(set, k) ? [set[k]] : [], given(extra, k) ? [extra[k]] : []].flat();
        if (!layers.length) continue;
        out[k] = layers.some(plain) ? Object.assign({}, ...layers.filter(plain)) : layers.at(-1);
    }
    return out;
}
export async function run(M, t) {
    const store = M.useOptionsStore();
    store.setColorScheme(t.schemes);
    store.setStyleSet(t.sets);
    const own = M.ref(t.own);
    const cs = M.useColorScheme(t.comp, own);
    const scheme = (o, s) => (o === 'none' ? undefined : o || s[t.comp] || s.default || undefined);
    const see = (o, s, what) => {
        const want = scheme(o, s);
        if (cs.computedColorScheme.value !== want) return `${what}: scheme ${J(cs.computedColorScheme.value)} of ${t.comp} with own ${J(o)} and ${J(s)}, expected ${J(want)}`;
        if (cs.colorSchemeClass.value !== `vs-cs-${want || 'default'}`) return `${what}: class ${cs.colorSchemeClass.value}`;
        return null;
    };
    let bad = see(t.own, t.schemes, 'at first');
    if (bad) return bad;
    own.value = t.own2;
    bad = see(t.own2, t.schemes, 'own changed');
    if (bad) return bad;
    store.setColorScheme(t.schemes2);
    bad = see(t.own2, t.schemes2, 'defaults changed');
    if (bad) return bad;
    // styles
    const given = { none: undefined, named: 'wide', missing: 'unknown', object: t.object }[t.set];
    const set = t.set === 'object' ? t.object : t.set === 'named' ? t.sets.wide[t.comp] || {} : {};
    const s = M.useStyleSet(t.comp, M.ref(given), M.ref(t.base), M.ref(t.extra));
    const want = resolve(t.base, set, t.extra);
    const got = s.componentStyleSet.value;
    const about = `base ${J(t.base)} set ${J(set)} extra ${J(t.extra)}`;
    for (const k of KEYS) {
        // an absent layer next to a nested part: only compare when all layers agree on the shape
        if (J(got[k]) !== J(want[k]) && !(k === '$part' && [t.base, set, t.extra].some((o) => Object.hasOwn(o, k) && !plain(o[k])))) return `${about}: ${k} is ${J(got[k])}, expected ${J(want[k])}`;
    }
    const kebab = { VsButton: 'vs-button', VsInput: 'vs-input', other: 'other' }[t.comp];
    const vars = {};
    const inline = {};
    for (const k of KEYS) {
        const v = got[k];
        if (v === undefined || v === null) continue;
        if (!k.startsWith('$')) inline[k] = v;
        else if (!plain(v)) vars[`--${kebab}-${k.slice(1)}`] = v;
    }
    const sorted = (o) => J(Object.entries(o).sort());
    if (sorted(s.componentInlineStyle.value) !== sorted(inline)) return `${about}: inline ${J(s.componentInlineStyle.value)}`;
    if (sorted(s.styleSetVariables.value) !== sorted(vars)) return `${about}: variables ${J(s.styleSetVariables.value)}`;
    // theme and ratio
    const keep = { matchMedia: window.matchMedia, localStorage: Object.getOwnPropertyDescriptor(globalThis, 'localStorage') };
    const disk = new Map(t.saved === null ? [] : [['vlossom:theme-mode', t.saved]]);
    window.matchMedia = () => ({ matches: t.prefers });
    Object.defineProperty(globalThis, 'localStorage', { configurable: true, value: { getItem: (k) => disk.get(k) ?? null, setItem: (k, v) => void disk.set(k, v) } });
    document.documentElement.classList.remove('vs-dark');
    store.setTheme('light');
    try {
        const opts = { components: {}, colorScheme: t.schemes, styleSet: t.sets };
        if (t.theme) opts.theme = t.theme;
        if (t.ratio !== undefined) opts.radiusRatio = t.ratio;
        const v = new M.Vlossom(opts);
        let theme = t.saved ? t.saved : t.prefers || t.theme === 'dark' ? 'dark' : 'light';
        let ratio = t.ratio === undefined ? 1 : Math.min(Math.max(t.ratio, 0), 1);
        let [sc, st] = [t.schemes, t.sets];
        const check = (what) => {
            const name = `${what}; saved ${J(t.saved)}, prefers dark ${t.prefers}, option ${J(t.theme)}`;
            if (v.theme !== theme) return `${name}: theme ${v.theme}`;
            if (document.documentElement.classList.contains('vs-dark') !== (theme === 'dark')) return `${name}: the page disagrees with ${theme}`;
            if (v.radiusRatio !== ratio) return `${name}: ratio ${v.radiusRatio}, expected ${ratio}`;
            if (J(v.colorScheme) !== J(sc) || J(v.styleSet) !== J(st)) return `${name}: settings changed`;
            return null;
        };
        let bad = check('at first');
        if (bad) return bad;
        for (const o of t.ops) {
            if (o.op === 'toggle') {
                v.toggleTheme();
                theme = theme === 'light' ? 'dark' : 'light';
                if (disk.get('vlossom:theme-mode') !== theme) return `toggling to ${theme} saved ${disk.get('vlossom:theme-mode')}`;
            } else if (o.op === 'theme') v.theme = theme = o.v ? 'dark' : 'light';
            else if (o.op === 'ratio') {
                v.radiusRatio = o.n;
                ratio = Math.min(Math.max(o.n, 0), 1);
            } else if (o.op === 'scheme') v.colorScheme = sc = o.v ? {} : t.schemes2;
            else v.styleSet = st = o.v ? {} : t.sets;
            bad = check(`after ${J(o)}`);
            if (bad) return bad;
        }
    } finally {
        window.matchMedia = keep.matchMedia;
        if (keep.localStorage) Object.defineProperty(globalThis, 'localStorage', keep.localStorage);
        else delete globalThis.localStorage;
    }
    return null;
}
