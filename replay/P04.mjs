import { entry, table } from './table.mjs';
export { entry };
export function gen(r) {
    const n = r.int(0, r.pick([3, 6, 25]));
    const kind = r.pick(['number', 'text', 'boolean', 'date']);
    const unit = r.pick([1, 300, 3600000, 86400000, 2678400000]);
    const v = () => (r.bool(0.15) ? null : kind === 'number' ? r.int(-20, 120) / r.pick([1, 1, 4, 1024]) : kind === 'text' ? r.pick(['a', 'B', 'b', 'Zeta', '10', '9', '', 'ä', '가', 'a b', 'ab']) : kind === 'boolean' ? r.bool() : r.int(-5, 40) * unit);
    return { n, kind, vals: r.list(n, v), alt: r.list(n, v), sortBy: r.pick([0, 0, 'alt', 'deep.x']), ops: r.list(r.int(1, 5), () => r.pick(['v', 'v', 'v', 'none', 'nope'])), words: r.bool(0.3), dom: r.bool(0.1), mutate: r.bool(0.2), page: r.bool(0.2) };
}
export function* shrink(t) {
    for (let i = 0; i < t.n; i++) yield { ...t, n: t.n - 1, vals: t.vals.filter((_, k) => k !== i), alt: t.alt.filter((_, k) => k !== i) };
    if (t.ops.length > 1) yield { ...t, ops: t.ops.slice(1) };
}
const J = JSON.stringify;
export async function run(M, t) {
    const wrap = (x) => (x !== null && t.kind === 'date' ? new Date(x) : x);
    let items = t.vals.map((x, i) => ({ id: i, v: wrap(x), alt: wrap(t.alt[i]), deep: { x: wrap(t.alt[i]) } }));
    const raw = (i) => (t.sortBy ? t.alt[i] : t.vals[i]);
    const less = (a, b) => {
        if (a === null) return false;
        if (b === null) return true;
        return t.kind === 'text' ? a.localeCompare(b) < 0 : a < b;
    };
    const columns = [
        { key: 'id', label: 'Id' },
        { key: 'v', label: 'V', sortable: true, ...(t.sortBy ? { sortBy: t.sortBy } : {}) },
        { key: 'none', label: 'N', sortable: true, sortBy: 'deep.zero' },
    ];
    for (const x of items) x.deep.zero = 1;
    const before = J(items);
    const order = items.slice();
    const props = { columns, items, pagination: false };
    const c = t.dom ? await table(M, props) : null;
    let T;
    if (!c) {
        T = M.useTable(M.reactive(props), { searchInputRef: M.ref(null) });
        T.initialize();
    }
    try {
        let state = 0;
        let col = null;
        for (const key of t.ops) {
            if (c) {
                if (key === 'nope') continue;
                const icons = [...c.el.querySelectorAll('thead .vs-table-sort-icon')];
                if (icons.length !== 2) return `${icons.length} sort controls`;
                icons[key === 'v' ? 0 : 1].dispatchEvent(new window.MouseEvent('click', { bubbles: true }));
                await M.nextTick();
                await M.nextTick();
            } else T.updateSortType(key);
            // the cycle is promised for one header pressed repeatedly
            if (key === 'nope') {
            } else if (key === col || col === null) {
                state = (state + 1) % 3;
                col = key;
            } else break;
            const s = t.ops[0] === 'v' || col === 'v' ? state : 0;
            const ids = c ? c.rows().map((r) => Number(r[0])) : T.bodyCells.value.map((r) => r[0].item.id);
            if (ids.length !== t.n || new Set(ids).size !== t.n) return `rows ${J(ids)} of ${t.n}`;
            for (let k = 0; k + 1 < ids.length; k++) {
                for (const l of [k + 1, ids.length - 1]) {
                    if (l <= k) continue;
                    const [a, b] = [ids[k], ids[l]];
                    const [x, y] = [raw(a), raw(b)];
                    const wrong = col !== 'v' || s === 0 ? false : s === 1 ? less(y, x) : less(x, y);
                    const eq = col !== 'v' || s === 0 || (!less(x, y) && !less(y, x));
                    if (wrong) return `${s === 1 ? 'ascending' : 'descending'} shows ${J(x)} before ${J(y)}`;
                    if (eq && a > b) return `rows with equal values ${J(x)} reordered (sort ${s})`;
                }
            }
            if (!c && T.sortType.value !== state) return `sort state ${T.sortType.value} after ${J(t.ops)}, expected ${state}`;
        }
        if (J(items) !== before || items.some((x, i) => x !== order[i])) return 'the supplied rows were modified';
    } finally {
        c?.unmount();
    }
    for (const x of [...t.vals, null])
        for (const y of t.vals) {
            const d = M.compareUtil.compareValues(wrap(x), wrap(y));
            if (d < 0 !== less(x, y) || d > 0 !== less(y, x)) return `compareValues(${J(x)}, ${J(y)}) = ${d}`;
        }
    return null;
}
