import { entry, table } from './table.mjs';
export { entry };
const KEYS = ['a', 'b', 'deep.x', 'user-id', 'c', 'none'];
const VALS = ['red', 'Blue', 0, 1, 12, '', null, true, false, 'a b', undefined];
const item = (r, i) => ({ a: r.pick(VALS), b: r.pick(VALS), c: 'row' + i, deep: { x: r.pick(VALS) }, 'user-id': r.int(0, 3) });
export function gen(r) {
    const cols = () => r.pick([null, 'str', 'def', 'def', 'def']);
    const columns = () => ({ kind: cols(), keys: r.list(r.int(1, 5), () => r.pick(KEYS)).filter((k, i, l) => l.indexOf(k) === i), t: r.list(6, () => r.pick(['', '', 'tag', 'row', 'zero'])), skip: r.list(6, () => r.bool(0.3)), sortable: r.list(6, () => r.bool(0.3)) });
    return {
        items: r.list(r.int(0, 6), (i) => item(r, i)),
        columns: columns(),
        expandable: r.pick(['item', 'index', 'list', true, false, 'none']),
        ops: r.list(r.int(0, 5), () => r.pick([['items', r.list(r.int(0, 6), (i) => item(r, i))], ['columns', columns()], ['search', r.pick(['red', 'row', 'row1', '1', 'b', '', 'zzz', null])], ['toggle', r.int(0, 8)], ['toggle', r.int(0, 8)], ['edit', r.int(0, 8), r.pick(VALS)], ['search', r.pick(['e', '2', 'row0'])], ['swap', r.int(0, 8)], ['again']])),
        dom: r.bool(0.08),
    };
}
export function* shrink(t) {
    for (let i = 0; i < t.ops.length; i++) yield { ...t, ops: t.ops.filter((_, k) => k !== i) };
    for (let i = 0; i < t.items.length; i++) yield { ...t, items: t.items.filter((_, k) => k !== i) };
    if (t.columns.keys.length > 1) yield { ...t, columns: { ...t.columns, keys: t.columns.keys.slice(1) } };
}
const at = (x, k) => k.split('.').reduce((o, p) => (o == null ? undefined : o[p]), x);
const FN = { tag: (v) => `<${v}>`, row: (v, x) => `${x.c}:${v}`, zero: () => 0 };
function definition(c) {
    if (c.kind === null) return undefined;
    if (c.kind === 'str') return c.keys.slice();
    return c.keys.map((key, j) => ({ key, label: key.toUpperCase(), ...(c.t[j] ? { transform: FN[c.t[j]] } : {}), ...(c.skip[j] ? { skipSearch: true } : {}), ...(c.sortable[j] ? { sortable: true } : {}) }));
}
const flat = (v) => (v && typeof v === 'object' ? Object.values(v).flatMap(flat) : [v == null ? '' : String(v)]);
const same = (a, b) => Object.is(a, b) || JSON.stringify(a) === JSON.stringify(b);
export async function run(M, t) {
    if (t.dom && t.expandable === 'none') t = { ...t, expandable: false };
    let items = t.items.map((x) => ({ ...x, deep: { ...x.deep } }));
    let C = t.columns;
    let query = null;
    const can = (x, i) => ({ item: String(x.a).length > 3, index: i % 2 === 0, list: i > 0, true: true, false: false, none: false })[t.expandable];
    const rule = { item: (x) => String(x.a).length > 3, index: (_x, i) => i % 2 === 0, list: (x, i, l) => i > 0 && M.toRaw(l[i]) === M.toRaw(x), none: undefined }[t.expandable] ?? (typeof t.expandable === 'boolean' ? t.expandable : undefined);
    const props = { items, columns: definition(C), expandable: rule };
    const find = M.ref(null);
    let T;
    let c = null;
    let P;
    let saidTotal = null;
    if (t.dom) {
        c = await table(M, props, rule ? { expand: () => 'MORE' } : {});
        T = c.s.table;
        P = c.state;
    } else {
        P = M.reactive(props);
        T = M.useTable(P, { searchInputRef: find }, { updateSelectedItems() {}, updatePage() {}, updatePageSize() {}, updatePagedItems() {}, updateTotalItems: (l) => (saidTotal = l) });
        T.initialize();
    }
    const text = (x) => {
        const skip = C.kind === 'def' ? C.keys.filter((_, j) => C.skip[j]) : [];
        return Object.entries(x).filter(([k]) => !skip.includes(k)).flatMap(([, v]) => flat(v)).join(' ');
    };
    const nestedSkip = () => C.kind === 'def' && C.keys.some((k, j) => C.skip[j] && k.includes('.'));
    const open = new Map();
    try {
        const look = (why) => {
            const rows = T.bodyCells.value;
            const keep = items.filter((x) => query === null || text(x).includes(query));
            if (query !== null && nestedSkip()) return null;
            if (rows.length !== keep.length) return `${why}: ${rows.length} rows, expected ${keep.length} of ${items.length} for ${JSON.stringify(query)}`;
            const head = T.headerCells.value;
            const keys = C.kind === null ? (items.length ? Object.keys(items[0]) : []) : C.keys;
            if (head.length !== keys.length) return `${why}: ${head.length} header cells, expected ${keys.length}`;
            const ids = new Set();
            for (let j = 0; j < keys.length; j++) {
                const h = head[j];
                if (h.colKey !== keys[j] || h.value !== (C.kind === 'def' ? keys[j].toUpperCase() : keys[j]) || h.colIdx !== j || !!h.sortable !== (C.kind === 'def' && !!C.sortable[j])) return `${why}: header cell ${j} is ${JSON.stringify(h)}, expected column ${keys[j]}`;
            }
            for (let i = 0; i < rows.length; i++) {
                const x = keep[i];
                if (rows[i].length !== keys.length) return `${why}: row ${i} has ${rows[i].length} cells, expected ${keys.length}`;
                for (let j = 0; j < keys.length; j++) {
                    const cell = rows[i][j];
                    const raw = C.kind === null ? x[keys[j]] : at(x, keys[j]);
                    const v = C.kind === 'def' && C.t[j] ? FN[C.t[j]](raw, x) : raw;
                    if (!same(M.toRaw(cell.value), v)) return `${why}: row ${i} column ${keys[j]} shows ${JSON.stringify(cell.value)}, expected ${JSON.stringify(v)}`;
                    if (!same(M.toRaw(cell.item), x)) return `${why}: row ${i} column ${keys[j]} carries another item ${JSON.stringify(cell.item)}`;
                    if (cell.colKey !== keys[j] || cell.colIdx !== j || cell.rowIdx !== items.indexOf(x)) return `${why}: cell ${i},${j} says ${cell.colKey},${cell.colIdx},${cell.rowIdx}`;
                    if (ids.has(cell.id)) return `${why}: two cells share the id ${cell.id}`;
                    ids.add(cell.id);
                }
                if (!!T.isExpanded(rows[i]) !== !!open.get(x)) return `${why}: row ${i} expanded: ${T.isExpanded(rows[i])}, expected ${!!open.get(x)}`;
            }
            if (T.anyExpandable.value !== items.some(can)) return `${why}: anyExpandable ${T.anyExpandable.value}`;
            if (saidTotal && !same(M.toRaw(saidTotal).map((x) => x), keep)) return `${why}: announced ${saidTotal.length} total items, expected ${keep.length}`;
            if (c && keys.length) {
                const dom = c.rows();
                if (dom.length !== keep.length) return `${why}: ${dom.length} rendered rows, expected ${keep.length}`;
                const want = rows.map((r) => r.map((y) => (y.value == null ? '' : typeof y.value === 'object' ? null : String(y.value).trim())));
                for (let i = 0; i < dom.length; i++) for (let j = 0; j < keys.length; j++) if (want[i][j] !== null && dom[i][j] !== want[i][j]) return `${why}: rendered ${JSON.stringify(dom[i])}, expected ${JSON.stringify(want[i])}`;
            }
            return null;
        };
        let m = look('start');
        if (m) return m;
        for (const op of t.ops) {
            saidTotal = null;
            if (op[0] === 'items') {
                items = op[1].map((x) => ({ ...x, deep: { ...x.deep } }));
                P.items = items;
                open.clear();
                // rows equal to the old ones may stay open
            } else if (op[0] === 'columns') {
                C = op[1];
                P.columns = definition(C);
                open.clear();
            } else if (op[0] === 'search') {
                if (c) continue;
                query = op[1];
                const q = query;
                find.value = q === null ? null : { match: (s) => s.includes(q) };
            } else if (op[0] === 'toggle') {
                const rows = T.bodyCells.value;
                if (!rows.length || !rows[0].length) continue;
                const row = rows[op[1] % rows.length];
                const x = items[row[0].rowIdx];
                const ok = can(x, row[0].rowIdx);
                const got = T.toggleExpand(row);
                if (ok) open.set(x, !open.get(x));
                if (!!got !== (ok && !!open.get(x))) return `${JSON.stringify(op)}: toggling answered ${got}`;
            } else if (op[0] === 'edit') {
                if (!items.length) continue;
                // the owner replaces one item
                const i = op[1] % items.length;
                items = items.map((x, k) => (k === i ? { ...x, a: op[2] } : x));
                P.items = items;
                open.clear();
            } else if (op[0] === 'swap') {
                items = items.slice().reverse();
                P.items = items;
                open.clear();
            } else {
                items = items.slice();
                P.items = items;
                open.clear();
            }
            await M.nextTick();
            await M.nextTick();
            if (op[0] !== 'toggle') {
                // which rows are open after a rebuild is left open
                T.bodyCells.value.forEach((row) => row.length && T.isExpanded(row) && open.set(items[row[0].rowIdx], true));
                if (op[0] === 'search') {
                    m = null;
                }
            }
            m = look(JSON.stringify(op));
            if (m) return m;
        }
    } finally {
        c?.unmount();
    }
    return null;
}
