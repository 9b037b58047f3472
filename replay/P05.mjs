import { entry, table } from './table.mjs';
export { entry };
export function gen(r) {
    const n = r.int(0, 6);
    return {
        n,
        rule: r.pick(['item', 'index', 'list', 'true', 'false', 'none', 'item']),
        mask: r.list(9, () => r.bool(0.6)),
        start: r.list(9, () => r.bool(0.3)),
        ops: r.list(r.int(1, 5), () => r.pick([['all'], ['all'], ['bind', r.list(9, () => r.bool(0.5))], ['pick', r.int(0, 8)], ['items', r.int(0, 6)], ['rule', r.list(9, () => r.bool(0.5))], ['bindAll']])),
        dom: r.bool(0.1),
        follow: r.bool(),
    };
}
export function* shrink(t) {
    if (t.ops.length > 1) for (let i = 0; i < t.ops.length; i++) yield { ...t, ops: t.ops.filter((_, k) => k !== i) };
    if (t.n > 1) yield { ...t, n: t.n - 1 };
}
const J = (x) => JSON.stringify(x.map((i) => i.id));
export async function run(M, t) {
    let mask = t.mask;
    const mk = (n, g) => Array.from({ length: n }, (_, i) => ({ id: g * 10 + i, ok: mask[i] }));
    let items = mk(t.n, 0);
    const can = () => items.filter((x, i) => ({ item: x.ok, index: mask[i], list: x.ok, true: true, false: false, none: false })[t.rule]);
    const rule = () => ({ item: (x) => x.ok, index: (_x, i) => mask[i], list: (x, i, l) => l[i].ok, true: true, false: false, none: undefined })[t.rule];
    const subset = (m) => can().filter((_, i) => m[i]);
    let sel = subset(t.start);
    const props = { columns: ['id', 'ok'], items, selectable: rule(), selectedItems: sel };
    const log = [];
    let T;
    let c = null;
    let P;
    if (t.dom) {
        c = await table(M, props);
        T = c.s.table;
        P = c.state;
    } else {
        P = M.reactive(props);
        const cb = Object.fromEntries(['updateSelectedItems', 'updatePage', 'updatePageSize', 'updatePagedItems', 'updateTotalItems'].map((k) => [k, (v) => log.push([k, v])]));
        T = M.useTable(P, { searchInputRef: M.ref(null) }, cb);
        T.initialize();
    }
    const said = () => (c ? c.events.filter((e) => e[0] === 'update:selectedItems') : log.filter((e) => e[0] === 'updateSelectedItems'));
    try {
        const look = (why) => {
            const now = M.toRaw(T.selectedItems.value).map(M.toRaw);
            if (J(now) !== J(sel)) return `${why}: selection ${J(now)}, expected ${J(sel)} (selectable ${J(can())})`;
            const all = can();
            if (T.anySelectable.value !== all.length > 0) return `${why}: anySelectable ${T.anySelectable.value}`;
            if (sel.every((x) => all.includes(x))) {
                if (T.selectedAll.value !== (all.length > 0 && sel.length === all.length)) return `${why}: shown as all: ${T.selectedAll.value}, selection ${J(sel)} of ${J(all)}`;
                if (T.selectedPartial.value !== (sel.length > 0 && sel.length < all.length)) return `${why}: shown as some: ${T.selectedPartial.value}, selection ${J(sel)} of ${J(all)}`;
            }
            return null;
        };
        let m = look('start');
        if (m) return m;
        for (const op of t.ops) {
            if (c) c.events.length = 0;
            log.length = 0;
            const was = sel;
            let announce = null;
            if (op[0] === 'all') {
                const all = can();
                if (!sel.every((x) => all.includes(x))) break;
                if (c && all.length) {
                    const box = c.el.querySelector('thead th.vs-table-th');
                    if (!box) return 'no header checkbox';
                    box.dispatchEvent(new window.MouseEvent('click', { bubbles: true }));
                } else T.toggleSelectAll();
                sel = all.length && sel.length === all.length ? [] : all;
                announce = 1;
            } else if (op[0] === 'bind' || op[0] === 'bindAll') {
                const next = op[0] === 'bindAll' ? can() : subset(op[1]);
                P.selectedItems = next;
                sel = next;
                announce = JSON.stringify(next) === JSON.stringify(was) ? 0 : 1;
            } else if (op[0] === 'pick') {
                const all = can();
                if (!all.length) continue;
                const x = all[op[1] % all.length];
                sel = sel.includes(x) ? sel.filter((y) => y !== x) : [...sel, x];
                T.selectedItems.value = sel;
                announce = 1;
            } else if (op[0] === 'items') {
                items = mk(op[1], t.ops.indexOf(op) + 1);
                P.items = items;
            } else {
                mask = op[1];
                if (t.rule === 'item' || t.rule === 'list') continue;
                P.selectable = rule();
            }
            await M.nextTick();
            await M.nextTick();
            m = look(JSON.stringify(op));
            if (m) return m;
            if (announce !== null && !c && said().length !== announce) return `${JSON.stringify(op)}: announced ${said().length} times, expected ${announce}`;
            if (announce && said().length && J(said()[0][1].map(M.toRaw)) !== J(sel)) return `${JSON.stringify(op)}: announced ${J(said()[0][1])}, selection ${J(sel)}`;
        }
    } finally {
        c?.unmount();
    }
    return null;
}
