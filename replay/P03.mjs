import { entry, table } from './table.mjs';
export { entry };
export function gen(r) {
    const n = r.int(0, r.pick([3, 8, 20, 60]));
    return {
        n,
        tags: r.list(n, () => r.int(0, 2)),
        size: r.pick([r.int(1, 5), r.int(1, 12), 10, 50, 'all']),
        pages: r.list(r.int(1, 4), () => r.int(0, 8)),
        next: r.bool(0.4) ? r.int(1, 9) : null,
        server: r.bool(0.15) ? r.int(1, 90) : 0,
        bound: r.bool(),
        pag: r.bool(0.9),
        word: r.bool(0.3) ? r.int(0, 2) : null,
        grow: r.bool(0.3) ? r.int(0, 12) : null,
        dom: r.bool(0.15),
    };
}
export function* shrink(t) {
    if (t.n > 0) yield { ...t, n: t.n - 1, tags: t.tags.slice(1) };
    if (t.next !== null) yield { ...t, next: null };
    if (t.word !== null) yield { ...t, word: null };
    if (t.pages.length > 1) yield { ...t, pages: t.pages.slice(1) };
}
const J = JSON.stringify;
export async function run(M, t) {
    const mk = (n, from = 0) => Array.from({ length: n }, (_, i) => ({ id: from + i, tag: 'w' + (t.tags[i % Math.max(1, t.n)] ?? 0) + '.' }));
    let items = mk(t.n);
    let size = t.size === 'all' ? Infinity : t.size;
    const search = M.ref(t.word === null ? null : { match: (s) => s.includes('w' + t.word + '.') });
    const kept = () => (t.word === null ? items : items.filter((x) => x.tag === 'w' + t.word + '.')).map((x) => x.id);
    const pagination = t.pag ? (t.server ? { totalItemCount: t.server, showPageSizeSelect: true } : true) : false;
    const given = { columns: ['id', 'tag'], items, pagination, serverMode: !!t.server, pageSize: size };
    if (t.bound) given.page = t.pages[0];
    if (t.dom) {
        const many = size === Infinity ? 1 : Math.max(1, Math.ceil((t.server || t.n) / size));
        if (t.bound) given.page = t.pages[0] % many;
        // only page sizes on offer: the page size select drops any other
        if (given.pagination === true) given.pagination = {};
        const c = await table(M, given);
        try {
            for (const pp of t.pages) {
                const p = pp % many;
                if (t.bound) await c.set('page', p);
                else c.s.table.page.value = p;
                await M.nextTick();
                await M.nextTick();
                const ids = items.map((x) => x.id);
                const want = !t.pag || t.server ? ids : size === Infinity ? ids : ids.slice(p * size, p * size + size);
                const got = c.rows().map((r) => Number(r[0]));
                const shown = want.length ? want : [];
                if (J(got) !== J(shown)) return `rendered rows ${J(got)} on page ${p}, page size ${size}: expected ${J(shown)}`;
            }
        } finally {
            c.unmount();
        }
        return null;
    }
    const props = M.reactive(given);
    const log = [];
    const cb = Object.fromEntries(['updateSelectedItems', 'updatePage', 'updatePageSize', 'updatePagedItems', 'updateTotalItems'].map((k) => [k, (v) => log.push([k, v])]));
    const T = M.useTable(props, { searchInputRef: search }, cb);
    T.initialize();
    const look = (p) => {
        const all = kept();
        const rows = T.bodyCells.value.map((r) => r[0].item.id);
        const want = !t.pag || t.server || size === Infinity ? all : all.slice(p * size, p * size + size);
        if (J(rows) !== J(want)) return `page ${p} of size ${size} shows ${J(rows)}, expected ${J(want)}`;
        const total = t.server && t.pag ? t.server : t.server ? 0 : all.length;
        if (T.totalItems.value !== total) return `total ${T.totalItems.value}, expected ${total}`;
        if (t.pag) {
            const pages = size === Infinity ? 1 : Math.ceil(total / size);
            if (T.totalPages.value !== pages) return `${T.totalPages.value} pages for ${total} rows of page size ${size}, expected ${pages}`;
        }
        return null;
    };
    for (const p of t.pages) {
        if (t.bound) props.page = p;
        else T.page.value = p;
        await M.nextTick();
        if (T.page.value !== p) return `page ${T.page.value} after choosing ${p}`;
        const m = look(p);
        if (m) return m;
    }
    if (t.grow !== null) {
        props.items = items = mk(t.grow, 100);
        await M.nextTick();
        const m = look(t.pages[t.pages.length - 1]);
        if (m) return 'after the rows changed: ' + m;
    }
    if (t.next !== null) {
        log.length = 0;
        T.pageSize.value = size = t.next;
        const up = log.filter((l) => l[0] === 'updatePage' || l[0] === 'updatePageSize');
        if (up.length !== 2 || !up.some((l) => l[0] === 'updatePage' && l[1] === 0) || !up.some((l) => l[0] === 'updatePageSize' && l[1] === t.next)) return `page size change announced ${J(up)}`;
        if (t.bound) props.page = 0;
        if (T.page.value !== 0) return `page ${T.page.value} after a page size change`;
        const m = look(0);
        if (m) return 'after the page size changed: ' + m;
    }
    return null;
}
