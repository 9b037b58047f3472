// Table pages: the rows shown page by page partition the rows that survive the search.
import { S, undef, I, seq, rec, lift, inf } from './prelude.mjs';

const D = 'packages/vlossom/src/components/vs-table/composables/';
const PAG = D + 'table-pagination-composable.ts';
const INF = inf(true);

/** the whole table logic with any rows, any columns, any search outcome, no sort */
function table(E, { size, server = S.FALSE, pag = S.TRUE, page, cb }) {
    const n = E.nat('rows');
    const m = E.int('columns');
    E.assume(S.ge(m, I(1)));
    const match = (item) => S.app('matches', [lift(item)], 'Bool');
    E.stubs.set('call:' + D + 'table-search-composable.ts#useTableSearch', () =>
        E.obj({ matchBySearch: E.native('matchBySearch', (a) => match(E.getProp(E.seqOf(a[0]).at(I(0)), 'item'))) }),
    );
    const items = E.symArr('item', n);
    const columns = E.arr(seq(m, (i) => rec(new Map([['key', S.app('colKey', [i], 'Str')], ['label', S.app('colLabel', [i], 'Str')]]))));
    const props = E.obj({ items, columns, pagination: pag, serverMode: server });
    if (page) props.f.set('page', page);
    if (size) props.f.set('pageSize', size);
    const api = E.call(E.get(D + 'table-composable.ts', 'useTable'), [props, E.obj({ searchInputRef: E.ref(undef) }), ...(cb ? [cb] : [])]);
    E.call(E.getProp(api, 'initialize'), []);
    const src = E.seqOf(items);
    const kept = E.filterSeq(src, (i) => match(src.at(i)));
    return { n, m, items, props, match, api, kept, v: (k) => E.v(E.getProp(api, k)), set: (k, x) => E.setProp(E.getProp(api, k), 'value', x) };
}
const itemOf = (E, row) => E.getProp(E.seqOf(row).at(I(0)), 'item');
/** the rows shown are exactly the surviving rows lo, lo+1, … up to hi */
function shows(E, label, t, lo, hi) {
    const rows = E.seqOf(t.v('bodyCells'));
    const len = S.max(S.sub(S.min(hi, t.kept.len), lo), I(0));
    E.ensure(`${label}: number of rows`, S.eq(rows.len, len));
    const k = E.fresh('k', 'Int');
    if (E.decide(S.and(S.ge(k, I(0)), S.lt(k, rows.len)))) E.ensure(`${label}: each row in order`, E.same(itemOf(E, rows.at(k)), t.kept.at(S.add(lo, k))));
    return rows;
}

export const contracts = [
    {
        name: 'a page holds its slice of the surviving rows',
        run(E) {
            const size = E.int('pageSize');
            E.assume(S.ge(size, I(1)));
            const page = E.nat('page');
            const t = table(E, { size, page });
            const lo = S.mul(page, size);
            const rows = shows(E, 'page', t, lo, S.add(lo, size));
            E.ensure('no more rows than the page size', S.le(rows.len, size));
        },
    },
    {
        name: 'page count covers the surviving rows exactly',
        run(E) {
            const size = E.int('pageSize');
            E.assume(S.ge(size, I(1)));
            const t = table(E, { size, page: E.nat('page') });
            const p = t.v('totalPages');
            E.ensure('the last page starts before the end', S.implies(S.gt(t.kept.len, I(0)), S.lt(S.mul(S.sub(p, I(1)), size), t.kept.len)));
            E.ensure('the pages reach the end', S.ge(S.mul(p, size), t.kept.len));
            E.ensure('no rows, no pages', S.implies(S.eq(t.kept.len, I(0)), S.eq(p, I(0))));
            E.ensure('the total is the number of surviving rows', S.eq(t.v('totalItems'), t.kept.len));
        },
    },
    {
        name: 'showing all',
        run(E) {
            const t = table(E, { size: INF, page: E.nat('page') });
            shows(E, 'all', t, I(0), t.kept.len);
            E.ensure('one page', S.eq(t.v('totalPages'), I(1)));
        },
    },
    {
        name: 'no pagination',
        run(E) {
            const size = E.int('pageSize');
            const t = table(E, { size, page: E.nat('page'), pag: S.FALSE });
            shows(E, 'all', t, I(0), t.kept.len);
        },
    },
    {
        name: 'server mode',
        run(E) {
            const size = E.int('pageSize');
            E.assume(S.ge(size, I(1)));
            const total = E.int('totalItemCount');
            E.assume(S.ge(total, I(1)));
            const t = table(E, { size, page: E.nat('page'), server: S.TRUE, pag: E.obj({ totalItemCount: total }) });
            shows(E, 'as supplied', t, I(0), t.kept.len);
            const p = t.v('totalPages');
            E.ensure('page count follows the announced total', S.and(S.lt(S.mul(S.sub(p, I(1)), size), total), S.ge(S.mul(p, size), total)));
            E.ensure('total as announced', S.eq(t.v('totalItems'), total));
        },
    },
    {
        name: 'page size change returns to the first page',
        run(E) {
            const log = [];
            const say = (n) => E.native(n, (a) => (log.push([n, a[0]]), undef));
            const cb = E.obj(Object.fromEntries(['updateSelectedItems', 'updatePage', 'updatePageSize', 'updatePagedItems', 'updateTotalItems'].map((n) => [n, say(n)])));
            const t = table(E, { cb });
            t.set('page', E.nat('page'));
            const size = E.int('pageSize');
            E.assume(S.ge(size, I(1)));
            log.length = 0;
            t.set('pageSize', size);
            E.ensure('first page', S.eq(t.v('page'), I(0)));
            E.ensure('page size taken over', S.eq(t.v('pageSize'), size));
            E.ensure('both announced once', S.bool(log.length === 2 && log.some((l) => l[0] === 'updatePage') && log.some((l) => l[0] === 'updatePageSize')));
            for (const [n, v] of log) E.ensure('announced values', S.eq(v, n === 'updatePage' ? I(0) : size));
            shows(E, 'first page', t, I(0), size);
            const p2 = E.nat('page2');
            t.set('page', p2);
            E.ensure('page taken over', S.eq(t.v('page'), p2));
            shows(E, 'next pages', t, S.mul(p2, size), S.add(S.mul(p2, size), size));
        },
    },
    {
        name: 'page arithmetic',
        run(E) {
            // the composable alone: start and end of a page, any options
            const size = E.int('pageSize');
            E.assume(S.ge(size, I(1)));
            const page = E.nat('page');
            const total = E.nat('total');
            const api = E.call(E.get(PAG, 'useTablePagination'), [E.ref(E.obj({ totalItemCount: total })), E.ref(page), E.ref(size), E.ref(total), E.ref(E.bool('server'))]);
            const v = (k) => E.v(E.getProp(api, k));
            E.ensure('start', S.eq(v('pageStartIndex'), S.mul(page, size)));
            E.ensure('end', S.eq(v('pageEndIndex'), S.min(S.add(S.mul(page, size), size), total)));
        },
    },
];
