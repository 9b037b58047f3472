// Table cells, row search and row expansion.
import { S, undef, nul, I, seq, rec, lift, litSeq } from './prelude.mjs';

const D = 'packages/vlossom/src/components/vs-table/';
const key = (j) => S.app('colKey', [j], 'Str');
const within = (i, n) => S.and(S.ge(i, I(0)), S.lt(i, n));

function rows(E) {
    const n = E.nat('rows');
    const items = E.symArr('item', n);
    const q = E.bvar('Int', 'q');
    E.assume(S.forall([q], S.is('vobj', lift(E.seqOf(items).at(q))), [[lift(E.seqOf(items).at(q))]]));
    return { n, items, src: E.seqOf(items) };
}
/** any columns; some have their own formatting */
function columnDefs(E, m) {
    E.opaqueCall = (f, a) => S.app('transformed', [f, lift(a[0]), lift(a[1])], 'Val');
    return E.arr(
        seq(m, (j) =>
            rec(
                new Map([
                    ['key', key(j)],
                    ['label', S.app('colLabel', [j], 'Str')],
                    ['sortable', S.app('colSortable', [j], 'Val')],
                    ['transform', S.ite(S.app('colHasTransform', [j], 'Bool'), S.ctor('vobj', S.app('colTransform', [j], 'Obj')), S.UNDEF)],
                ]),
            ),
        ),
    );
}
const got = (item, j) => S.app('rget', [lift(item), key(j)], 'Val');

/** the matrix is one header and one row per item, each cell its own */
function matrix(E, header, body, { n, m, src, value, headValue, sortable }) {
    E.ensure('one header cell per column', S.eq(header.len, m));
    E.ensure('one row per item', S.eq(body.len, n));
    const i = E.fresh('i', 'Int');
    const j = E.fresh('j', 'Int');
    if (E.decide(within(j, m))) {
        const h = header.at(j);
        E.ensure('header cell belongs to its column', S.and(E.same(E.getProp(h, 'colKey'), key(j)), E.same(E.getProp(h, 'value'), headValue(j)), S.eq(E.getProp(h, 'colIdx'), j)));
        if (sortable) E.ensure('header sortable as its column says', E.same(E.getProp(h, 'sortable'), sortable(j)));
    } else return;
    if (!E.decide(within(i, n))) return;
    const row = E.seqOf(body.at(i));
    E.ensure('one cell per column', S.eq(row.len, m));
    const c = row.at(j);
    E.ensure('the cell carries its own item', E.same(E.getProp(c, 'item'), src.at(i)));
    E.ensure('the cell carries that item\'s value for that column', E.same(E.getProp(c, 'value'), value(src.at(i), j)));
    E.ensure('the cell knows its column', S.and(E.same(E.getProp(c, 'colKey'), key(j)), S.eq(E.getProp(c, 'colIdx'), j)));
    E.ensure('the cell knows its row', S.eq(E.getProp(c, 'rowIdx'), i));
    // cells have identities of their own
    const [i2, j2] = [E.fresh('i2', 'Int'), E.fresh('j2', 'Int')];
    if (!E.decide(S.and(within(i2, n), within(j2, m), S.or(S.not(S.eq(i, i2)), S.not(S.eq(j, j2)))))) return;
    for (const x of [j, j2]) E.decide(S.app('colHasTransform', [x], 'Bool'));
    E.ensure('different cells are told apart', S.not(E.eq(E.getProp(c, 'id'), E.getProp(E.seqOf(body.at(i2)).at(j2), 'id'))));
}
function useTable(E, props) {
    const api = E.call(E.get(D + 'composables/table-composable.ts', 'useTable'), [props, E.obj({ searchInputRef: E.ref(undef) })]);
    E.call(E.getProp(api, 'initialize'), []);
    return api;
}

export const contracts = [
    {
        name: 'cells of defined columns',
        run(E) {
            const r = rows(E);
            const m = E.int('columns');
            E.assume(S.ge(m, I(1)));
            const api = useTable(E, E.obj({ items: r.items, columns: columnDefs(E, m) }));
            const v = (k) => E.seqOf(E.v(E.getProp(api, k)));
            matrix(E, v('headerCells'), v('bodyCells'), {
                ...r,
                m,
                value: (x, j) => S.ite(S.app('colHasTransform', [j], 'Bool'), S.app('transformed', [S.ctor('vobj', S.app('colTransform', [j], 'Obj')), got(x, j), lift(x)], 'Val'), got(x, j)),
                headValue: (j) => S.app('colLabel', [j], 'Str'),
                sortable: (j) => S.ite(S.or(S.is('undef', S.app('colSortable', [j], 'Val')), S.is('nul', S.app('colSortable', [j], 'Val'))), S.ctor('vbool', S.FALSE), S.app('colSortable', [j], 'Val')),
            });
        },
    },
    {
        name: 'cells of named columns',
        run(E) {
            const r = rows(E);
            const m = E.int('columns');
            E.assume(S.ge(m, I(1)));
            const columns = E.arr(seq(m, (j) => key(j)));
            let header;
            let body;
            if (E.choose('how', 2) === 0) {
                const api = useTable(E, E.obj({ items: r.items, columns }));
                header = E.seqOf(E.v(E.getProp(api, 'headerCells')));
                body = E.seqOf(E.v(E.getProp(api, 'bodyCells')));
            } else {
                const b = E.construct(E.get(D + 'models/table-cell-builder.ts', 'TableCellBuilder'), [r.items, columns]);
                const all = E.seqOf(E.call(E.getProp(b, 'build'), []));
                E.ensure('header and rows', S.eq(all.len, S.add(r.n, I(1))));
                header = E.seqOf(all.at(I(0)));
                body = seq(S.sub(all.len, I(1)), (i) => all.at(S.add(i, I(1))));
            }
            matrix(E, header, body, { ...r, m, value: got, headValue: key });
        },
    },
    {
        name: 'cells without columns',
        run(E) {
            const n = E.int('rows');
            E.assume(S.ge(n, I(1)));
            // any number of rows; three fields each
            const fields = ['a', 'b', 'c'];
            const items = E.arr(seq(n, (i) => rec(new Map(fields.map((f) => [f, S.app('item_' + f, [i], 'Val')])))));
            const api = useTable(E, E.obj({ items }));
            const header = E.seqOf(E.v(E.getProp(api, 'headerCells')));
            const body = E.seqOf(E.v(E.getProp(api, 'bodyCells')));
            E.ensure('one header cell per field', S.eq(header.len, I(3)));
            E.ensure('one row per item', S.eq(body.len, n));
            const i = E.fresh('i', 'Int');
            if (!E.decide(within(i, n))) return;
            const row = E.seqOf(body.at(i));
            E.ensure('one cell per field', S.eq(row.len, I(3)));
            fields.forEach((f, j) => {
                E.ensure('header names the field', S.and(E.same(E.getProp(header.at(I(j)), 'colKey'), S.str(f)), E.same(E.getProp(header.at(I(j)), 'value'), S.str(f))));
                const c = row.at(I(j));
                E.ensure('the cell carries its own field', S.and(E.same(E.getProp(c, 'value'), S.app('item_' + f, [i], 'Val')), E.same(E.getProp(c, 'colKey'), S.str(f))));
                E.ensure('the cell carries its own item', E.deepEqual(E.getProp(c, 'item'), E.seqOf(items).at(i)));
                E.ensure('the cell knows its place', S.and(S.eq(E.getProp(c, 'rowIdx'), i), S.eq(E.getProp(c, 'colIdx'), I(j))));
            });
        },
    },
    {
        name: 'cells follow changed items and columns',
        run(E) {
            const r = rows(E);
            const m = E.int('columns');
            E.assume(S.ge(m, I(1)));
            const props = E.obj({ items: E.symArr('old', E.nat('oldRows')), columns: columnDefs(E, m) });
            const api = useTable(E, props);
            E.v(E.getProp(api, 'bodyCells'));
            E.settle();
            E.setProp(props, 'items', r.items);
            E.flush();
            const body = E.seqOf(E.v(E.getProp(api, 'bodyCells')));
            E.ensure('one row per item', S.eq(body.len, r.n));
            const i = E.fresh('i', 'Int');
            if (!E.decide(within(i, r.n))) return;
            const j = E.fresh('j', 'Int');
            if (!E.decide(within(j, m))) return;
            E.ensure('each row shows the new item at its place', E.deepEqual(E.getProp(E.seqOf(body.at(i)).at(j), 'item'), r.src.at(i)));
        },
    },
    {
        name: 'row search',
        run(E) {
            const m = E.nat('columns');
            const skip = (j) => S.app('colSkip', [j], 'Bool');
            const columns = E.arr(seq(m, (j) => rec(new Map([['key', key(j)], ['label', key(j)], ['skipSearch', skip(j)]]))));
            const asked = [];
            const match = E.native('match', (a) => {
                asked.push(a[0]);
                return S.app('matches', [E.toStr(a[0])], 'Bool');
            });
            // the item's text is a function of the item and of the keys left out
            const omitted = [];
            const rad = E.externals.get('radash');
            rad.omit = E.native('omit', (a) => {
                omitted.push(a);
                return a[0];
            });
            const values = E.arr(litSeq([E.val('v0'), E.val('v1')]));
            rad.crush = E.native('crush', () => E.obj({ x: E.str('x'), y: E.str('y') }));
            void values;
            const on = E.choose('search', 2) === 1;
            const api = E.call(E.get(D + 'composables/table-search-composable.ts', 'useTableSearch'), [E.ref(on ? E.obj({ match }) : nul), E.ref(columns)]);
            const item = E.val('item');
            E.assume(S.is('vobj', item));
            const r = E.call(E.getProp(api, 'matchBySearch'), [E.arr(litSeq([E.obj({ tag: S.str('td'), item, id: E.str('id') }), E.obj({ tag: S.str('td'), item, id: E.str('id2') })]))]);
            if (!on) {
                E.ensure('without a search every row stays', r);
                return;
            }
            E.ensure('the search is asked once', S.bool(asked.length === 1));
            E.ensure('its answer decides', S.eq(r, S.app('matches', [E.toStr(asked[0])], 'Bool')));
            E.ensure('the row\'s own item is searched', S.and(S.bool(omitted.length === 1), E.same(omitted[0][0], item)));
            const want = E.filterSeq(E.seqOf(columns), (j) => skip(j), (j) => key(j));
            const keys = E.seqOf(omitted[0][1]);
            E.ensure('exactly the excluded columns are left out', S.eq(keys.len, want.len));
            const k = E.fresh('k', 'Int');
            if (E.decide(within(k, want.len))) E.ensure('each excluded column', E.same(keys.at(k), want.at(k)));
        },
    },
    {
        name: 'search keeps the matching rows in order',
        run(E) {
            const r = rows(E);
            const m = E.int('columns');
            E.assume(S.ge(m, I(1)));
            const match = (item) => S.app('matches', [lift(item)], 'Bool');
            E.stubs.set('call:' + D + 'composables/table-search-composable.ts#useTableSearch', () =>
                E.obj({ matchBySearch: E.native('matchBySearch', (a) => match(E.getProp(E.seqOf(a[0]).at(I(0)), 'item'))) }),
            );
            const api = useTable(E, E.obj({ items: r.items, columns: columnDefs(E, m) }));
            const body = E.seqOf(E.v(E.getProp(api, 'bodyCells')));
            const kept = E.filterSeq(r.src, (i) => match(r.src.at(i)));
            E.ensure('number of rows', S.eq(body.len, kept.len));
            const k = E.fresh('k', 'Int');
            if (E.decide(within(k, kept.len))) E.ensure('each matching row in order', E.same(E.getProp(E.seqOf(body.at(k)).at(I(0)), 'item'), kept.at(k)));
        },
    },
    {
        name: 'expansion',
        run(E) {
            const n = E.nat('rows');
            const items = E.ref(E.symArr('item', n));
            const can = (x, i) => S.app('expandable', [lift(x), lift(i)], 'Bool');
            const rule = E.ref(E.native('expandable', (a) => can(a[0], a[1])));
            const api = E.call(E.get(D + 'composables/table-expand-composable.ts', 'useTableExpand'), [rule, items]);
            const row = (nm) => {
                const item = E.val(nm + 'Item');
                E.assume(S.is('vobj', item));
                const id = E.str(nm + 'Id');
                E.assume(S.not(S.eq(id, S.str(''))));
                return { item, id, idx: E.nat(nm + 'Idx'), cells: E.arr(litSeq([E.obj({ tag: S.str('td'), item, id, rowIdx: E.nat(nm + 'Idx') })])) };
            };
            const [a, b] = [row('a'), row('b')];
            E.assume(S.not(S.eq(a.id, b.id)));
            const open = (r) => E.call(E.getProp(api, 'isExpanded'), [r.cells]);
            const toggle = (r) => E.call(E.getProp(api, 'toggleExpand'), [r.cells]);
            // any reachable state of the two rows
            if (E.decide(E.bool('aOpen'))) toggle(a);
            if (E.decide(E.bool('bOpen'))) toggle(b);
            const [a0, b0] = [E.decide(open(a)), E.decide(open(b))];
            E.ensure('only an expandable row is ever expanded', S.and(S.implies(S.bool(a0), can(a.item, a.idx)), S.implies(S.bool(b0), can(b.item, b.idx))));
            const r = toggle(a);
            const ok = E.decide(can(a.item, a.idx));
            E.ensure('an expandable row toggles', S.eq(open(a), S.bool(ok ? !a0 : a0)));
            E.ensure('other rows stay', S.eq(open(b), S.bool(b0)));
            E.ensure('the answer says whether the row is open now', S.implies(S.bool(ok), S.eq(r, open(a))));
            E.ensure('a header row does not expand', S.not(E.call(E.getProp(api, 'isExpanded'), [E.arr(litSeq([E.obj({ tag: S.str('th'), id: a.id })]))])));
            const src = E.seqOf(E.getProp(items, 'value'));
            E.ensure('some row can expand', S.eq(E.v(E.getProp(api, 'anyExpandable')), E.any(I(0), n, (i) => can(src.at(i), i))));
        },
    },
];
