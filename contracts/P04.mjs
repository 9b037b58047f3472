// Table sorting: the order of the rendered rows, and the cycle of a header.
import { S, undef, nul, I, seq, rec, lift, litSeq } from './prelude.mjs';

const D = 'packages/vlossom/src/components/vs-table/composables/';
const CMP = 'packages/vlossom/src/utils/compare-util.ts';
const SORT = D + 'table-sort-composable.ts';
const KINDS = ['number', 'text', 'boolean', 'date'];

/** "v is null or of the kind" */
const ofKind = (kind, v) =>
    S.or(
        S.is('nul', v),
        kind === 'number' ? S.is('vnum', v) : kind === 'text' ? S.is('vstr', v) : kind === 'boolean' ? S.is('vbool', v) : S.and(S.is('vobj', v), S.app('instof_Date', [S.sel('vo', v)], 'Bool'), S.not(S.app('isfn', [S.sel('vo', v)], 'Bool'))),
    );
/** v is strictly before w: by value, nulls after everything */
function before(E, kind, v, w) {
    const num = (x) => (kind === 'number' ? S.sel('vn', x) : kind === 'boolean' ? S.ite(S.sel('vb', x), I(1), I(0)) : S.app('date_time', [S.sel('vo', x)], 'Int'));
    const lt = kind === 'text' ? S.lt(E.localeCompare(S.sel('vs', v), S.sel('vs', w), []), I(0)) : S.lt(num(v), num(w));
    return S.ite(S.is('nul', v), S.FALSE, S.ite(S.is('nul', w), S.TRUE, lt));
}
function columnsOf(E, m) {
    return E.arr(
        seq(m, (i) =>
            rec(
                new Map([
                    ['key', S.app('colKey', [i], 'Str')],
                    ['label', S.app('colLabel', [i], 'Str')],
                    ['sortBy', S.app('colSortBy', [i], 'Val')],
                ]),
            ),
        ),
    );
}

export const contracts = [
    {
        name: 'value comparison',
        run(E) {
            const kind = KINDS[E.choose('kind', 4)];
            const [a, b] = [E.val('a'), E.val('b')];
            E.assume(S.and(ofKind(kind, a), ofKind(kind, b)));
            const cmp = (x, y) => E.toNum(E.call(E.getProp(E.get(CMP, 'compareUtil'), 'compareValues'), [x, y]));
            const ab = cmp(a, b);
            const ba = cmp(b, a);
            E.ensure('negative exactly when before', S.eq(S.lt(ab, I(0)), before(E, kind, a, b)));
            E.ensure('positive exactly when after', S.eq(S.gt(ab, I(0)), before(E, kind, b, a)));
            E.ensure('the other direction is the opposite', S.eq(S.gt(ba, I(0)), S.lt(ab, I(0))));
            E.ensure('a value equals itself', S.eq(cmp(a, a), I(0)));
        },
    },
    ...KINDS.map((kind) => ({
        name: `rows sorted by a ${kind} column`,
        run(E) {
            const n = E.nat('rows');
            const m = E.int('columns');
            E.assume(S.ge(m, I(1)));
            const items = E.symArr('item', n);
            const src = E.seqOf(items);
            const columns = columnsOf(E, m);
            const props = E.obj({ items, columns, pagination: S.FALSE, serverMode: S.FALSE });
            const api = E.call(E.get(D + 'table-composable.ts', 'useTable'), [props, E.obj({ searchInputRef: E.ref(undef) })]);
            E.call(E.getProp(api, 'initialize'), []);
            const col = E.int('column');
            E.assume(S.and(S.ge(col, I(0)), S.lt(col, m)));
            // column keys are distinct
            const q = E.bvar('Int', 'q');
            E.assume(S.forall([q], S.implies(S.and(S.ge(q, I(0)), S.lt(q, m), S.eq(S.app('colKey', [q], 'Str'), S.app('colKey', [col], 'Str'))), S.eq(q, col)), [[S.app('colKey', [q], 'Str')]]));
            const sb = S.app('colSortBy', [col], 'Val');
            E.assume(S.or(S.is('undef', sb), S.is('vstr', sb)));
            const path = E.decide(S.is('undef', sb)) ? S.app('colKey', [col], 'Str') : S.sel('vs', sb);
            const val = (item) => S.app('rget', [lift(item), path], 'Val');
            E.assume(S.forall([q], S.implies(S.and(S.ge(q, I(0)), S.lt(q, n)), S.and(ofKind(kind, val(src.at(q))), S.is('vobj', lift(src.at(q))))), [[lift(src.at(q))]]));
            const times = E.choose('presses', 4);
            for (let k = 0; k < times; k++) E.call(E.getProp(api, 'updateSortType'), [S.app('colKey', [col], 'Str')]);
            const rows = E.seqOf(E.v(E.getProp(api, 'bodyCells')));
            E.ensure('every row is shown', S.eq(rows.len, n));
            const cell = (r, k) => E.getProp(E.seqOf(rows.at(r)).at(I(0)), k);
            const i = E.fresh('i', 'Int');
            const j = E.fresh('j', 'Int');
            if (!E.decide(S.and(S.ge(i, I(0)), S.lt(i, j), S.lt(j, n)))) return;
            const oi = cell(i, 'rowIdx');
            const oj = cell(j, 'rowIdx');
            E.ensure('rows come from the supplied rows', S.and(S.ge(oi, I(0)), S.lt(oi, n), S.not(S.eq(oi, oj))));
            E.ensure('each row carries its own item', E.same(cell(i, 'item'), src.at(oi)));
            const [vi, vj] = [val(cell(i, 'item')), val(cell(j, 'item'))];
            if (times % 3 === 0) E.ensure('no sort: supplied order', S.eq(oi, i));
            else {
                const asc = times === 1;
                E.ensure(asc ? 'ascending' : 'descending', S.not(asc ? before(E, kind, vj, vi) : before(E, kind, vi, vj)));
                E.ensure('equal values keep the supplied order', S.implies(S.not(S.or(before(E, kind, vi, vj), before(E, kind, vj, vi))), S.lt(oi, oj)));
            }
            E.ensure('the supplied rows are untouched', S.bool(E.seqOf(items) === src || E.seqOf(items).len === src.len));
        },
    })),
    {
        name: 'header cycle',
        run(E) {
            const m = E.nat('columns');
            const columns = columnsOf(E, m);
            const api = E.call(E.get(SORT, 'useTableSort'), [E.ref(columns)]);
            const v = (k) => E.v(E.getProp(api, k));
            E.ensure('starts unsorted', S.eq(v('sortType'), I(0)));
            const key = E.str('key');
            const t0 = E.int('sortType');
            E.assume(S.and(S.ge(t0, I(0)), S.le(t0, I(2))));
            E.setProp(E.getProp(api, 'sortType'), 'value', t0);
            const some = E.any(I(0), m, (i) => S.eq(S.app('colKey', [i], 'Str'), key));
            const press = () => E.call(E.getProp(api, 'updateSortType'), [key]);
            press();
            const t1 = v('sortType');
            if (!E.decide(some)) {
                E.ensure('an unknown header changes nothing', S.eq(t1, t0));
                return;
            }
            E.ensure('none, ascending, descending, none', S.eq(t1, S.ite(S.eq(t0, I(0)), I(1), S.ite(S.eq(t0, I(1)), I(2), I(0)))));
            E.ensure('the pressed column is the sort column', E.eq(E.getProp(v('sortColumn'), 'key'), key));
            press();
            press();
            E.ensure('three presses return to the start', S.eq(v('sortType'), t0));
        },
    },
    {
        name: 'row comparison',
        run(E) {
            // descending is the exact reverse comparison, for any values at all; unsorted compares nothing
            const columns = columnsOf(E, E.nat('columns'));
            const api = E.call(E.get(SORT, 'useTableSort'), [E.ref(columns)]);
            const cells = (x) => E.arr(litSeq([E.obj({ item: x })]));
            const [a, b] = [E.val('a'), E.val('b')];
            E.assume(S.and(S.is('vobj', a), S.is('vobj', b)));
            const kind = KINDS[E.choose('kind', 4)];
            const sc = E.obj({ key: E.str('key') });
            E.setProp(E.getProp(api, 'sortColumn'), 'value', sc);
            const val = (x) => S.app('rget', [x, E.str('key')], 'Val');
            E.assume(S.and(ofKind(kind, val(a)), ofKind(kind, val(b))));
            const cmp = (t) => {
                E.setProp(E.getProp(api, 'sortType'), 'value', I(t));
                return E.toNum(E.call(E.getProp(api, 'compareRows'), [cells(a), cells(b)]));
            };
            const [z, up, dn] = [cmp(0), cmp(1), cmp(2)];
            E.ensure('unsorted compares equal', S.eq(z, I(0)));
            E.ensure('descending reverses ascending', S.eq(dn, S.neg(up)));
        },
    },
];
