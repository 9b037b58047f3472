// Table selection: select-all, header state, bound selection.
import { S, undef, I, lift, seq, rec } from './prelude.mjs';

const D = 'packages/vlossom/src/components/vs-table/composables/';

/** the whole table with any rows and any selectable rule (function or flag) */
function table(E, { rule = 'fn', selected } = {}) {
    const n = E.nat('rows');
    const items = E.symArr('item', n);
    const src = E.seqOf(items);
    const b = E.bool('selectable');
    const can = rule === 'fn' ? (x, i) => S.app('selectable', [lift(x), i], 'Bool') : () => (rule === 'none' ? S.FALSE : b);
    const given = rule === 'fn' ? E.native('selectable', (a) => can(a[0], a[1])) : rule === 'none' ? undef : b;
    const k = E.nat('selected');
    const sel = selected ?? E.symArr('sel', k);
    const log = [];
    const say = (nm) => E.native(nm, (a) => (log.push([nm, a[0]]), undef));
    const cb = E.obj(Object.fromEntries(['updateSelectedItems', 'updatePage', 'updatePageSize', 'updatePagedItems', 'updateTotalItems'].map((x) => [x, say(x)])));
    const m = E.int('columns');
    E.assume(S.ge(m, I(1)));
    const columns = E.arr(seq(m, (i) => rec(new Map([['key', S.app('colKey', [i], 'Str')], ['label', S.app('colLabel', [i], 'Str')]]))));
    const props = E.obj({ items, columns, selectable: given, selectedItems: sel });
    const api = E.call(E.get(D + 'table-composable.ts', 'useTable'), [props, E.obj({ searchInputRef: E.ref(undef) }), cb]);
    const v = (x) => E.v(E.getProp(api, x));
    const could = E.filterSeq(src, (i) => can(src.at(i), i));
    return { n, src, sel, can, props, api, v, log, could, toggle: () => E.call(E.getProp(api, 'toggleSelectAll'), []) };
}
const sameList = (E, label, a, b) => {
    E.ensure(label + ': number', S.eq(a.len, b.len));
    const k = E.fresh('k', 'Int');
    if (E.decide(S.and(S.ge(k, I(0)), S.lt(k, b.len)))) E.ensure(label + ': each', E.same(a.at(k), b.at(k)));
};

export const contracts = [
    ...['fn', 'flag', 'none'].map((rule) => ({
        name: `select all (${rule === 'fn' ? 'rule per row' : rule === 'flag' ? 'flag' : 'no rule'})`,
        run(E) {
            const t = table(E, { rule });
            const before = E.seqOf(t.v('selectedItems'));
            sameList(E, 'starts with the bound selection', before, E.seqOf(t.sel));
            const all = E.decide(t.v('selectedAll'));
            E.ensure('the header says all only with as many as can be selected', S.implies(S.bool(all), S.and(S.eq(before.len, t.could.len), S.gt(t.could.len, I(0)))));
            t.toggle();
            const now = E.seqOf(t.v('selectedItems'));
            if (all) E.ensure('pressing it on a full selection empties it', S.eq(now.len, I(0)));
            else sameList(E, 'exactly the selectable rows', now, t.could);
            E.ensure('shown as all afterwards', S.implies(S.and(S.bool(!all), S.gt(t.could.len, I(0))), t.v('selectedAll')));
            E.ensure('never both all and some', S.not(S.and(t.v('selectedAll'), t.v('selectedPartial'))));
            E.ensure('some rows can be selected', S.eq(t.v('anySelectable'), S.gt(t.could.len, I(0))));
            if (!all && E.decide(S.gt(t.could.len, I(0)))) {
                t.toggle();
                E.ensure('pressing it again empties the selection', S.eq(E.seqOf(t.v('selectedItems')).len, I(0)));
                E.ensure('not shown as all', S.not(t.v('selectedAll')));
                E.ensure('not shown as some', S.not(t.v('selectedPartial')));
            }
        },
    })),
    {
        name: 'header state',
        run(E) {
            const t = table(E);
            // a selection of distinct selectable rows has `count` entries; the header compares it with all of them
            const count = E.nat('count');
            E.assume(S.le(count, t.could.len));
            E.setProp(E.getProp(t.api, 'selectedItems'), 'value', E.symArr('chosen', count));
            E.ensure('all', S.eq(t.v('selectedAll'), S.and(S.eq(count, t.could.len), S.gt(count, I(0)))));
            E.ensure('some', S.eq(t.v('selectedPartial'), S.and(S.gt(count, I(0)), S.lt(count, t.could.len))));
        },
    },
    {
        name: 'announced once',
        run(E) {
            const t = table(E);
            E.call(E.getProp(t.api, 'initialize'), []);
            E.settle();
            t.log.length = 0;
            t.toggle();
            E.flush();
            const ups = t.log.filter((l) => l[0] === 'updateSelectedItems');
            E.ensure('one announcement per change', S.bool(ups.length === 1));
            for (const u of ups) sameList(E, 'the announced selection is the selection', E.seqOf(u[1]), E.seqOf(t.v('selectedItems')));
        },
    },
    {
        name: 'bound selection is taken over',
        run(E) {
            const t = table(E);
            const k2 = E.nat('newCount');
            const next = E.symArr('next', k2);
            E.settle();
            E.setProp(t.props, 'selectedItems', next);
            E.flush();
            const now = E.seqOf(t.v('selectedItems'));
            // entries equal in content count as the same
            E.ensure('number', S.eq(now.len, k2));
            const k = E.fresh('k', 'Int');
            if (E.decide(S.and(S.ge(k, I(0)), S.lt(k, k2)))) E.ensure('each', E.deepEqual(now.at(k), E.seqOf(next).at(k)));
        },
    },
];
