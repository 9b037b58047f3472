// Selection in a select: toggling, select-all, conversion of bound values.
import { S, undef, nul, I, lift, seq, rec, sameList, within, withoutOne } from './prelude.mjs';

const F = 'packages/vlossom/src/components/vs-select/composables/select-value-composable.ts';
const id = (i) => S.app('optId', [i], 'Str');
const off = (i) => S.app('optDisabled', [i], 'Bool');
const val = (i) => S.app('optValue', [i], 'Val');

/** any options with distinct ids, any search result among them, any duplicate-free selection */
function select(E, { multiple } = {}) {
    const n = E.nat('options');
    const [a, b] = [E.bvar('Int', 'a'), E.bvar('Int', 'b')];
    E.assume(S.forall([a, b], S.implies(S.and(within(a, n), within(b, n), S.eq(id(a), id(b))), S.eq(a, b)), [[id(a), id(b)]]));
    const all = seq(n, (i) => rec(new Map([['id', id(i)], ['value', val(i)], ['disabled', off(i)], ['label', S.app('optLabel', [i], 'Str')], ['index', i]])));
    const shown = E.filterSeq(all, (i) => S.app('shown', [i], 'Bool'));
    const k = E.nat('selected');
    const sel = (i) => S.app('sel', [i], 'Str');
    const m = multiple ?? E.bool('multiple');
    E.assume(S.forall([a, b], S.implies(S.and(within(a, k), within(b, k), S.eq(sel(a), sel(b))), S.eq(a, b)), [[sel(a), sel(b)]]));
    E.assume(S.implies(S.not(m), S.le(k, I(1))));
    const unavailable = E.bool('unavailable');
    const api = E.call(E.get(F, 'useSelectValue'), [E.obj({ isSelectUnavailable: E.ref(unavailable), computedOptions: E.ref(E.arr(all)), filteredOptions: E.ref(E.arr(shown)), multiple: E.ref(m) })]);
    const ids = E.getProp(api, 'selectedOptionIds');
    E.setProp(ids, 'value', E.arr(seq(k, sel)));
    const old = seq(k, sel);
    const avail = E.filterSeq(shown, (i) => S.not(E.getProp(shown.at(i), 'disabled')));
    const has = (s, x) => E.any(I(0), s.len, (i) => S.eq(s.at(i), x));
    const offered = (x) => E.any(I(0), n, (i) => S.and(S.eq(id(i), x), S.app('shown', [i], 'Bool'), S.not(off(i))));
    return { n, all, shown, k, sel, m, unavailable, api, old, avail, has, offered, now: () => E.seqOf(E.v(ids)), call: (f, ...x) => E.call(E.getProp(api, f), x), v: (f) => E.v(E.getProp(api, f)) };
}
const distinct = (E, s) => {
    const [a, b] = [E.fresh('a', 'Int'), E.fresh('b', 'Int')];
    if (E.decide(S.and(within(a, s.len), within(b, s.len), S.not(S.eq(a, b))))) E.ensure('never selected twice', S.not(S.eq(s.at(a), s.at(b))));
};

export const contracts = [
    ...[true, false].map((multiple) => ({
        name: `toggle (${multiple ? 'multiple' : 'single'})`,
        run(E) {
            const t = select(E, { multiple: S.bool(multiple) });
            const x = E.str('x');
            const was = E.decide(t.has(t.old, x));
            E.ensure('shown as selected exactly when selected', S.eq(t.call('isSelected', x), S.bool(was)));
            const can = E.decide(t.offered(x));
            t.call('toggleSelect', x);
            const now = t.now();
            if (E.decide(t.unavailable)) sameList(E, 'an unavailable select keeps its selection', now, t.old);
            else if (!multiple) {
                if (can) {
                    E.ensure('one option', S.eq(now.len, I(1)));
                    E.ensure('the chosen one', S.eq(now.at(I(0)), x));
                } else sameList(E, 'an option not on offer changes nothing', now, t.old);
            } else if (was) {
                sameList(E, 'exactly that option leaves', now, withoutOne(E, t.old, (i) => S.eq(t.sel(i), x)));
            } else if (can) {
                E.ensure('one more', S.eq(now.len, S.add(t.k, I(1))));
                const j = E.fresh('j', 'Int');
                if (E.decide(within(j, t.k))) E.ensure('the others stay in order', S.eq(now.at(j), t.sel(j)));
                E.ensure('the new one comes last', S.eq(now.at(t.k), x));
            } else sameList(E, 'an option not on offer changes nothing', now, t.old);
            distinct(E, now);
        },
    })),
    {
        name: 'select all',
        run(E) {
            const t = select(E);
            t.call('selectAll');
            const now = t.now();
            if (E.decide(t.unavailable)) {
                sameList(E, 'an unavailable select keeps its selection', now, t.old);
                return;
            }
            const j = E.fresh('j', 'Int');
            if (E.decide(within(j, t.k))) E.ensure('the selection so far stays in order', S.eq(now.at(j), t.sel(j)));
            const ids = seq(t.avail.len, (q) => E.getProp(t.avail.at(q), 'id'));
            const added = E.filterSeq(ids, (q) => S.not(t.has(t.old, ids.at(q))));
            sameList(E, 'followed by the options on offer not selected yet', seq(S.sub(now.len, t.k), (q) => now.at(S.add(t.k, q))), added);
            distinct(E, now);
            // an option on offer is among them: at the position counted for it
            const x = E.fresh('x', 'Int');
            if (!E.decide(S.and(within(x, t.n), S.app('shown', [x], 'Bool'), S.not(off(x))))) return;
            const p = t.avail.filter.cnt(t.shown.filter.cnt(x));
            E.ensure('every option on offer is available', S.and(within(p, t.avail.len), S.eq(ids.at(p), id(x))));
            if (E.decide(t.has(t.old, id(x)))) return;
            const q = added.filter.cnt(p);
            E.ensure('every option on offer is added', S.and(within(S.add(t.k, q), now.len), S.eq(now.at(S.add(t.k, q)), id(x))));
            const y = E.fresh('y', 'Int');
            if (E.decide(within(y, added.len))) E.ensure('nothing else is added', t.offered(added.at(y)));
        },
    },
    {
        name: 'deselect all and clear',
        run(E) {
            const t = select(E);
            const how = E.choose('how', 2);
            t.call(how ? 'clearSelected' : 'deselectAll');
            const now = t.now();
            if (how) E.ensure('nothing selected', S.eq(now.len, I(0)));
            else {
                const x = E.str('x');
                E.ensure('removes exactly the options on offer', S.eq(t.has(now, x), S.and(t.has(t.old, x), S.not(t.offered(x)))));
                sameList(E, 'the others stay in order', now, E.filterSeq(t.old, (i) => S.not(t.has(t.avail.k ? { len: t.avail.len, at: (q) => E.getProp(t.avail.at(q), 'id') } : t.avail, t.sel(i)))));
                distinct(E, now);
            }
        },
    },
    {
        name: 'select-all toggle and states',
        run(E) {
            const t = select(E);
            const x = E.fresh('x', 'Int');
            const full = E.decide(t.v('isSelectedAll'));
            const multiple = E.decide(t.m);
            E.ensure('only a multiple select is ever fully selected', S.implies(S.bool(full), S.bool(multiple)));
            E.ensure('anything less is not full', S.implies(S.bool(multiple && !full), S.or(S.not(E.any(I(0), t.n, (i) => S.and(S.app('shown', [i], 'Bool'), S.not(off(i))))), E.any(I(0), t.n, (i) => S.and(S.app('shown', [i], 'Bool'), S.not(off(i)), S.not(t.has(t.old, id(i))))))));
            E.assume(S.and(within(x, t.n), S.app('shown', [x], 'Bool'), S.not(off(x))));
            E.ensure('full means every option on offer', S.implies(S.bool(full), t.has(t.old, id(x))));
            E.ensure('empty means nothing selected', S.eq(t.v('isEmpty'), S.eq(t.k, I(0))));
            if (!multiple || E.decide(t.unavailable)) return;
            t.call('toggleSelectAll');
            E.ensure('full selection is emptied, any other completed', S.eq(t.has(t.now(), id(x)), S.bool(!full)));
            const d = E.fresh('d', 'Int');
            E.assume(S.and(within(d, t.n), off(d)));
            E.ensure('a disabled option keeps its state', S.eq(t.has(t.now(), id(d)), t.has(t.old, id(d))));
        },
    },
    {
        name: 'deselect one',
        run(E) {
            const t = select(E);
            const x = E.str('x');
            t.call('deselectOption', x);
            sameList(E, 'exactly that option leaves', t.now(), withoutOne(E, t.old, (i) => S.eq(t.sel(i), x)));
        },
    },
    {
        name: 'bound values',
        run(E) {
            const t = select(E);
            const known = (v) => E.any(I(0), t.n, (i) => E.deepEqual(val(i), v));
            if (E.decide(t.m)) {
                const how = E.choose('how', 3);
                if (how === 0) {
                    const bound = E.symArr('bound', E.nat('boundLen'));
                    const src = E.seqOf(bound);
                    sameList(E, 'exactly the offered values, in order', E.seqOf(t.call('convertValue', bound)), E.filterSeq(src, (i) => known(src.at(i))));
                } else if (how === 1) {
                    E.ensure('nothing bound selects nothing', S.eq(E.seqOf(t.call('convertValue', E.choose('nil', 2) ? nul : undef)).len, I(0)));
                } else {
                    const x = E.str('x');
                    const r = E.seqOf(t.call('convertValue', x));
                    const ok = E.decide(known(x));
                    E.ensure('a lone value becomes a list', S.eq(r.len, I(ok ? 1 : 0)));
                    if (ok) E.ensure('of that value', E.same(r.at(I(0)), x));
                }
            } else {
                const x = E.val('x');
                const r = t.call('convertValue', x);
                const nil = S.or(S.is('undef', x), S.is('nul', x));
                E.ensure('an offered value is kept, any other cleared', E.same(r, S.ite(S.and(S.not(nil), known(x)), lift(x), S.NUL)));
            }
        },
    },
    {
        name: 'selected options',
        run(E) {
            const t = select(E);
            // every selected id names an option
            const at = (j) => S.app('selAt', [j], 'Int');
            const q = E.bvar('Int', 'q');
            E.assume(S.forall([q], S.implies(within(q, t.k), S.and(within(at(q), t.n), S.eq(id(at(q)), t.sel(q)))), [[t.sel(q)]]));
            const r = E.seqOf(t.v('selectedOptions'));
            E.ensure('one option per selected id', S.eq(r.len, t.k));
            const j = E.fresh('j', 'Int');
            if (E.decide(within(j, t.k))) E.ensure('in selection order', S.and(S.eq(E.getProp(r.at(j), 'id'), t.sel(j)), E.same(E.getProp(r.at(j), 'value'), val(at(j)))));
        },
    },
];
