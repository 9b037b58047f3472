// Checkbox-style values: adding and removing one value of a group.
import { S, undef, nul, I, lift, seq, sameList, within } from './prelude.mjs';

const F = 'packages/vlossom/src/composables/value-matcher/value-matcher-composable.ts';

function matcher(E, multiple, value) {
    const own = E.val('own');
    const other = E.val('other');
    const input = E.ref(value);
    const api = E.call(E.get(F, 'useValueMatcher'), [E.ref(S.bool(multiple)), input, E.ref(own), E.ref(other)]);
    return { own, other, input, v: (f) => E.v(E.getProp(api, f)), call: (f, ...a) => E.call(E.getProp(api, f), a) };
}
function group(E) {
    const n = E.nat('entries');
    const arr = E.symArr('entry', n);
    const src = E.seqOf(arr);
    const t = matcher(E, true, arr);
    const is = (i) => E.deepEqual(src.at(i), t.own);
    return { n, arr, src, is, within: E.any(I(0), n, is), ...t };
}
const untouched = (E, t) => sameList(E, 'the bound group is left as it was', E.seqOf(t.arr), t.src);

export const contracts = [
    {
        name: 'checked state of a group',
        run(E) {
            const t = group(E);
            E.ensure('checked exactly when the value is in the group', S.eq(t.v('isMatched'), t.within));
            sameList(E, 'starts with the group', E.seqOf(t.call('getInitialValue')), t.src);
            E.ensure('clearing empties the group', S.eq(E.seqOf(t.call('getClearedValue')).len, I(0)));
            untouched(E, t);
        },
    },
    {
        name: 'checking adds',
        run(E) {
            const t = group(E);
            const had = E.decide(t.within);
            const r = E.seqOf(t.call('getUpdatedValue', S.TRUE));
            E.ensure('one entry more unless already in', S.eq(r.len, had ? t.n : S.add(t.n, I(1))));
            const k = E.fresh('k', 'Int');
            if (E.decide(within(k, t.n))) E.ensure('the others stay in order', E.same(r.at(k), t.src.at(k)));
            if (!had) E.ensure('the own value comes last', E.same(r.at(t.n), t.own));
            untouched(E, t);
            // now checked; unchecking gives back the group
            E.setProp(t.input, 'value', E.arr(r));
            E.ensure('reads as checked', t.v('isMatched'));
            if (had) return;
            const back = E.seqOf(t.call('getUpdatedValue', S.FALSE));
            E.prefixKept(back, t.n);
            sameList(E, 'checking and unchecking restores the group', back, t.src);
        },
    },
    {
        name: 'unchecking removes',
        run(E) {
            const t = group(E);
            const r = E.seqOf(t.call('getUpdatedValue', S.FALSE));
            sameList(E, 'exactly the equal entries leave', r, E.filterSeq(t.src, (i) => S.not(t.is(i))));
            untouched(E, t);
            E.setProp(t.input, 'value', E.arr(r));
            E.ensure('reads as unchecked', S.not(t.v('isMatched')));
        },
    },
    {
        name: 'starting checked',
        run(E) {
            const t = group(E);
            const had = E.decide(t.within);
            t.call('addTrueValue');
            const r = E.seqOf(E.getProp(t.input, 'value'));
            E.ensure('added once', S.eq(r.len, had ? t.n : S.add(t.n, I(1))));
            const k = E.fresh('k', 'Int');
            if (E.decide(within(k, t.n))) E.ensure('the others stay in order', E.same(r.at(k), t.src.at(k)));
            if (!had) E.ensure('the own value comes last', E.same(r.at(t.n), t.own));
        },
    },
    {
        name: 'no group bound',
        run(E) {
            const bound = E.choose('bound', 4);
            const value = [undef, nul, E.str('text'), S.TRUE][bound];
            const t = matcher(E, true, value);
            E.ensure('unchecked', S.not(t.v('isMatched')));
            E.ensure('starts as an empty group', S.eq(E.seqOf(t.call('getInitialValue')).len, I(0)));
            const on = E.seqOf(t.call('getUpdatedValue', S.TRUE));
            E.ensure('checking makes a group of the own value', S.and(S.eq(on.len, I(1)), E.same(on.at(I(0)), t.own)));
            E.ensure('unchecking makes an empty group', S.eq(E.seqOf(t.call('getUpdatedValue', S.FALSE)).len, I(0)));
            t.call('addTrueValue');
            E.ensure('nothing is added to something else', E.same(E.getProp(t.input, 'value'), value));
        },
    },
    {
        name: 'single value',
        run(E) {
            const x = E.val('bound');
            const t = matcher(E, false, x);
            const on = E.decide(E.deepEqual(x, t.own));
            E.ensure('checked exactly when the values are equal', S.eq(t.v('isMatched'), S.bool(on)));
            E.ensure('starts as its own or the other value', E.same(t.call('getInitialValue'), on ? t.own : t.other));
            E.ensure('checking gives the own value', E.same(t.call('getUpdatedValue', S.TRUE), t.own));
            E.ensure('unchecking gives the other value', E.same(t.call('getUpdatedValue', S.FALSE), t.other));
            E.ensure('clearing gives the other value', E.same(t.call('getClearedValue'), t.other));
            t.call('addTrueValue');
            E.ensure('a single value is not added to', E.same(E.getProp(t.input, 'value'), x));
            E.setProp(t.input, 'value', t.own);
            E.ensure('reads as checked', t.v('isMatched'));
        },
    },
];
void lift;
void seq;
