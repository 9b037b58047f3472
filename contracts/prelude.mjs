export * as S from '../engine/smt.mjs';
import * as S from '../engine/smt.mjs';
export { undef, nul, NAN, inf, rec, litSeq, seq, catSeq, lift, lower, merge, isTerm, union } from '../engine/values.mjs';
export { Unsupported } from '../engine/exec.mjs';
export const I = (n) => S.int(n);
export const within = (i, n) => S.and(S.ge(i, S.int(0)), S.lt(i, n));
/** two lists agree in length and entry by entry */
export function sameList(E, label, a, b, same = (x, y) => E.same(x, y)) {
    if (b.filter && a.len !== b.len) E.relateCounts(b);
    E.ensure(label + ': number', S.eq(a.len, b.len));
    const k = E.fresh('k', 'Int');
    if (E.decide(within(k, b.len))) E.ensure(label + ': each', same(a.at(k), b.at(k)));
}

/** the list without the one element (if any) that is meant: no two elements may be */
export function withoutOne(E, list, meant) {
    const rest = E.filterSeq(list, (i) => S.not(meant(i)));
    const p = E.fresh('where', 'Int');
    const none = S.eq(p, I(-1));
    E.assume(S.or(S.and(none, E.all(I(0), list.len, (i) => S.not(meant(i)))), S.and(within(p, list.len), meant(p))));
    // lemma: all up to that element are kept, then all but one
    E.induct('what stays without one element', list.len, (k) => S.eq(rest.filter.cnt(k), S.ite(S.and(S.not(none), S.gt(k, p)), S.sub(k, I(1)), k)));
    return rest;
}
