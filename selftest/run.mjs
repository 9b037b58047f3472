// node selftest/run.mjs: the condition generator accepts correct bodies and refuses deliberately broken ones.
import path from 'node:path';
import { fileURLToPath } from 'node:url';
process.env.VERIF_REPO = path.dirname(fileURLToPath(import.meta.url));
const { verifyProperty } = await import('../engine/verify.mjs');
const { S, undef, I, seq, within } = await import('../contracts/prelude.mjs');

const F = 'src/cases.ts';
const x = (i) => S.app('x', [i], 'Int');
const same = (E, label, out, want) => {
    E.ensure(label + ': length', S.eq(out.len, want.len));
    const k = E.fresh('k', 'Int');
    if (E.decide(within(k, want.len))) E.ensure(label + ': each', E.same(out.at(k), want.at(k)));
};
const SPECS = {
    count: [3, 3, (E, f) => {
        const n = E.nat('n');
        const want = E.filterSeq(seq(n, x), (i) => S.gt(x(i), I(0)));
        const got = E.call(f, [E.arr(seq(n, x))]);
        E.relateCounts(want);
        E.ensure('the number', S.eq(got, want.len));
    }],
    drop: [3, 3, (E, f) => {
        const [n, at] = [E.nat('n'), E.int('at')];
        E.assume(within(at, n));
        const xs = E.arr(seq(n, x));
        const out = E.seqOf(E.call(f, [xs, at]));
        same(E, 'without it', out, seq(S.sub(n, I(1)), (i) => S.ite(S.lt(i, at), x(i), x(S.add(i, I(1))))));
        same(E, 'the given list', E.seqOf(xs), seq(n, x));
    }],
    first: [3, 3, (E, f) => {
        const [n, v] = [E.nat('n'), E.int('v')];
        const r = E.call(f, [E.arr(seq(n, x)), v]);
        const there = E.any(I(0), n, (i) => S.eq(x(i), v));
        E.ensure('found when there', S.eq(S.ge(r, I(0)), there));
        if (!E.decide(S.ge(r, I(0)))) return E.ensure('else -1', S.eq(r, I(-1)));
        E.ensure('it is there', S.and(within(r, n), S.eq(x(r), v)));
        E.ensure('none before', S.not(E.any(I(0), r, (i) => S.eq(x(i), v))));
    }],
    clamp: [2, 2, (E, f) => {
        const [n, lo, hi] = [E.int('n'), E.int('lo'), E.int('hi')];
        E.assume(S.le(lo, hi));
        const r = E.call(f, [n, lo, hi]);
        E.ensure('between', S.and(S.le(lo, r), S.le(r, hi)));
        E.ensure('kept when between', S.implies(S.and(S.le(lo, n), S.le(n, hi)), S.eq(r, n)));
        E.ensure('the nearest', S.and(S.implies(S.lt(n, lo), S.eq(r, lo)), S.implies(S.gt(n, hi), S.eq(r, hi))));
    }],
    set: [2, 2, (E, f) => {
        const o = E.obj({ a: E.int('a'), b: E.int('b') });
        const [key, v] = [['a', 'b', 'c'][E.choose('key', 3)], E.int('v')];
        const r = E.call(f, [o, S.str(key), v]);
        for (const k of ['a', 'b', 'c']) E.ensure('the settings', E.same(E.getProp(r, k), k === key ? v : k === 'c' ? undef : E.int(k)));
        for (const k of ['a', 'b']) E.ensure('the given object', E.same(E.getProp(o, k), E.int(k)));
    }],
    latest: [1, 1, (E, f) => {
        const [a, b] = [E.int('first'), E.int('second')];
        const api = E.call(f, [E.native('fetch', ([n]) => n)]);
        // the second request is made, and answered while the first one waits
        let waiting = 0;
        E.awaitHook = (v) => {
            if (!waiting++) E.call(E.getProp(api, 'ask'), [b]);
            return v;
        };
        E.call(E.getProp(api, 'ask'), [a]);
        E.ensure('of the latest', E.same(E.call(E.getProp(api, 'shown'), []), b));
    }],
    name: [2, 2, (E, f) => {
        const how = E.choose('given', 4);
        const name = E.str('name');
        const n = [undef, E.obj({}), E.obj({ child: E.obj({}) }), E.obj({ child: E.obj({ name }) })][how];
        E.ensure('the name', E.same(E.call(f, [n]), how === 3 ? name : S.str('none')));
    }],
};
let wrong = 0;
for (const [spec, [good, bad, run]] of Object.entries(SPECS))
    for (const [kind, n] of [['Good', good], ['Bad', bad]])
        for (let i = 1; i <= n; i++) {
            const name = spec + kind + i;
            const r = await verifyProperty({ contracts: [{ name, run: (E) => run(E, E.get(F, name)) }] });
            const ok = r.failed.length === 0;
            const why = ok ? '' : ` - ${r.failed[0].label} (${r.failed[0].reason ?? r.failed[0].verdict})`;
            const expected = kind === 'Good' ? ok : r.failed.some((f) => f.verdict === 'sat' && !f.unsupported);
            if (!expected) wrong++;
            console.log(`${expected ? 'ok' : 'WRONG'} ${name}: ${r.discharged}/${r.obligations}${why}`);
        }
console.log(wrong ? `${wrong} wrong` : 'all as expected');
process.exit(wrong ? 1 : 0);
