// Code is generated only for components that exist and are supported.
import { S, undef, I, seq, within, sameList } from './prelude.mjs';

const M = 'packages/vlossom-mcp/src/';
const SS = M + 'internal/scaffold/scaffold-service.ts';
const CU = M + 'internal/scaffold/component-usage-scaffolder.ts';
const ST = M + 'internal/scaffold/style-set-scaffolder.ts';
const VS = M + 'internal/version/version-service.ts';
const GR = M + 'services/github-registry-service.ts';
const get = (E, o, k) => E.force(E.getProp(o, k));
const there = (n) => S.app('registered', [n], 'Bool');
const named = (n) => S.app('named', [n], 'Str');
const since = (n) => S.app('since', [n], 'Str');
const unsupported = (v) => S.app('unsupported', [v], 'Bool');

/** any registry; whether a version is enough is any function of it (P30) */
function registry(E) {
    const empty = () => E.arr([]);
    E.stubs.set(`call:${GR}#getComponentMeta`, ([name]) => {
        const n = E.force(name);
        if (!E.decide(there(n))) return undef;
        const styleSet = E.obj({ variables: E.obj({}), component: S.TRUE, childRefs: empty(), raw: S.str('') });
        return E.obj({ name: named(n), kebabName: S.app('kebab', [n], 'Str'), description: S.str(''), availableVersion: since(n), props: empty(), events: empty(), slots: empty(), methods: empty(), styleSet });
    });
    E.stubs.set(`call:${VS}#getVersionSupport`, ([v]) => {
        const x = E.force(v);
        const other = S.ite(S.app('known', [x], 'Bool'), S.str('supported'), S.str('unknown'));
        return E.obj({ status: S.ite(unsupported(x), S.str('unsupported'), other), message: S.str('') });
    });
    E.stubs.set(`call:${VS}#resolveVersionContext`, () => E.obj({ source: S.str('input'), requestedVersion: E.choose('version asked for', 2) ? E.str('version') : undef, warnings: empty() }));
    E.stubs.set(`call:${GR}#resolveGitHubVersionContext`, (a) => (E.choose('reachable', 2) ? a[0] : E.rejected(E.construct(E.globals.get('Error'), [S.str('unreachable')]))));
    // the text of the code: any function of the components
    E.stubs.set(`call:${CU}#buildTemplate`, () => S.str('<template />'));
    E.stubs.set(`call:${CU}#buildScript`, () => S.str('<script />'));
}
const ask = (E, file, fn, args) => E.attempt(() => E.awaitValue(E.call(E.own(file, fn), args)));
const has = (E, o, k) => S.not(E.isUndef(get(E, o, k)));

export const contracts = [
    {
        name: 'usage of components',
        run(E) {
            registry(E);
            const n = E.nat('n');
            const name = (i) => S.app('name', [i], 'Str');
            const list = seq(n, name);
            const given = { description: E.str('description'), components: E.choose('components given', 2) ? E.arr(list) : undef };
            const r = ask(E, CU, 'scaffoldComponentUsage', [E.obj(given)]);
            if (r.thrown) return;
            const asked = given.components === undef ? I(0) : n;
            const missing = E.filterSeq(list, (i) => S.not(there(name(i))));
            const found = E.filterSeq(list, (i) => there(name(i)));
            const code = E.decide(has(E, r.v, 'code'));
            const ok = E.decide(S.eq(get(E, r.v, 'status'), S.str('ok')));
            E.ensure('code and a good status come together', S.bool(code === ok));
            E.ensure('without code there is a reason', S.or(S.bool(code), has(E, r.v, 'error')));
            const k = E.fresh('k', 'Int');
            E.assume(within(k, asked));
            if (code) {
                E.ensure('code only when asked for something', S.gt(asked, I(0)));
                E.ensure('code only for components there are', there(name(k)));
                E.ensure('code never for an unsupported component', S.not(unsupported(since(name(k)))));
            }
        },
    },
    {
        name: 'usage of components: who is named',
        run(E) {
            registry(E);
            const n = E.nat('n');
            E.assume(S.gt(n, I(0)));
            const name = (i) => S.app('name', [i], 'Str');
            const list = seq(n, name);
            const r = ask(E, CU, 'scaffoldComponentUsage', [E.obj({ description: E.str('description'), components: E.arr(list) })]);
            if (r.thrown) return;
            const missing = E.filterSeq(list, (i) => S.not(there(name(i))));
            if (E.decide(has(E, r.v, 'unknownComponents'))) {
                const u = E.seqOf(get(E, r.v, 'unknownComponents'));
                E.ensure('as many unknown as there are', S.eq(u.len, missing.len));
                const k = E.fresh('k', 'Int');
                if (E.decide(within(k, missing.len))) E.ensure('exactly the unknown names', E.same(u.at(k), missing.at(k)));
                E.ensure('no code', E.isUndef(get(E, r.v, 'code')));
                return;
            }
            const gone = E.filterSeq(list, (i) => unsupported(since(name(i))));
            if (E.decide(has(E, r.v, 'unsupportedComponents'))) {
                const u = E.seqOf(get(E, r.v, 'unsupportedComponents'));
                const k = E.fresh('k', 'Int');
                E.ensure('no code', E.isUndef(get(E, r.v, 'code')));
                if (E.decide(within(k, u.len))) E.ensure('only unsupported ones are named', E.any(I(0), n, (i) => S.and(unsupported(since(name(i))), E.same(get(E, u.at(k), 'name'), named(name(i))))));
                E.ensure('all unsupported ones are named', S.eq(u.len, gone.len));
                return;
            }
            E.ensure('otherwise there is code', has(E, r.v, 'code'));
        },
    },
    {
        name: 'a style set',
        run(E) {
            registry(E);
            const c = E.str('component');
            const given = E.choose('component given', 2) === 1;
            if (given) E.assume(S.not(S.eq(c, S.str(''))));
            const r = ask(E, SS, 'scaffoldVlossomCode', [E.obj({ kind: S.str('style-set'), description: E.str('description'), component: given ? c : undef, components: E.choose('a list as well', 2) ? E.arr(seq(E.nat('n'), (i) => S.app('name', [i], 'Str'))) : undef })]);
            E.ensure('answered', S.bool(!r.thrown));
            if (r.thrown) return;
            const code = E.decide(has(E, r.v, 'code'));
            E.ensure('code and a good status come together', S.bool(code === E.decide(S.eq(get(E, r.v, 'status'), S.str('ok')))));
            if (code) E.ensure('code only for a component there is', S.and(S.bool(given), there(c), S.not(unsupported(since(c)))));
            else E.ensure('without code there is a reason', has(E, r.v, 'error'));
            if (E.decide(has(E, r.v, 'unsupportedComponents'))) {
                const u = E.seqOf(get(E, r.v, 'unsupportedComponents'));
                E.ensure('the unsupported one is named', S.and(unsupported(since(given ? c : S.str(''))), S.eq(u.len, I(1)), E.same(get(E, u.at(I(0)), 'name'), named(given ? c : S.str('')))));
            }
        },
    },
    {
        name: 'what the service passes on',
        run(E) {
            registry(E);
            const status = E.str('status');
            const part = (k) => (E.choose(k, 2) ? E.val(k) : undef);
            const code = part('code');
            const unknown = part('unknownComponents');
            const gone = part('unsupportedComponents');
            E.stubs.set(`call:${CU}#scaffoldComponentUsage`, () => E.resolved(E.obj({ status, code, unknownComponents: unknown, unsupportedComponents: gone, error: E.val('error'), policy: undef, assumptions: E.arr([]), uncoveredRequirements: E.arr([]), versionContext: undef })));
            const r = ask(E, SS, 'scaffoldVlossomCode', [E.obj({ kind: S.str('component-usage'), description: E.str('description') })]);
            E.ensure('answered', S.bool(!r.thrown));
            if (r.thrown) return;
            if (E.decide(E.isUndef(get(E, r.v, 'scaffold')))) {
                E.ensure('nothing generated, no code', E.isUndef(get(E, r.v, 'code')));
                E.ensure('and a reason', has(E, r.v, 'error'));
                E.ensure('not a good status', S.not(S.eq(get(E, r.v, 'status'), S.str('ok'))));
                return;
            }
            E.ensure('code, status and names as generated', S.and(E.same(get(E, r.v, 'code'), code), E.same(get(E, r.v, 'status'), status), E.same(get(E, r.v, 'unknownComponents'), unknown), E.same(get(E, r.v, 'unsupportedComponents'), gone)));
        },
    },
    {
        name: 'unsupported entries',
        run(E) {
            registry(E);
            const n = E.nat('n');
            const name = (i) => S.app('name', [i], 'Str');
            const list = seq(n, (i) => E.obj({ name: named(name(i)), availableVersion: since(name(i)) }));
            const r = E.seqOf(E.call(E.get(VS, 'findUnsupportedEntries'), [E.arr(list), E.obj({})]));
            const gone = E.filterSeq(seq(n, name), (i) => unsupported(since(name(i))));
            E.ensure('as many as are unsupported', S.eq(r.len, gone.len));
            const k = E.fresh('k', 'Int');
            if (E.decide(within(k, gone.len))) E.ensure('exactly the unsupported ones', E.same(get(E, get(E, r.at(k), 'entry'), 'name'), named(gone.at(k))));
        },
    },
];
