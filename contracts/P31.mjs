// Searching the catalogues.
import { S, undef, I, NAN, inf, seq, within } from './prelude.mjs';

const M = 'packages/vlossom-mcp/src/';
const CS = M + 'internal/search/component-search-service.ts';
const CR = M + 'internal/search/coverage-resolver.ts';
const SE = M + 'internal/utils/synonym-expander.ts';
const RD = M + 'internal/reference/reference-data.ts';
const RR = M + 'internal/validation/rule-registry.ts';
const GR = M + 'services/github-registry-service.ts';
const GF = M + 'services/github-reference-service.ts';

/** entry i of the catalogue of a kind: arbitrary texts */
const FIELDS = {
    component: ['name', 'kebabName'],
    directive: ['name', 'kebabName', 'description', 'availableVersion'],
    composable: ['name', 'dirName', 'description', 'availableVersion'],
    token: ['name', 'category', 'defaultValue'],
    option: ['name', 'description'],
    rule: ['id', 'category', 'rule'],
    changelog: ['version', 'date', 'notes'],
};
const KINDS = Object.keys(FIELDS);
const ID = { rule: 'id', changelog: 'version' };
const text = (kind, f, i) => S.app(`${kind}.${f}`, [i], 'Str');
const idOf = (kind, i) => text(kind, ID[kind] ?? 'name', i);
const entry = (E, kind, i) =>
    E.obj({
        ...Object.fromEntries(FIELDS[kind].map((f) => [f, text(kind, f, i)])),
        ...(kind === 'changelog' ? { prerelease: S.app('changelog.pre', [i], 'Bool'), breaking: E.arr([]), features: E.arr([]), fixes: E.arr([]) } : {}),
    });
/** catalogues of the given sizes (or the single entry given) */
function catalogue(E, lists, { score = true, options = null } = {}) {
    const empty = seq(I(0), () => undef);
    const of = (kind) => E.arr(lists[kind] ?? empty);
    E.stubs.set(`call:${GR}#getComponentIndex`, () => of('component'));
    for (const [k, n] of [['directive', 'Directives'], ['composable', 'Composables'], ['token', 'CssTokens']]) E.stubs.set(`call:${GR}#load${n}`, () => of(k));
    // a constant of its module: the same list object throughout
    if (options) E.write(options, '#seq', lists.option ?? empty);
    else options = of('option');
    E.stubs.set(`${RD}#VLOSSOM_OPTIONS`, options);
    E.stubs.set(`call:${RR}#getRuleRegistry`, () => of('rule'));
    E.stubs.set(`call:${GF}#fetchChangelog`, () => E.obj({ entries: of('changelog') }));
    E.stubs.set(`call:${GR}#resolveGitHubVersionContext`, (a) => a[0]);
    E.stubs.set(`call:${CR}#resolveCoverage`, () => E.arr([]));
    // the words searched for are any list
    E.stubs.set(`call:${SE}#expandQuery`, () => E.symArr('term', E.nat('terms'), 'Str'));
    E.stubs.set(`call:${SE}#extractKeywords`, () => E.arr([]));
    // how well a text fits the words is any natural number
    if (score)
        E.stubs.set(`call:${CS}#scoreText`, (a) => {
            const s = S.app('fit', [a[0]], 'Int');
            E.assume(S.ge(s, I(0)));
            return s;
        });
    return options;
}
const whole = (E, kind, n) => seq(n, (i) => entry(E, kind, i));
function search(E, given) {
    const r = E.awaitValue(E.call(E.get(CS, 'searchVlossom'), [E.obj(given)]));
    return { r, list: E.seqOf(E.getProp(r, 'results')), get: (k) => E.force(E.getProp(r, k)) };
}
const prop = (E, o, k) => E.force(E.getProp(o, k));
const score = (E, o) => prop(E, o, 'score');

/** a limit of any kind and the number of results it allows */
function anyLimit(E) {
    switch (E.choose('limit kind', 4)) {
        case 0:
            return { value: undef, most: I(10) };
        case 1: {
            const n = E.int('limit');
            return { value: n, most: S.ite(S.eq(n, I(0)), I(10), S.min(S.max(n, I(1)), I(50))) };
        }
        case 2:
            return E.choose('odd', 2) ? { value: NAN, most: I(10) } : { value: inf(true), most: I(50) };
        default: {
            const x = E.input('limit', 'Real');
            return { value: x, most: S.ite(S.eq(x, S.real(0)), I(10), S.ite(S.lt(x, S.real(1)), I(1), S.ite(S.gt(x, S.real(50)), I(50), S.floor(x)))) };
        }
    }
}

export const contracts = [
    ...KINDS.map((kind) => ({
        name: `a search among ${kind}s`,
        run(E) {
            const n = E.nat('n');
            const limit = anyLimit(E);
            const query = E.str('query');
            const options = catalogue(E, { [kind]: whole(E, kind, n) });
            const s = search(E, { target: S.str(kind), query, limit: limit.value });
            const out = s.list;
            E.ensure('at most the requested number', S.le(out.len, limit.most));
            E.ensure('the total is the number of results', S.eq(s.get('total'), out.len));
            E.ensure('found or empty', E.same(s.get('status'), S.ite(S.gt(out.len, I(0)), S.str('ok'), S.str('empty'))));
            const k = E.fresh('k', 'Int');
            if (E.decide(within(k, out.len))) {
                const e = out.at(k);
                E.ensure('every result has a positive score', S.gt(score(E, e), I(0)));
                E.ensure('every result is of the kind searched', E.same(prop(E, e, 'type'), S.str(kind)));
                if (kind !== 'changelog' && E.decide(within(S.add(k, I(1)), out.len)))
                    E.ensure('best first', S.ge(score(E, e), score(E, out.at(S.add(k, I(1))))));
            }
            // an arbitrary entry, searched for on its own
            const i = E.fresh('i', 'Int');
            if (!E.decide(within(i, n))) return;
            catalogue(E, { [kind]: seq(I(1), () => entry(E, kind, i)) }, { options });
            const one = search(E, { target: S.str(kind), query, limit: I(1) }).list;
            if (!E.decide(S.gt(one.len, I(0)))) return;
            const own = score(E, one.at(I(0)));
            const there = E.any(I(0), out.len, (k) => S.and(S.eq(prop(E, out.at(k), 'id'), idOf(kind, i)), S.eq(score(E, out.at(k)), own)));
            const full = S.eq(out.len, limit.most);
            if (kind === 'changelog') E.ensure('left out only when the list is full', S.or(full, there));
            else E.ensure('left out only for results at least as good', S.or(there, S.and(full, S.ge(score(E, out.at(S.sub(out.len, I(1)))), own))));
        },
    })),
    ...KINDS.map((kind) => ({
        name: `scores of ${kind}s found by their texts`,
        run(E) {
            const n = E.nat('n');
            catalogue(E, { [kind]: whole(E, kind, n) }, { score: false });
            const out = search(E, { target: S.str(kind), query: E.str('query'), limit: I(5) }).list;
            E.ensure('at most the requested number', S.le(out.len, I(5)));
            const k = E.fresh('k', 'Int');
            if (E.decide(within(k, out.len))) E.ensure('every result has a positive score', S.gt(score(E, out.at(k)), I(0)));
        },
    })),
    {
        name: 'a search everywhere',
        run(E) {
            const kinds = ['component', 'directive', 'composable', 'token', 'option', 'rule'];
            const limit = E.int('limit');
            E.assume(S.and(S.ge(limit, I(1)), S.le(limit, I(50))));
            const asked = E.choose('query', 2) === 1;
            const query = asked ? S.str('word') : S.str('');
            catalogue(E, Object.fromEntries(kinds.map((k) => [k, whole(E, k, E.nat(`n.${k}`))])));
            const s = search(E, { target: S.str('all'), query, limit });
            const out = s.list;
            E.ensure('at most the requested number', S.le(out.len, limit));
            const k = E.fresh('k', 'Int');
            if (E.decide(within(k, out.len))) {
                E.ensure('every result has a positive score', S.gt(score(E, out.at(k)), I(0)));
                if (E.decide(within(S.add(k, I(1)), out.len))) E.ensure('best first', S.ge(score(E, out.at(k)), score(E, out.at(S.add(k, I(1))))));
            }
            if (!asked) E.ensure('no choice to make without a query', S.not(E.same(s.get('status'), S.str('ambiguous'))));
        },
    },
    {
        name: 'data that cannot be loaded',
        run(E) {
            catalogue(E, {});
            const fail = () => E.throwType('offline');
            const kind = KINDS[E.choose('kind', KINDS.length)];
            const where = { component: `${GR}#getComponentIndex`, directive: `${GR}#loadDirectives`, composable: `${GR}#loadComposables`, token: `${GR}#loadCssTokens`, changelog: `${GF}#fetchChangelog` }[kind] ?? `${GR}#resolveGitHubVersionContext`;
            E.stubs.set('call:' + where, fail);
            const s = search(E, { target: S.str(kind), query: E.str('query') });
            E.ensure('said to be an error', E.same(s.get('status'), S.str('error')));
            E.ensure('no results', S.eq(s.list.len, I(0)));
        },
    },
];
