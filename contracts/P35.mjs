// The verdict of a validation agrees with its issues; the library-first findings follow their mode.
import { S, undef, I, rec, seq, within } from './prelude.mjs';

const M = 'packages/vlossom-mcp/src/';
const V = M + 'internal/validation/';
const USE = V + 'validate-vlossom-usage.ts';
const SUM = V + 'validation-summary.ts';
const FIRST = V + 'vlossom-first-validator.ts';
const SFC = V + 'sfc-validator.ts';
const STY = V + 'style-set-validator.ts';
const SET = V + 'project-setup-validator.ts';
const VS = M + 'internal/version/version-service.ts';
const GR = M + 'services/github-registry-service.ts';
const COV = M + 'internal/search/coverage-resolver.ts';

export const assumptions = [
    'the matches of a pattern in an unknown text are any list of matches with any groups, a function of the text and the pattern',
    'whether the library covers a piece of native or third-party markup, and by which components, is any function of the markup',
];

const issue = (f) => rec(new Map(Object.entries(f)));
const get = (E, o, k) => E.force(E.getProp(o, k));
const isError = (E, x) => E.same(get(E, x, 'severity'), S.str('error'));
const MODES = ['strict', 'prefer', 'off'];
/** any list of issues: any number, each an error or a warning, of any rule, on any line; or all of one rule that is no library-first one */
function anyIssues(E, name, oneRule = false) {
    const n = E.nat(name);
    const at = (i) => issue({ ruleId: oneRule ? S.str('RULE_' + name) : S.app(name + '_rule', [i], 'Str'), severity: S.ite(S.app(name + '_error', [i], 'Bool'), S.str('error'), S.str('warning')), message: S.app(name + '_message', [i], 'Str'), suggestion: S.app(name + '_suggestion', [i], 'Str'), line: S.app(name + '_line', [i], 'Int') });
    return { n, list: seq(n, at) };
}
const advice = (E, x) => S.or(E.same(get(E, x, 'ruleId'), S.str('PREFER_VLOSSOM_COMPONENT')), E.same(get(E, x, 'ruleId'), S.str('PREFER_STYLE_SET')));
function versions(E, reachable = true) {
    const context = E.obj({ source: S.str('input'), detectedVersion: E.choose('version known', 2) ? E.str('version') : undef, warnings: E.arr([]) });
    E.stubs.set(`call:${VS}#resolveVersionContext`, () => context);
    E.stubs.set(`call:${GR}#resolveGitHubVersionContext`, (a) => (reachable ? a[0] : E.rejected(E.construct(E.globals.get('Error'), [S.str('unreachable')]))));
    return context;
}
const ask = (E, file, fn, args) => E.attempt(() => E.awaitValue(E.call(E.own(file, fn), args)));

export const contracts = [
    {
        name: 'the summary of any list of issues',
        run(E) {
            const { n, list } = anyIssues(E, 'issues');
            const r = E.call(E.get(SUM, 'buildSummary'), [E.arr(list)]);
            const bad = (i) => S.app('issues_error', [i], 'Bool');
            const errors = E.filterSeq(list, bad);
            const warnings = E.filterSeq(list, (i) => S.not(bad(i)));
            const [e, w] = [errors.len, warnings.len];
            const parts = [];
            if (E.decide(S.gt(e, I(0)))) parts.push(S.strCat(E.toStr(e), S.str(E.decide(S.gt(e, I(1))) ? ' errors' : ' error')));
            if (E.decide(S.gt(w, I(0)))) parts.push(S.strCat(E.toStr(w), S.str(E.decide(S.gt(w, I(1))) ? ' warnings' : ' warning')));
            const expected = parts.length ? parts.reduce((a, b) => S.strCat(S.strCat(a, S.str(', ')), b)) : S.str('No Vlossom metadata issues found.');
            E.ensure('the numbers of errors and of warnings', S.eq(r, expected));
        },
    },
    {
        name: 'the verdict',
        run(E) {
            versions(E, E.choose('reachable', 2) === 1);
            const kind = ['sfc', 'snippet', 'style-set', 'project-setup'][E.choose('kind', 4)];
            const { list } = anyIssues(E, 'issues');
            const fails = E.choose('validator fails', 2) === 1;
            const failing = () => E.rejected(E.construct(E.globals.get('Error'), [S.str('unreachable')]));
            const skipped = E.choose('nothing to validate', 2) === 1;
            for (const f of [`${SFC}#validateSfc`, `${STY}#validateStyleSet`]) E.stubs.set('call:' + f, () => (fails ? failing() : E.resolved(E.arr(list))));
            E.stubs.set(`call:${SET}#validateProjectSetup`, () => (fails ? failing() : E.resolved(E.obj({ status: S.str(skipped ? 'skipped' : 'ok'), issues: skipped ? E.arr([]) : E.arr(list), recommendations: E.arr([]), versionContext: E.obj({ warnings: E.arr([]) }) }))));
            const summaries = [];
            E.stubs.set(`call:${SUM}#buildSummary`, ([list]) => {
                const text = E.str('summary' + summaries.length);
                summaries.push({ text, list: E.seqOf(E.force(list)) });
                return text;
            });
            const code = [undef, S.str(''), S.str('  \n'), S.str('<vs-button />')][E.choose('code', 4)];
            const r = ask(E, USE, 'validateVlossomUsage', [E.obj({ kind: S.str(kind), code })]);
            E.ensure('answered', S.bool(!r.thrown));
            if (r.thrown) return;
            const issues = get(E, r.v, 'issues');
            const s = E.seqOf(issues);
            const valid = E.decide(E.truthy(get(E, r.v, 'valid')));
            const status = get(E, r.v, 'status');
            const k = E.fresh('k', 'Int');
            if (valid) {
                E.ensure('something was validated', S.bool(kind === 'project-setup' ? !skipped : code !== undef && code.x.trim() !== ''));
                E.ensure('its data was there', S.bool(!fails));
                if (E.decide(within(k, s.len))) E.ensure('valid: no error among the issues', S.not(isError(E, s.at(k))));
                E.ensure('valid: status', E.same(status, S.str('ok')));
            } else {
                const checked = !E.decide(E.same(status, S.str('skipped'))) && E.decide(S.gt(s.len, I(0)));
                if (checked) E.ensure('not valid: an error among the issues', E.any(I(0), s.len, (i) => isError(E, s.at(i))));
                E.ensure('not valid: status', S.not(E.same(status, S.str('ok'))));
            }
            if (E.decide(S.gt(s.len, I(0)))) {
                const summary = get(E, r.v, 'summary');
                // the function that sums up is known by its own contract: what counts is that it was given these issues
                const made = summaries.find((x) => x.text === summary);
                if (made) {
                    E.ensure('the summary is of as many issues', S.eq(made.list.len, s.len));
                    if (E.decide(within(k, s.len))) E.ensure('the summary is of the issues', E.same(get(E, made.list.at(k), 'severity'), get(E, s.at(k), 'severity')));
                } else {
                    E.stubs.delete(`call:${SUM}#buildSummary`);
                    E.ensure('the summary is of the issues', E.same(summary, E.call(E.get(SUM, 'buildSummary'), [issues])));
                }
            }
        },
    },
    {
        name: 'no issues, no failure: valid',
        run(E) {
            versions(E);
            const kind = ['sfc', 'snippet', 'style-set', 'project-setup'][E.choose('kind', 4)];
            const { n, list } = anyIssues(E, 'issues');
            E.assume(E.all(I(0), n, (i) => S.not(S.app('issues_error', [i], 'Bool'))));
            for (const f of [`${SFC}#validateSfc`, `${STY}#validateStyleSet`]) E.stubs.set('call:' + f, () => E.resolved(E.arr(list)));
            E.stubs.set(`call:${SET}#validateProjectSetup`, () => E.resolved(E.obj({ status: S.str('ok'), issues: E.arr(list), recommendations: E.arr([]), versionContext: E.obj({ warnings: E.arr([]) }) })));
            const r = ask(E, USE, 'validateVlossomUsage', [E.obj({ kind: S.str(kind), code: S.str('<vs-button />') })]);
            E.ensure('answered', S.bool(!r.thrown));
            if (r.thrown) return;
            E.ensure('valid', E.truthy(get(E, r.v, 'valid')));
            E.ensure('all issues are reported', S.eq(E.seqOf(get(E, r.v, 'issues')).len, n));
        },
    },
    ...MODES.map((mode) => ({
        name: 'library-first findings: ' + mode,
        run(E) {
            const context = E.obj({ source: S.str('input'), warnings: E.arr([]) });
            E.stubs.set(`call:${COV}#findCoverageForAlternative`, ([a]) => {
                const alt = E.toStr(E.force(a));
                if (!E.decide(S.app('covered', [alt], 'Bool'))) return E.resolved(undef);
                const c = E.nat('components');
                return E.resolved(E.obj({ requirement: S.app('requirement', [alt], 'Str'), components: E.arr(seq(c, (i) => E.obj({ name: S.app('component', [alt, i], 'Str') }))) }));
            });
            const r = ask(E, FIRST, 'validateVlossomFirst', [E.str('code'), S.str(mode), context]);
            E.ensure('answered', S.bool(!r.thrown));
            if (r.thrown) return;
            const s = E.seqOf(r.v);
            if (mode === 'off') return E.ensure('off: none', S.eq(s.len, I(0)));
            E.ensure('of the level of the mode', E.all(I(0), s.len, (i) => E.same(get(E, s.at(i), 'severity'), S.str(mode === 'strict' ? 'error' : 'warning'))));
            E.ensure('recognisable as library-first findings', E.all(I(0), s.len, (i) => advice(E, s.at(i))));
        },
    })),
    {
        name: 'library-first dependencies by mode',
        run(E) {
            const mode = MODES[E.choose('mode', 3)];
            const deps = E.obj({});
            for (const d of ['element-plus', 'vuetify', 'primevue']) if (E.choose(d, 2)) E.setProp(deps, d, S.str('^1.0.0'));
            const r = E.call(E.own(SET, 'validateThirdPartyUiDependencies'), [deps, S.str(mode)]);
            const s = E.seqOf(get(E, r, 'issues'));
            const k = E.fresh('k', 'Int');
            if (mode === 'off') {
                E.ensure('off: none', S.eq(s.len, I(0)));
                E.ensure('off: nothing recommended', S.eq(E.seqOf(get(E, r, 'recommendations')).len, I(0)));
            } else if (E.decide(within(k, s.len))) {
                E.ensure('recognisable as a library-first finding', advice(E, s.at(k)));
                if (mode === 'prefer') E.ensure('prefer: never an error', S.not(isError(E, s.at(k))));
            }
        },
    },
    ...['sfc', 'setup'].flatMap((what) => ['strict', 'prefer'].map((mode) => ({
        name: `issues of a ${what === 'sfc' ? 'component file' : 'project setup'}: off against ${mode}`,
        run(E) {
            const context = E.obj({ source: S.str('input'), detectedVersion: E.str('version'), warnings: E.arr([]) });
            E.stubs.set(`call:${VS}#resolveVersionContext`, () => context);
            E.stubs.set(`call:${GR}#resolveGitHubVersionContext`, (a) => E.resolved(a[0]));
            const parts = {};
            const any = (name) => (parts[name] ??= anyIssues(E, name, true));
            const own = (m) => {
                const c = E.nat('first');
                return seq(c, (i) => issue({ ruleId: S.str('PREFER_VLOSSOM_COMPONENT'), severity: S.str(m === 'strict' ? 'error' : 'warning'), message: S.app('first_message', [i], 'Str'), suggestion: S.str('') }));
            };
            E.stubs.set(`call:${FIRST}#validateVlossomFirst`, ([, m]) => E.resolved(E.force(m).x === 'off' ? E.arr([]) : E.arr(own(E.force(m).x))));
            let run;
            if (what === 'sfc') {
                for (const f of ['validateComponentExistence', 'validateComponentVersions', 'validateSlots']) E.stubs.set(`call:${SFC}#${f}`, () => E.resolved(E.arr(any(f).list)));
                E.stubs.set(`call:${SFC}#validateInternalCssSelectors`, () => E.arr(any('css').list));
                const tags = E.nat('tags');
                E.stubs.set(`call:${SFC}#extractTags`, () => E.arr(seq(tags, (i) => E.obj({ tag: S.app('tag', [i], 'Str'), body: S.app('body', [i], 'Str'), line: S.app('line', [i], 'Int') }))));
                E.stubs.set(`call:${GR}#getComponentMeta`, ([n]) => (E.decide(S.app('registered', [E.force(n)], 'Bool')) ? E.obj({ name: E.force(n) }) : undef));
                const per = (name) => ([, body]) => {
                    const len = S.app(name + '_n', [E.force(body)], 'Int');
                    E.assumeOnce(S.ge(len, I(0)));
                    return E.arr(seq(len, (i) => issue({ ruleId: S.str('RULE_' + name), severity: S.str('error'), message: S.app(name + '_message', [E.force(body), i], 'Str'), suggestion: S.str('') })));
                };
                E.stubs.set(`call:${SFC}#validateVModel`, per('model'));
                E.stubs.set(`call:${SFC}#validatePropsAndEvents`, per('props'));
                run = (m) => E.seqOf(E.awaitValue(E.call(E.own(SFC, 'validateSfc'), [E.str('code'), E.obj({ vlossomFirst: S.str(m), versionContext: context })])));
            } else {
                E.stubs.set(`call:${SET}#parsePackageJson`, () => E.obj({ deps: E.obj({}), issues: E.arr(any('package').list), recommendations: E.arr([]) }));
                E.stubs.set(`call:${SET}#validateSetupFile`, () => E.arr(any('file').list));
                E.stubs.set(`call:${SET}#findSetupFile`, () => undef);
                const files = E.nat('files');
                E.assume(S.gt(files, I(0)));
                run = (m) => {
                    const r = E.awaitValue(E.call(E.own(SET, 'validateProjectSetup'), [E.obj({ vlossomFirst: S.str(m), files: E.arr(seq(files, (i) => E.obj({ path: S.app('path', [i], 'Str'), content: S.app('content', [i], 'Str') }))) })]));
                    return E.seqOf(get(E, r, 'issues'));
                };
            }
            const on = run(mode);
            const off = run('off');
            const equal = (x, y) => S.and(E.same(get(E, x, 'ruleId'), get(E, y, 'ruleId')), E.same(get(E, x, 'severity'), get(E, y, 'severity')), E.same(get(E, x, 'message'), get(E, y, 'message')));
            E.ensure('off: no library-first issue', E.all(I(0), off.len, (i) => S.not(advice(E, off.at(i)))));
            // where it is usually found, or anywhere
            const more = S.sub(on.len, off.len);
            const found = (x, list, ...usual) => S.or(...usual.map((i) => S.and(within(i, list.len), equal(list.at(i), x))), E.any(I(0), list.len, (i) => equal(list.at(i), x)));
            E.ensure('every issue of off is there in the other mode', E.all(I(0), off.len, (k) => found(off.at(k), on, k, S.add(k, more))));
            E.ensure('every other issue is a library-first one', E.all(I(0), on.len, (k) => S.or(advice(E, on.at(k)), found(on.at(k), off, k, S.sub(k, more)))));
            if (mode === 'prefer') E.ensure('prefer: library-first issues are no errors', E.all(I(0), on.len, (i) => S.not(S.and(advice(E, on.at(i)), isError(E, on.at(i))))));
        },
    }))),
];
