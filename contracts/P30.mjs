// Which entries a project's version supports.
import { S, undef, I, seq, Unsupported } from './prelude.mjs';

const VS = 'packages/vlossom-mcp/src/internal/version/version-service.ts';
const call = (E, fn, ...a) => E.call(E.get(VS, fn), a);

/** any version: three numbers and possibly a pre-release part, written in one of the usual ways */
function version(E, n, shapes = ['', 'v', '^', '~', '>=', ' ', '='], tagged = true) {
    const core = ['major', 'minor', 'patch'].map((p) => E.nat(`${n}.${p}`));
    const text = core.map((x, i) => S.strCat(S.str(i ? '.' : ''), E.toStr(x))).reduce((a, b) => S.strCat(a, b));
    const pre = tagged && E.choose(n + '.pre', 2) ? E.textOfClass(E.str(n + '.prerelease'), /[0-9A-Za-z.-]/) : null;
    const exact = pre ? S.strCat(S.strCat(text, S.str('-')), pre) : text;
    const lead = shapes[E.choose(n + '.shape', shapes.length)];
    const after = lead === '>=' ? ' <99.0.0' : lead === ' ' ? ' ' : '';
    return { core, exact, written: S.strCat(S.strCat(S.str(lead), exact), S.str(after)) };
}
/** the numbers of one version come before those of the other */
const before = (a, b) =>
    a.reduceRight((rest, x, i) => S.or(S.lt(x, b[i]), S.and(S.eq(x, b[i]), rest)), S.FALSE);
const isStr = (E, v, text) => E.same(v, S.str(text));
const get = (E, o, k) => E.force(E.getProp(o, k));

export const contracts = [
    {
        name: 'an entry with a version for a project with a version',
        run(E) {
            const have = version(E, 'project', ['']);
            const need = version(E, 'entry');
            const r = call(E, 'getVersionSupport', need.written, E.obj({ detectedVersion: have.exact }));
            const later = before(have.core, need.core);
            const status = get(E, r, 'status');
            E.ensure('unsupported exactly when it came later', S.iff(isStr(E, status, 'unsupported'), later));
            E.ensure('supported exactly when it did not', S.iff(isStr(E, status, 'supported'), S.not(later)));
            E.ensure('the minimum named is the version of the entry', E.same(get(E, r, 'minimumVersion'), need.exact));
            E.ensure('the version judged is the project version', E.same(get(E, r, 'requestedVersion'), have.exact));
            E.ensure('the availability is passed on', E.same(get(E, r, 'availableVersion'), need.written));
        },
    },
    {
        name: 'no guess without versions',
        run(E) {
            const known = version(E, 'known', ['', '^']);
            const none = [undef, S.str(''), S.str('  '), S.str('latest'), S.str('NEXT'), S.str('*'), S.str('beta'), S.str('x'), S.str('1.2'), S.str('workspace:*'), S.str('workspace:^1.2.3'), S.str('file:../1.2.3'), S.str('link:1.2.3'), S.str('portal:1.2.3')];
            const side = E.choose('side', 3);
            const n = none[E.choose('none', none.length)];
            const [need, have] = [side === 0 ? known.written : n, side === 1 ? known.exact : call(E, 'normalizeVersionRange', n)];
            E.ensure('no version is read from it', E.isUndef(call(E, 'normalizeVersionRange', n)));
            const r = call(E, 'getVersionSupport', need, E.obj({ detectedVersion: have }));
            E.ensure('unknown', isStr(E, get(E, r, 'status'), 'unknown'));
        },
    },
    {
        name: 'the version of the project',
        run(E) {
            const asked = [null, 'blank', 'given'][E.choose('asked', 3)];
            const v = asked === 'given' ? version(E, 'asked', ['', '^', ' ']) : null;
            const text = [undef, S.str(''), S.str('broken'), S.str('json')][E.choose('packageJson', 4)];
            const groups = ['dependencies', 'devDependencies', 'peerDependencies'];
            const listed = {};
            const pkg = {};
            for (const g of text === S.str('json') ? groups : []) {
                const how = E.choose(g, 3);
                if (how === 0) continue;
                if (how === 2) listed[g] = version(E, g, ['^'], false);
                pkg[g] = E.obj({ vue: S.str('3.0.0'), ...(how === 2 ? { vlossom: listed[g].written } : {}) });
            }
            E.globals.set('JSON', E.obj({ parse: E.native('parse', (a) => (a[0] === S.str('json') ? E.obj(pkg) : E.throwType('not a package file'))) }));
            const r = call(E, 'resolveVersionContext', E.obj({ version: { null: undef, blank: S.str('  ') }[asked] ?? v.written, packageJson: text }));
            const range = groups.reduce((x, g) => listed[g] ?? x, null);
            const used = v ?? range;
            E.ensure('the version asked for wins over the one listed', used ? E.same(get(E, r, 'detectedVersion'), used.exact) : E.isUndef(get(E, r, 'detectedVersion')));
            E.ensure('its origin is named', isStr(E, get(E, r, 'source'), v ? 'input' : range ? 'packageJson' : 'unknown'));
            E.ensure('the range listed is passed on', range ? E.same(get(E, r, 'packageVersionRange'), range.written) : E.isUndef(get(E, r, 'packageVersionRange')));
            const w = E.seqOf(get(E, r, 'warnings'));
            E.ensure('a warning exactly when there is none', S.eq(w.len, I(used ? 0 : 1)));
        },
    },
    {
        name: 'a version that cannot be read is warned about',
        run(E) {
            const text = [S.str('latest'), S.str('workspace:*'), S.str('1.x')][E.choose('text', 3)];
            const r = call(E, 'resolveVersionContext', E.obj({ version: text }));
            E.ensure('no version', E.isUndef(get(E, r, 'detectedVersion')));
            E.ensure('it was asked for', S.and(isStr(E, get(E, r, 'source'), 'input'), E.same(get(E, r, 'requestedVersion'), text)));
            E.ensure('one warning', S.eq(E.seqOf(get(E, r, 'warnings')).len, I(1)));
        },
    },
    {
        name: 'places searched',
        opts: { strings: 'smt' },
        run(E) {
            const v = E.choose('version', 3);
            const text = [undef, S.str(''), E.str('text')][v];
            if (v === 2) E.assume(S.not(S.eq(text, S.str(''))));
            const r = E.seqOf(call(E, 'getCandidateRefs', text));
            if (r.lit === undefined) throw new Unsupported('places of unknown number');
            const got = r.lit;
            const want = v < 2 ? [S.str('main')] : [S.strCat(S.str('vlossom-v'), text), S.strCat(S.str('v'), text), ...(E.decide(S.eq(text, S.str('main'))) ? [] : [text]), S.str('main')];
            E.ensure('each place once, in order, the main branch last', got.length === want.length ? S.and(...got.map((x, i) => E.same(x, want[i]))) : S.FALSE);
            E.ensure('no repetition', S.and(...got.flatMap((x, i) => got.slice(i + 1).map((y) => S.not(E.same(x, y))))));
        },
    },
    {
        name: 'entries of a list that are not supported',
        run(E) {
            const have = version(E, 'project', ['']);
            const n = E.nat('n');
            const parts = ['major', 'minor', 'patch'];
            const core = (i) => parts.map((p) => S.app(`entry.${p}`, [i], 'Int'));
            const i0 = S.bvar('e', 'Int');
            for (const x of core(i0)) E.assume(S.forall([i0], S.ge(x, I(0)), [[x]]));
            const dated = (i) => S.app('entry.dated', [i], 'Bool');
            const verOf = (i) => core(i).map((x, j) => S.strCat(S.str(j ? '.' : ''), E.toStr(x))).reduce((a, b) => S.strCat(a, b));
            const entries = E.arr(seq(n, (i) => E.obj({ name: S.app('entry.name', [i], 'Str'), availableVersion: E.decide(dated(i)) ? verOf(i) : undef, at: i })));
            const out = E.seqOf(call(E, 'findUnsupportedEntries', entries, E.obj({ detectedVersion: have.exact })));
            const bad = (i) => S.and(dated(i), before(have.core, core(i)));
            const want = E.filterSeq(seq(n, (i) => i), bad, (i) => i);
            E.relateCounts(want);
            E.ensure('as many as are unsupported', S.eq(out.len, want.len));
            const k = E.fresh('k', 'Int');
            if (E.decide(S.and(S.ge(k, I(0)), S.lt(k, out.len)))) {
                const e = out.at(k);
                E.ensure('each unsupported one, in order', S.eq(get(E, get(E, e, 'entry'), 'at'), want.at(k)));
                E.ensure('with its verdict', isStr(E, get(E, get(E, e, 'support'), 'status'), 'unsupported'));
            }
        },
    },
];
