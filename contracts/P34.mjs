// What is remembered of fetched data.
import { S, undef, I, Unsupported } from './prelude.mjs';

const M = 'packages/vlossom-mcp/src/';
const GR = M + 'services/github-registry-service.ts';
const GF = M + 'services/github-reference-service.ts';
const GC = M + 'services/github-client.ts';
const get = (E, o, k) => E.force(E.getProp(o, k));

/** the repository: a path exists at a reference or not; reading may fail while `down` is on */
function network(E, { text = () => '', list = () => [] } = {}) {
    E.eventLoop();
    const net = { log: [], down: true, failed: [], missing: [] };
    const fetch = (kind, give) => ([path, ref]) => {
        path = E.force(path);
        ref = E.force(ref ?? S.str('main'));
        const call = { kind, path, ref };
        net.log.push(call);
        const fail = (message) => E.later('rejected', E.construct(E.globals.get('Error'), [S.str(message)]));
        if (net.down && E.choose(`down ${net.log.length}`, 2)) {
            net.failed.push(call);
            return fail('GitHub API is temporarily unavailable. Please try again later.');
        }
        if (!E.decide(S.app('there', [S.str(kind), path, ref], 'Bool'))) {
            net.missing.push(call);
            return fail('GitHub repository content was not found.');
        }
        return E.later('resolved', give(path, ref));
    };
    E.stubs.set(`call:${GC}#fetchGitHubRawText`, fetch('raw', (p, r) => S.str(text(p, r))));
    E.stubs.set(`call:${GC}#fetchGitHubDirectory`, fetch('dir', (p, r) => E.arr(list(p, r).map((n) => E.obj({ name: S.str(n), path: S.str(n), type: S.str('dir') })))));
    // the pool: everything or the first failure (its own contract is P33)
    E.stubs.set(`call:${GR}#mapWithConcurrency`, () => {
        const call = { kind: 'pool', path: S.str('pool'), ref: S.str('') };
        net.log.push(call);
        if (net.down && E.choose(`pool ${net.log.length}`, 2)) {
            net.failed.push(call);
            return E.later('rejected', E.construct(E.globals.get('Error'), [S.str('unavailable')]));
        }
        return E.later('resolved', E.arr([E.obj({ name: S.str('VsA'), kebabName: S.str('vs-a'), property: S.str('a') })]));
    });
    return net;
}
const same = (a, b) => (a.kind === b.kind ? S.and(S.eq(a.path, b.path), S.eq(a.ref, b.ref)) : S.FALSE);
const among = (c, list) => S.or(S.FALSE, ...list.map((x) => same(c, x)));
/** the answer or the fact that there was none */
function ask(E, file, fn, args) {
    const r = E.attempt(() => E.awaitValue(E.call(E.own(file, fn), args)));
    while (E.tasks.length) E.tasks.shift()();
    return r;
}
const context = (E, ref, extra = {}) => E.obj({ source: E.str('source'), detectedVersion: E.str('version'), resolvedRef: ref, warnings: E.arr([]), ...extra });

const named = (x) => S.app('named', [x], 'Str');
const kebab = (x) => S.app('kebab', [x], 'Str');
/** spelling of component names: any functions */
function names(E) {
    E.stubs.set(`call:${GR}#normalizeComponentName`, ([n]) => E.obj({ name: named(E.force(n)), kebabName: kebab(named(E.force(n))) }));
    E.stubs.set(`call:${GR}#parseComponentMeta`, ([name, kebabName, readme, types]) => E.obj({ name, kebabName, readme, types }));
}

const SETUP = '# V\n\n## Setup\n\n```ts\ncode\n```\n';
const CSS = ':root {\n    --vs-a: 1px;\n}\n';
const LOADERS = {
    loadDirectives: {},
    loadComposables: { text: () => "export * from './a/b';\n" },
    loadPlugins: {},
    loadSetupExample: { text: () => SETUP },
    loadCssTokens: { text: () => CSS },
    getComponentIndex: { list: () => ['vs-b', 'vs-a', 'other'] },
    getAllComponentsMeta: { list: () => ['vs-a'] },
};

export const contracts = [
    ...Object.entries(LOADERS).map(([fn, world]) => ({
        name: `${fn}: asked twice`,
        opts: { strings: 'smt' },
        run(E) {
            const net = network(E, world);
            const ref = E.str('ref');
            E.assume(S.not(S.eq(ref, S.str(''))));
            const one = ask(E, GR, fn, [context(E, ref)]);
            const first = net.log.length;
            net.down = false;
            net.missing = [];
            const two = ask(E, GR, fn, [context(E, ref)]);
            const again = net.log.slice(first);
            if (net.failed.length) for (const [i, f] of net.failed.entries()) E.ensure(`failure ${i + 1} is not remembered: fetched again`, among(f, again));
            else {
                E.ensure('what was fetched is not fetched again', S.and(S.TRUE, ...again.map((c) => among(c, net.missing))));
                E.ensure('the answer is the same', !!one.thrown !== !!two.thrown ? S.FALSE : one.thrown ? S.TRUE : E.deepEqual(one.v, two.v));
            }
            // then nothing is fetched any more
            const three = ask(E, GR, fn, [context(E, ref)]);
            E.ensure('once complete, kept', S.and(S.TRUE, ...net.log.slice(first + again.length).map((c) => among(c, net.missing))));
            E.ensure('the same answer from then on', !!three.thrown !== !!two.thrown ? S.FALSE : two.thrown ? S.TRUE : E.deepEqual(three.v, two.v));
        },
    })),
    ...['fetchRawCached', 'fetchDirectoryCached'].map((fn) => ({
        name: `${fn}: two resources`,
        opts: { strings: 'smt' },
        run(E) {
            const net = network(E);
            const req = (n) => [E.str('path' + n), E.str('ref' + n)];
            const [a, b] = [req(1), req(2)];
            // a reference never contains a colon
            for (const r of [a[1], b[1]]) E.assume(S.not(E.strRel('str_contains', r, S.str(':'))));
            const other = E.decide(S.not(S.and(S.eq(a[0], b[0]), S.eq(a[1], b[1]))));
            const kind = fn === 'fetchRawCached' ? 'raw' : 'dir';
            const call = ([path, ref]) => ({ kind, path, ref });
            const ok = [];
            for (const [i, x] of [a, b, a].entries()) {
                const before = net.log.length;
                const failedBefore = net.failed.length + net.missing.length;
                const r = ask(E, GR, fn, x);
                const made = net.log.slice(before);
                const known = ok.some((y) => y === x || (!other && y));
                E.ensure(`request ${i + 1}: fetched unless it is there already`, S.bool(made.length === (known ? 0 : 1)));
                if (made.length) E.ensure(`request ${i + 1}: its own resource is fetched`, same(made[0], call(x)));
                const failed = net.failed.length + net.missing.length > failedBefore;
                E.ensure(`request ${i + 1}: fails when its own fetch fails`, S.bool(!!r.thrown === failed));
                if (!r.thrown) ok.push(x);
            }
        },
    })),
    {
        name: 'the version is resolved: asked twice',
        opts: { strings: 'smt' },
        run(E) {
            const net = network(E, { text: () => '{}' });
            const has = (ref) => S.app('there', [S.str('raw'), S.str('packages/vlossom/package.json'), ref], 'Bool');
            E.assume(has(S.str('main')));
            const v = E.str('version');
            const known = E.choose('version known', 2) === 1;
            if (known) E.assume(S.not(S.eq(v, S.str(''))));
            const field = (n, k) => (E.choose(`${k}${n}`, 2) ? E.str(k + n) : undef);
            const ctx = (n) => ({ source: E.str('source' + n), detectedVersion: known ? v : undef, requestedVersion: field(n, 'requested'), packageVersionRange: undef, warnings: E.arr([E.str('note' + n)]) });
            for (const n of [1, 2]) E.assume(S.not(E.strRel('str_contains', E.str('note' + n), S.str('falling back'))));
            ask(E, GR, 'resolveGitHubVersionContext', [E.obj(ctx(1))]);
            net.down = false;
            const given = ctx(2);
            const r = ask(E, GR, 'resolveGitHubVersionContext', [E.obj(given)]);
            E.ensure('answered', S.bool(!r.thrown));
            if (r.thrown) return;
            const refs = known ? [S.strCat(S.str('vlossom-v'), v), S.strCat(S.str('v'), v), v] : [];
            const want = refs.reduceRight((rest, x) => S.ite(has(x), x, rest), S.str('main'));
            E.ensure('the first reference there is', S.eq(get(E, r.v, 'resolvedRef'), want));
            for (const k of ['source', 'detectedVersion', 'requestedVersion', 'packageVersionRange']) E.ensure(`${k} is this request's own`, E.same(get(E, r.v, k), given[k]));
            const w = E.seqOf(get(E, r.v, 'warnings'));
            E.ensure('its own notes first', E.same(w.at(I(0)), E.str('note2')));
            const back = known ? S.and(S.eq(want, S.str('main'))) : S.FALSE;
            E.ensure('a note when falling back', S.eq(w.len, S.ite(back, I(2), I(1))));
        },
    },
    {
        name: 'the version is resolved: two versions',
        opts: { strings: 'smt' },
        run(E) {
            const net = network(E, { text: () => '{}' });
            const has = (ref) => S.app('there', [S.str('raw'), S.str('packages/vlossom/package.json'), ref], 'Bool');
            E.assume(has(S.str('main')));
            const ctx = (n) => E.obj({ source: E.str('source'), detectedVersion: E.str('version' + n), warnings: E.arr([]) });
            for (const n of [1, 2]) E.assume(S.and(S.not(S.eq(E.str('version' + n), S.str(''))), S.not(S.eq(E.str('version' + n), S.str('main')))));
            net.down = false;
            ask(E, GR, 'resolveGitHubVersionContext', [ctx(1)]);
            const r = ask(E, GR, 'resolveGitHubVersionContext', [ctx(2)]);
            const v = E.str('version2');
            const want = [S.strCat(S.str('vlossom-v'), v), S.strCat(S.str('v'), v), v].reduceRight((rest, x) => S.ite(has(x), x, rest), S.str('main'));
            E.ensure('its own reference', r.thrown ? S.FALSE : S.eq(get(E, r.v, 'resolvedRef'), want));
        },
    },
    {
        name: 'one component: asked twice',
        opts: { strings: 'smt' },
        run(E) {
            const net = network(E, {});
            names(E);
            const ref = E.str('ref');
            E.assume(S.not(S.eq(ref, S.str(''))));
            const [a, b] = [E.str('a'), E.str('b')];
            const name = named;
            // the second name: the same, the other spelling, one of the same directory, or another
            const [na, ka, nb, kb] = [named(a), kebab(named(a)), named(b), kebab(named(b))];
            E.assume(
                [
                    S.eq(nb, na),
                    S.and(S.not(S.eq(nb, na)), S.eq(nb, ka), S.eq(kb, ka)),
                    S.and(S.not(S.eq(nb, na)), S.not(S.eq(nb, ka)), S.eq(kb, ka)),
                    S.and(S.not(S.eq(nb, na)), S.not(S.eq(nb, ka)), S.not(S.eq(kb, ka)), S.not(S.eq(kb, na))),
                ][E.choose('names', 4)],
            );
            const readme = (x) => S.strCat(S.strCat(S.str('packages/vlossom/src/components/'), kebab(name(x))), S.str('/README.md'));
            const one = ask(E, GR, 'getComponentMeta', [a, context(E, ref)]);
            const before = net.log.length;
            const failed = net.failed.length;
            net.down = false;
            const two = ask(E, GR, 'getComponentMeta', [b, context(E, ref)]);
            const made = net.log.slice(before);
            const alike = E.decide(S.eq(kebab(name(a)), kebab(name(b))));
            E.ensure('the second request does not fail', S.bool(!two.thrown));
            E.ensure('a request fails only when a fetch failed', S.bool(!one.thrown || failed > 0));
            if (failed && alike && one.thrown) E.ensure('a failure is not remembered: fetched again', S.or(S.FALSE, ...net.failed.map((f) => among(f, made))));
            if (!alike) E.ensure('another component is fetched itself', among({ kind: 'raw', path: readme(b), ref }, made));
            if (!failed && E.decide(S.eq(name(a), name(b)))) {
                E.ensure('what was fetched is not fetched again', S.and(S.TRUE, ...made.map((c) => among(c, net.missing))));
                E.ensure('the same answer', one.thrown || two.thrown ? S.FALSE : E.deepEqual(one.v, two.v));
            }
        },
    },
    {
        name: 'the source of a component',
        opts: { strings: 'smt' },
        run(E) {
            const net = network(E, { text: () => 'source' });
            const ref = (n) => E.str('ref' + n);
            for (const n of [1, 2]) E.assume(S.and(S.not(S.eq(ref(n), S.str(''))), S.not(E.strRel('str_contains', ref(n), S.str(':')))));
            const meta = (n) => E.obj({ name: E.str('name' + n), kebabName: E.str('kebab' + n) });
            const path = (n) => S.strCat(S.strCat(S.strCat(S.strCat(S.str('packages/vlossom/src/components/'), E.str('kebab' + n)), S.str('/')), E.str('name' + n)), S.str('.vue'));
            const one = ask(E, GF, 'fetchComponentSource', [meta(1), context(E, ref(1))]);
            const before = net.log.length;
            net.down = false;
            const two = ask(E, GF, 'fetchComponentSource', [meta(2), context(E, ref(2))]);
            const made = net.log.slice(before);
            const alike = E.decide(S.and(S.eq(path(1), path(2)), S.eq(ref(1), ref(2))));
            if (alike && !one.thrown) E.ensure('not fetched again', S.bool(made.length === 0));
            else E.ensure('fetched itself', made.length === 1 ? same(made[0], { kind: 'raw', path: path(2), ref: ref(2) }) : S.FALSE);
            if (!two.thrown) E.ensure('its own reference', S.and(S.eq(get(E, two.v, 'ref'), ref(2)), S.eq(get(E, two.v, 'path'), path(2))));
        },
    },
    {
        name: 'the list of releases: asked twice',
        run(E) {
            E.eventLoop();
            let calls = 0;
            let down = true;
            E.stubs.set(`call:${GC}#fetchGitHubJson`, () => {
                calls++;
                if (down && E.choose('down', 2)) return E.later('rejected', E.construct(E.globals.get('Error'), [S.str('unavailable')]));
                return E.later('resolved', E.arr([]));
            });
            const one = ask(E, GF, 'fetchChangelog', []);
            down = false;
            const before = calls;
            const two = ask(E, GF, 'fetchChangelog', []);
            E.ensure('answered', S.bool(!two.thrown));
            E.ensure('fetched again after a failure only', S.bool(calls - before === (one.thrown ? 1 : 0)));
            if (!one.thrown && !two.thrown) E.ensure('the same answer', E.deepEqual(one.v, two.v));
        },
    },
];
