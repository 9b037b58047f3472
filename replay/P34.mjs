import { github, library, SRC } from './github.mjs';
export const entry = `
export * from '@mcp/services/github-registry-service';
export { fetchChangelog, fetchComponentSource } from '@mcp/services/github-reference-service';`;
export const needsDom = false;
export const fresh = true;
const VERSIONS = ['2.0.1', '2.1.0', '1.4.0', null];
const OPS = ['resolve', 'index', 'meta', 'meta', 'meta', 'all', 'directives', 'composables', 'plugins', 'setup', 'tokens', 'source', 'changelog'];
const NAMES = ['VsButton', 'vs-button', 'vsbutton', 'VsGrid', 'vs-grid', 'Button', 'button', ' VsButton ', 'VsNope'];
const PARTS = ['package.json', 'components', 'vs-button', 'README', 'types.ts', 'directives', 'composables', 'composables/index.ts', 'plugins', 'styles', 'palette', 'vue', 'releases', 'x-plugin', ''];
const BAD = [500, 503, 403, 429, 401, 'network', 400];
export function gen(r) {
    const focus = r.bool(0.7) ? r.list(2, () => r.pick(OPS)) : OPS;
    return {
        // how each version is tagged: 0 = vlossom-v, 1 = v, 2 = plain, 3 = not at all
        tags: r.list(3, () => r.pick([0, 0, 1, 2, 3])),
        without: r.list(3, () => r.bool(0.25) ? r.pick(['directives', 'composables', 'plugins', 'styles', 'types.ts', 'README']) : ''),
        ops: r.list(r.int(2, 7), () => ({
            op: r.pick(focus),
            v: r.pick([0, 0, 1, 2, 3]),
            name: r.pick(NAMES),
            how: r.int(0, 3),
            fail: r.bool(0.45) ? { part: r.pick(PARTS), status: r.pick(BAD), skip: r.pick([0, 0, 0, 1, 2]), ref: r.bool(0.3) ? r.pick(['vlossom-v', 'v', '']) : null } : null,
        })),
    };
}
export function* shrink(t) {
    for (let i = 0; i < t.ops.length; i++) yield { ...t, ops: t.ops.filter((_, k) => k !== i) };
    for (let i = 0; i < t.ops.length; i++) if (t.ops[i].fail) yield { ...t, ops: t.ops.map((o, k) => (k === i ? { ...o, fail: null } : o)) };
}
export const init = () => github();
const CONTEXTS = [
    { source: 'request' },
    { source: 'package', packageVersionRange: '^2.0.0' },
    { source: 'request', requestedVersion: '2.x' },
    { source: 'unknown' },
];
/** everything says which version it is from */
function world(g, t) {
    g.repo = {};
    g.releases = [{ tag_name: 'v2.0.1', name: 'x', draft: false, prerelease: false, published_at: '2026-01-01T00:00:00Z', body: '' }];
    const files = (ref, without) => {
        const f = library({
            components: [{ dir: 'vs-button', description: 'button of ' + ref, types: `export interface VsButtonStyleSet { variables?: { a?: string } }` }, { dir: 'vs-grid', description: 'grid of ' + ref }],
            directives: [{ dir: 'vs-tip', description: 'tip of ' + ref }],
            composables: [{ dir: 'a-composable', name: 'useA', description: 'a of ' + ref }],
            plugins: [{ dir: 'x-plugin', description: 'x of ' + ref }],
            tokens: ['t-' + ref.replace(/\W/g, '')],
        });
        f['packages/vlossom/README.md'] = `# V\n\n## Setup\n\n\`\`\`ts\nsetup of ${ref}\n\`\`\`\n`;
        f[`${SRC}/components/vs-button/VsButton.vue`] = 'source of ' + ref;
        f[`${SRC}/components/vs-grid/VsGrid.vue`] = 'grid source of ' + ref;
        f[`${SRC}/styles/palette.css`] = `:root {\n    --vs-p-${ref.replace(/\W/g, '')}: 1px;\n}\n`;
        for (const k of Object.keys(f)) if (without && k.includes(without) && k !== 'packages/vlossom/README.md') delete f[k];
        return f;
    };
    for (const [i, tag] of t.tags.entries()) {
        const v = VERSIONS[i];
        const ref = [`vlossom-v${v}`, `v${v}`, v][tag];
        if (ref) g.repo[ref] = files(ref, t.without[i]);
    }
    g.repo.main = files('main', '');
}
async function ask(M, o) {
    const detectedVersion = VERSIONS[o.v] ?? undefined;
    const ctx = () => ({ ...CONTEXTS[o.how], detectedVersion, warnings: ['w' + o.how] });
    const meta = { name: /grid/i.test(o.name) ? 'VsGrid' : 'VsButton', kebabName: /grid/i.test(o.name) ? 'vs-grid' : 'vs-button' };
    switch (o.op) {
        case 'resolve': return M.resolveGitHubVersionContext(ctx());
        case 'index': return M.getComponentIndex(ctx());
        case 'meta': return M.getComponentMeta(o.name, ctx());
        case 'all': return M.getAllComponentsMeta(ctx());
        case 'directives': return M.loadDirectives(ctx());
        case 'composables': return M.loadComposables(ctx());
        case 'plugins': return M.loadPlugins(ctx());
        case 'setup': return M.loadSetupExample(ctx());
        case 'tokens': return M.loadCssTokens(ctx());
        case 'source': return M.fetchComponentSource(meta, ctx());
        case 'changelog': return M.fetchChangelog();
    }
}
const outcome = async (f) => {
    try {
        return JSON.stringify({ answer: (await f()) ?? null });
    } catch (e) {
        return JSON.stringify({ error: String(e?.message ?? e) });
    }
};
export async function run(X, t, g) {
    world(g, t);
    const M = X.fresh();
    const done = new Map();
    const loadedAll = new Set();
    for (const [i, o] of t.ops.entries()) {
        // what modules that never saw another request answer
        g.fail = () => undefined;
        let right = await outcome(() => ask(X.fresh(), o));
        let failed = 0, skip = o.fail?.skip ?? 0;
        g.calls.length = 0;
        g.fail = (ref, path, kind) => {
            if (!o.fail) return undefined;
            if (!(kind === 'releases' ? 'releases' : path).includes(o.fail.part)) return undefined;
            if (o.fail.ref !== null && !(ref ?? '').startsWith(o.fail.ref)) return undefined;
            if (skip-- > 0) return undefined;
            failed++;
            return o.fail.status;
        };
        const got = await outcome(() => ask(M, o));
        // once all components of a version are known, names are looked up among them
        const version = String(VERSIONS[o.v]);
        if (o.op === 'meta' && loadedAll.has(version) && got !== right && !JSON.parse(got).error) {
            g.fail = () => undefined;
            const one = X.fresh();
            await outcome(() => ask(one, { ...o, op: 'all' }));
            right = await outcome(() => ask(one, o));
        }
        if (!failed && got !== right) return `request ${i} (${JSON.stringify(o)}) gave ${got.slice(0, 300)}, nothing failed and it should give ${right.slice(0, 300)}`;
        const key = JSON.stringify([o.op, o.v, o.op === 'meta' || o.op === 'source' ? o.name : '']);
        if (!failed) {
            if (o.op === 'all') loadedAll.add(version);
            const refs = Object.keys(g.repo);
            const repeated = g.calls.filter((c) => done.get(key)?.has(JSON.stringify(c)) && refs.includes(c.ref) && (c.kind !== 'raw' || g.repo[c.ref][c.path] !== undefined));
            if (repeated.length) return `request ${i} (${JSON.stringify(o)}) fetched again what was already there: ${JSON.stringify(repeated[0])}`;
            done.set(key, new Set([...(done.get(key) ?? []), ...g.calls.map((c) => JSON.stringify(c))]));
        }
    }
    return null;
}
