import { github, library } from './github.mjs';
export const entry = `export { searchVlossom } from '@mcp/internal/search/component-search-service';`;
export const needsDom = false;
const WORDS = ['button', 'table', 'input', 'select', 'modal', 'drawer', 'grid', 'form', 'toast', 'tabs', 'x', 'file-drop', 'bar'];
const uniq = (xs) => [...new Set(xs)];
const words = (r, n) => uniq(r.list(n, () => r.list(r.int(1, 3), () => r.pick(WORDS)).join('-')));
const LIMITS = [undefined, undefined, 1, 2, 3, 5, 10, 49, 50, 51, 1000, 0, -1, -100, 0.5, 1.5, 2.9, 49.5, 50.5];
export function gen(r) {
    return {
        names: words(r, r.int(1, r.bool(0.3) ? 60 : 12)),
        desc: r.list(20, () => r.list(r.int(0, 4), () => r.pick(WORDS)).join(' ')),
        query: r.pick(['', ' ', 'button', 'Button', 'VsTable', 'vs', 'x', 'input', 'popup dialog', 'zzz', 'vs-table', 'dashboard', 'select modal', 'size', 'e', ...WORDS]),
        limit: r.pick(LIMITS) ?? null,
        target: r.pick(['component', 'directive', 'composable', 'token', 'option', 'rule', 'changelog', 'all', null]),
    };
}
export function init() {
    const g = github();
    g.releases = WORDS.map((w, i) => ({ tag_name: `vlossom-v2.${i}.0`, name: w, draft: false, prerelease: i % 3 === 0, published_at: '2026-01-01T00:00:00Z', body: `## Features\n- add ${w}\n- more ${WORDS[(i * 5) % WORDS.length]}\n` }));
    return { g, n: 0 };
}
const most = (l) => (!l ? 10 : Math.floor(Math.min(Math.max(l, 1), 50)));
export async function run(M, t, st) {
    const version = `9.${Math.floor(st.n / 1000)}.${st.n++ % 1000}`;
    const pascal = (s) => s.split('-').map((p) => p[0].toUpperCase() + p.slice(1)).join('');
    const d = (i) => t.desc[i % t.desc.length];
    st.g.repo = { ['v' + version]: library({
        components: t.names.map((n, i) => ({ dir: 'vs-' + n, description: d(i) })),
        directives: t.names.map((n, i) => ({ dir: 'vs-' + n, description: d(i + 1) })),
        composables: t.names.map((n, i) => ({ dir: n + '-composable', name: 'use' + pascal(n), description: d(i + 2) })),
        tokens: t.names,
    }) };
    st.g.calls.length = 0;
    const ask = (limit, query = t.query) => M.searchVlossom({ query, target: t.target ?? undefined, limit, version });
    const got = await ask(t.limit ?? undefined);
    const all = await ask(50);
    if (got.status === 'error') return `search failed: ${got.error}`;
    const target = t.target ?? 'component';
    const cap = most(t.limit);
    const show = (r) => r.results.map((x) => `${x.name}:${x.score}`).join(' ');
    for (const [r, c] of [[got, cap], [all, 50]]) {
        if (r.results.length > c) return `${r.results.length} results with limit ${t.limit}, at most ${c} allowed`;
        const low = r.results.find((x) => !(x.score > 0));
        if (low) return `${low.name} is a result with score ${low.score}`;
        if (target !== 'changelog')
            for (let i = 1; i < r.results.length; i++) if (r.results[i].score > r.results[i - 1].score) return `not best first: ${show(r)}`;
        if (r.status !== 'ambiguous' && r.total !== r.results.length) return `total ${r.total} for ${r.results.length} results`;
    }
    if (got.status === 'ambiguous') return null;
    if (all.results.length < 50) {
        if (got.results.length !== Math.min(cap, all.results.length)) return `${got.results.length} results with limit ${t.limit}, ${all.results.length} match`;
    } else if (got.results.length !== cap) return `${got.results.length} results with limit ${t.limit}, at least 50 match`;
    // nothing left out in favour of a lower score
    const score = new Map(all.results.map((x) => [x.type + x.id, x.score]));
    if (target !== 'changelog' && all.results.length < 50) {
        const kept = new Set(got.results.map((x) => x.type + x.id));
        const worst = Math.min(...got.results.map((x) => x.score));
        for (const x of all.results) if (!kept.has(x.type + x.id) && x.score > worst) return `${x.name} with score ${x.score} left out, ${show(got)}`;
        for (const x of got.results) if (score.get(x.type + x.id) !== x.score) return `score of ${x.name} depends on the limit`;
    }
    // an entry whose name holds the query is found
    const q = t.query.trim().toLowerCase();
    const named = { component: t.names.map((n) => 'Vs' + pascal(n)), directive: t.names.map((n) => 'v-' + n), composable: t.names.map((n) => 'use' + pascal(n)), token: t.names.map((n) => '--vs-' + n) }[target];
    if (named && all.results.length < 50) {
        const have = new Set(all.results.map((x) => x.name));
        const miss = named.find((n) => (!q || n.toLowerCase().includes(q)) && !have.has(n));
        if (miss) return `${miss} is not found for "${t.query}"`;
    }
    return null;
}
