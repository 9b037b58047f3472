import { github, library } from './github.mjs';
const GR = 'packages/vlossom-mcp/src/services/github-registry-service.ts';
export const entry = `export * from '@mcp/services/github-registry-service';`;
export const needsDom = false;
export const fresh = true;
export const own = { [GR]: ['mapWithConcurrency'] };
const PUBLIC = ['getAllComponentsMeta', 'loadDirectives', 'loadComposables', 'loadPlugins'];
export function gen(r) {
    const n = r.pick([0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 17, 25]);
    const pub = r.bool(0.3);
    return {
        fn: pub ? r.pick(PUBLIC) : null,
        n,
        limit: r.pick([1, 1, 2, 3, 4, 8, 100]),
        // which of the waiting ones completes next; 'late' starts that finish at once are possible too
        order: r.list(n, () => r.int(0, 1000)),
        quick: r.list(n, () => r.bool(0.2)),
        fail: !pub && r.bool(0.15) ? r.int(0, Math.max(0, n - 1)) : null,
    };
}
export function* shrink(t) {
    for (const n of [t.n - 1, Math.floor(t.n / 2)]) if (n > 0 && n < t.n) yield { ...t, n, order: t.order.slice(0, n), quick: t.quick.slice(0, n), fail: t.fail !== null && t.fail < n ? t.fail : null };
}
export const init = () => github();
const rest = () => new Promise((f) => setImmediate(f));
export async function run(X, t, g) {
    const M = X.fresh();
    return t.fn || !M.mapWithConcurrency ? await loading(M, t, g) : await direct(M, t);
}
/** completes waiting work in the given order, one at a time */
async function drive(waiting, order, ended) {
    for (let i = 0; !ended(); i++) {
        await rest();
        if (ended()) break;
        if (!waiting.length) {
            await rest();
            if (!waiting.length && !ended()) return 'stuck: nothing runs and nothing is returned';
            continue;
        }
        const [w] = waiting.splice((order[i % (order.length || 1)] ?? 0) % waiting.length, 1);
        w();
        if (i > 500) return 'does not end';
    }
    return null;
}
async function direct(M, t) {
    const items = Array.from({ length: t.n }, (_, i) => ({ id: 'item ' + i }));
    const waiting = [];
    const seen = new Array(t.n).fill(0);
    let running = 0, most = 0, wrong = null;
    const mapper = (x, i) => {
        if (items[i] !== x) wrong ??= `${x?.id} processed as number ${i}`;
        else seen[i]++;
        running++;
        most = Math.max(most, running);
        const finish = () => {
            running--;
            if (t.fail === i) throw new Error('item failed');
            return { of: i };
        };
        if (t.quick[i]) return Promise.resolve().then(finish);
        return new Promise((res) => waiting.push(res)).then(finish);
    };
    let state = null;
    M.mapWithConcurrency(items, t.limit, mapper).then((v) => (state = { v }), (e) => (state = { e }));
    const stuck = await drive(waiting, t.order, () => state !== null);
    if (stuck) return stuck;
    if (wrong) return wrong;
    if (most > Math.max(1, t.limit)) return `${most} at the same time, the limit is ${t.limit}`;
    if (t.fail !== null && t.n) return state.e?.message === 'item failed' ? null : `an item failed, the answer is ${JSON.stringify(state)}`;
    if (state.e) return `failed: ${state.e}`;
    if (seen.some((c) => c !== 1)) return `items processed ${seen.join(',')} times`;
    if (state.v.length !== t.n) return `${state.v.length} results for ${t.n} items`;
    for (let i = 0; i < t.n; i++) if (state.v[i]?.of !== i) return `result ${i} is ${JSON.stringify(state.v[i])}`;
    return null;
}
async function loading(M, t, g) {
    const fn = t.fn ?? PUBLIC[t.n % 4];
    const word = (i) => 'abcdefghijklmnopqrstuvwxyz'[i];
    const list = Array.from({ length: Math.max(1, t.n) }, (_, i) => i);
    g.repo = { main: library({
        components: list.map((i) => ({ dir: 'vs-' + word(i), description: 'text ' + i })),
        directives: list.map((i) => ({ dir: 'vs-' + word(i), description: 'text ' + i })),
        composables: list.map((i) => ({ dir: word(i) + '-composable', name: 'use' + word(i), description: 'text ' + i })),
        plugins: list.map((i) => ({ dir: word(i) + '-plugin', description: 'text ' + i })),
    }) };
    g.calls.length = 0;
    g.fail = () => undefined;
    const waiting = [];
    const running = new Map();
    let most = 0;
    g.gate = async (c) => {
        if (c.kind !== 'raw' || !/README\.md$/.test(c.path) || !/-|vs-/.test(c.path)) return;
        running.set(c.path, (running.get(c.path) ?? 0) + 1);
        most = Math.max(most, running.size);
        await new Promise((res) => waiting.push(res));
        running.delete(c.path);
    };
    try {
        let state = null;
        M[fn]({ source: 'request', resolvedRef: 'main', warnings: [] }).then((v) => (state = { v }), (e) => (state = { e }));
        const stuck = await drive(waiting, t.order, () => state !== null);
        if (stuck) return `${fn}: ${stuck}`;
        if (state.e) return `${fn} failed: ${state.e}`;
        if (most > 8) return `${fn}: ${most} fetched at the same time, the limit is 8`;
        if (state.v.length !== list.length) return `${fn}: ${state.v.length} results for ${list.length} entries`;
        for (const i of list) if (state.v[i]?.description !== 'text ' + i) return `${fn}: result ${i} is ${JSON.stringify(state.v[i]?.description)}`;
        const reads = g.calls.filter((c) => c.kind === 'raw' && /README/.test(c.path)).map((c) => c.path);
        if (new Set(reads).size !== reads.length) return `${fn}: an entry was fetched twice`;
        return null;
    } finally {
        g.gate = null;
    }
}
