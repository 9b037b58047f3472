export const entry = `export { recordStep, resetSession, setSessionTimeoutMs } from '@mcp/utils/mcp-response';`;
export const needsDom = false;
const TOOLS = ['search_vlossom', 'scaffold_vlossom_code', 'get_vlossom_reference', 'validate_vlossom_usage', 'other', 'constructor', '__proto__', 'size'];
const START = TOOLS.slice(0, 2);
const LIMITS = [1000, 60_000, 1_800_000, Infinity, 0];
export function gen(r) {
    const limit = r.pick([0, 1, 1, 2, 2, 3, 4]);
    const ms = LIMITS[limit];
    const waits = [0, 0, 1, 10, ...(Number.isFinite(ms) ? [ms - 1, ms, ms, ms + 1, ms * 3, Math.floor(ms / 2), Math.floor(ms * 0.7)] : [1e9])].filter((x) => x >= 0);
    return {
        limit,
        ops: r.list(r.int(1, r.bool(0.2) ? 40 : 12), () =>
            r.bool(0.08) ? { op: 'reset', wait: r.pick(waits) } : {
                op: 'step', wait: r.pick(waits), tool: r.pick(r.bool(0.8) ? TOOLS.slice(0, 4) : TOOLS), ms: r.pick([0, 1, 5, 17, 250, 0.5]),
                ...(r.bool(0.3) ? { summary: 'x'.repeat(r.pick([0, 5, 59, 60, 61, 200])) } : {}),
            }),
    };
}
export function run(M, t) {
    const real = Date.now;
    let now = 1e12;
    Date.now = () => now;
    try {
        const limit = LIMITS[t.limit];
        M.setSessionTimeoutMs(limit);
        M.resetSession();
        let steps = [], root, last = now, earlier = [];
        for (const [i, o] of t.ops.entries()) {
            now += o.wait;
            if (o.op === 'reset') {
                M.resetSession();
                steps = []; root = undefined; last = now;
                continue;
            }
            if (now - last > limit) { steps = []; root = undefined; }
            last = now;
            const starts = START.includes(o.tool);
            const got = M.recordStep(o.tool, 'label ' + i, o.ms, 'summary' in o ? { summary: o.summary } : undefined);
            const n = steps.length + 1;
            steps.push({ step: n, label: 'label ' + i, tool: o.tool, durationMs: o.ms, parentStep: starts ? undefined : root });
            if (starts) root = n;
            const flat = (s) => [s.step, s.label, s.tool, s.durationMs, s.parentStep];
            const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
            if (got.steps.length !== n) return `operation ${i}: trace of ${got.steps.length} steps, expected ${n}`;
            for (let k = 0; k < n; k++)
                if (!same(flat(got.steps[k]), flat(steps[k]))) return `operation ${i}: step ${k + 1} is ${JSON.stringify(flat(got.steps[k]))}, expected ${JSON.stringify(flat(steps[k]))}`;
            const counts = new Map();
            for (const s of steps) counts.set(s.tool, (counts.get(s.tool) ?? 0) + 1);
            const used = [...counts].map(([k, c]) => (c > 1 ? `${k} ×${c}` : k));
            if (!same(got.toolsUsed, used)) return `operation ${i}: tools used ${JSON.stringify(got.toolsUsed)}, expected ${JSON.stringify(used)}`;
            const sum = steps.reduce((a, s) => a + s.durationMs, 0);
            if (Math.abs(got.totalDurationMs - sum) > 1e-6) return `operation ${i}: total ${got.totalDurationMs}, the steps took ${sum}`;
            for (const e of earlier) if (JSON.stringify(e.got) !== e.was) return `operation ${i}: an earlier answer changed to ${JSON.stringify(e.got)}`;
            earlier = [...earlier.slice(-3), { got, was: JSON.stringify(got) }];
        }
        return null;
    } finally {
        Date.now = real;
    }
}
