// developer entry: node bin/verify.mjs P01 [contract]
import { verifyParallel } from '../engine/verify.mjs';
const id = process.argv[2];
const mod = await import(`../contracts/${id}.mjs`);
const r = await verifyParallel(id, mod, { only: process.argv[3] || null, verbose: true, tier: process.env.VERIF_TIER || 'quick' });
console.log(`${id}: ${r.discharged}/${r.obligations} discharged (${r.byEval} by evaluation, ${JSON.stringify(r.solver)}), ${r.paths} paths, exec ${r.execMs} ms, solver ${r.solverMs} ms, ${r.queries} feasibility queries`);
import fs from 'node:fs';
fs.mkdirSync('/tmp/tsvc-fail', { recursive: true });
r.failed.forEach((f, i) => {
    if (f.script) fs.writeFileSync(`/tmp/tsvc-fail/${id}_${i}.smt2`, f.script);
    if (i < 25) console.log(`  FAIL [${i}] ${f.contract} :: ${f.label} :: ${f.verdict} ${f.reason ?? ''} ${f.solver ?? ''}`);
});
if (process.env.SHOW_FN) console.log([...r.functions].join('\n'), [...r.assumed]);
process.exit(r.failed.length ? 1 : 0);
