// node bin/check.mjs <property>: proves the contracts of a property against /repo's current sources, and runs
// the same contracts as assertions on real executions.  Exit 0 = held, 1 = violated.
import fs from 'node:fs';
import path from 'node:path';
import os from 'node:os';
import crypto from 'node:crypto';
import { spawn } from 'node:child_process';
import { fileURLToPath } from 'node:url';
import { verifyParallel } from '../engine/verify.mjs';
import { run as runCmd, Z3 } from '../engine/solve.mjs';

const ROOT = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
const id = process.argv[2];
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = Number(process.env.VERIF_SEED || 1) | 0;
const t0 = Date.now();

function child(args, ms, progress) {
    return new Promise((res) => {
        const p = spawn(process.execPath, [path.join(ROOT, 'replay/run.mjs'), ...args], {
            stdio: ['ignore', 'pipe', 'ignore'],
            env: { ...process.env, ...(progress ? { TSVC_PROGRESS: progress } : {}) },
        });
        let out = '';
        let killed = false;
        const timer = setTimeout(() => {
            killed = true;
            p.kill('SIGKILL');
        }, ms);
        p.stdout.on('data', (d) => (out += d));
        p.on('close', () => {
            clearTimeout(timer);
            if (killed) return res({ hang: true });
            try {
                res(JSON.parse(out.trim().split('\n').pop()));
            } catch {
                res({ error: 'driver produced no result' });
            }
        });
    });
}
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'tsvc-check-'));
async function search(s, ms) {
    const progress = path.join(dir, 'current.json');
    const r = await child([id, String(s), String(ms)], ms + 20000, process.env.TSVC_TRACK ? progress : undefined);
    if (!r.hang) return r;
    // a run that does not end: find the input
    const r2 = await child([id, String(s), String(ms)], ms + 20000, progress);
    if (!r2.hang) return r2;
    const f = path.join(dir, 'hang.json');
    fs.copyFileSync(progress, f);
    const r3 = await child([id, '--input', f], 15000);
    if (r3.hang) return { fail: JSON.parse(fs.readFileSync(f, 'utf8')), message: 'does not terminate' };
    return { error: 'driver timeout' };
}

let code = 2;
try {
    const mod = await import(path.join(ROOT, 'contracts', id + '.mjs'));
    const hasReplay = fs.existsSync(path.join(ROOT, 'replay', id + '.mjs'));
    const budget = tier === 'thorough' ? 60000 : 10000;
    const [rep, cross] = await Promise.all([verifyParallel(id, mod, { tier }), hasReplay ? search(seed, budget) : { cases: 0, none: true }]);
    let found = cross.fail !== undefined ? cross : null;
    if (!found && rep.failed.length && hasReplay) {
        const r = await search(seed + 7919, tier === 'thorough' ? 90000 : 30000);
        if (r.fail !== undefined) found = r;
        else if (r.error) cross.error ??= r.error;
    }
    for (const k of mod.knownFindings ?? []) console.log(`KNOWN-FINDING: property=${id} ${k}`);
    const violated = rep.failed.length > 0 || found;
    const trusted = ['the condition generator in engine/ (symbolic execution of TypeScript syntax trees)', 'z3 4.8.12, cvc5 1.1.2, z3-new', 'models of built-ins and of vue in engine/lib.mjs', ...(mod.trusted ?? [])];
    // contracts with a stated bound are reported apart and never counted as proved
    const isBounded = (c) => c.bounded || c.name.includes('(bounded');
    const okOf = (c) => Object.values(c.labels ?? {}).reduce((n, l) => n + l.ok, 0);
    const bounded = rep.contracts.filter(isBounded);
    const nB = bounded.reduce((n, c) => n + c.obligations, 0);
    const okB = bounded.reduce((n, c) => n + okOf(c), 0);
    const ev = {
        property: id,
        tier,
        seed,
        level: mod.level ?? 'proof',
        coverage: {
            obligations: rep.obligations - nB,
            discharged: rep.discharged - okB,
            ...(nB ? { bounded: { contracts: bounded.map((c) => c.name), obligations: nB, discharged: okB } } : {}),
            checker_cmd: `node bin/check.mjs ${id}`,
            trusted_base: trusted,
            discharged_by: { ...rep.solver, evaluation: rep.byEval },
            solver_ms: rep.solverMs,
            generation_ms: rep.execMs,
            feasibility_queries: rep.queries,
            paths: rep.paths,
            functions_under_contract: [...rep.functions].sort(),
            contracts: rep.contracts.map((c) => ({ name: c.name, paths: c.paths, obligations: c.obligations, postconditions: Object.keys(c.labels ?? {}).length })),
            runtime_cross_check: cross.none ? 'none' : { executions: cross.cases ?? 0, error: cross.error ?? null },
            failed: rep.failed.map((f) => `${f.contract}: ${f.label} (${f.reason ?? f.verdict})`).slice(0, 40),
        },
        assumptions: [
            'numbers are mathematical integers and reals, not IEEE doubles',
            'partial correctness: termination of loops is not proved',
            ...(mod.assumptions ?? []),
            ...[...rep.assumed].sort(),
        ],
        wall_s: (Date.now() - t0) / 1000,
        violations: violated ? 1 : 0,
    };
    fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
    fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(ev, null, 1));
    if (cross.error) console.log(`note: runtime cross-check not available: ${cross.error}`);
    if (!violated) {
        console.log(`${id}: ${rep.discharged}/${rep.obligations} obligations discharged${nB ? ` (${nB} of them bounded)` : ''} over ${rep.functions.size} functions; ${cross.cases ?? 0} real executions agree`);
        code = 0;
    } else {
        const f0 = rep.failed.find((f) => !f.unsupported && f.verdict !== 'error') ?? rep.failed[0];
        const replay = {
            property: id,
            obligation: f0 ? `${f0.contract}: ${f0.label}` : null,
            verdict: f0 ? (f0.reason ?? f0.verdict) : 'all obligations discharged, but a real execution breaks the contract',
            failed: rep.failed.map((f) => `${f.contract}: ${f.label} (${f.reason ?? f.verdict})`),
            input: found ? found.fail : null,
            observed: found ? found.message : null,
            rerun: found ? `node replay/run.mjs ${id} --input <this file>` : `node bin/check.mjs ${id}`,
            verifier_output: f0?.out ?? null,
            verification_condition: f0?.script ?? null,
        };
        if (f0?.verdict === 'sat') {
            const r = await runCmd(Z3, ['-in', '-t:4000'], f0.script + '(get-model)\n', 5000);
            replay.verifier_output = r.out.slice(0, 50000);
        }
        const dirR = path.join(ROOT, 'evidence', 'replay');
        fs.mkdirSync(dirR, { recursive: true });
        const file = path.join(dirR, `${id}-${crypto.createHash('sha1').update(JSON.stringify(replay)).digest('hex').slice(0, 10)}.json`);
        fs.writeFileSync(file, JSON.stringify(replay, null, 1));
        for (const f of rep.failed.slice(0, 12)) console.log(`failed obligation: ${f.contract}: ${f.label} (${f.reason ?? f.verdict})`);
        if (found) console.log(`failing input: ${JSON.stringify(found.fail)}\n  ${found.message}`);
        console.log(`VIOLATION property=${id} replay=${path.relative(ROOT, file)}${found ? '' : ' no-failing-input-found'}`);
        code = 1;
    }
} finally {
    fs.rmSync(dir, { recursive: true, force: true });
}
process.exit(code);
