// Runs the contracts of one property: symbolic execution of the real functions, discharge of every obligation,
// vacuity guards.  Returns a plain report.
import * as S from './smt.mjs';
import { Engine, Unsupported, REPO } from './exec.mjs';
import './lib.mjs';
import { undef, nul, litSeq, seq, lift, isTerm } from './values.mjs';
import { decide, pool, Z3 } from './solve.mjs';
import crypto from 'node:crypto';
import path from 'node:path';
import { spawn } from 'node:child_process';
import { fileURLToPath } from 'node:url';

// ---- helpers for contracts -------------------------------------------------------------------------
Object.assign(Engine.prototype, {
    input(name, sort) {
        const t = S.app(name, [], sort);
        this.curInputs.push({ name, t });
        return t;
    },
    nat(name) {
        const t = this.input(name, 'Int');
        this.assume(S.ge(t, S.int(0)));
        return t;
    },
    int(name) {
        return this.input(name, 'Int');
    },
    bool(name) {
        return this.input(name, 'Bool');
    },
    str(name) {
        return this.input(name, 'Str');
    },
    val(name) {
        return this.input(name, 'Val');
    },
    /** nondeterministic choice among n alternatives */
    choose(name, n) {
        for (let i = 0; i < n - 1; i++) if (this.decide(this.input(`${name}_is${i}`, 'Bool'))) return i;
        return n - 1;
    },
    /** list of n opaque values */
    symSeq(name, n, sort = 'Val') {
        return seq(n, (i) => S.app(name, [i], sort));
    },
    symArr(name, n, sort = 'Val') {
        return this.arr(this.symSeq(name, n, sort));
    },
    /** list of objects, each field an uninterpreted function of the position */
    symRecs(name, n, fields) {
        return seq(n, (i) => {
            const f = new Map();
            for (const [k, sort] of Object.entries(fields)) f.set(k, typeof sort === 'function' ? sort(i) : S.app(`${name}_${k}`, [i], sort));
            return { k: 'rec', fields: f, base: null };
        });
    },
    predicate(name) {
        return this.native(name, (a) => S.app(name, a.map((x) => lift(x)), 'Bool'));
    },
    v(ref) {
        return this.getProp(ref, 'value');
    },
    /** same value (Object.is) */
    same(a, b) {
        return S.eq(lift(a), lift(b));
    },
    ensure(label, t) {
        this.obligation(label, t);
    },
    /** any state of a module: gives a value to one of its variables */
    /** a binding of a module, exported or not */
    own(file, name) {
        const m = this.load(file);
        return this.lookup(m.env, name);
    },
    setModule(file, name, v) {
        const m = this.load(file);
        this.lookup(m.env, name);
        this.write(m.env, name, v);
    },
    /** proves p(0) and, for any k below n, p(k+1) from p(k); afterwards p holds for all 0..n */
    induct(label, n, p) {
        this.ensure(label + ' (start)', p(S.int(0)));
        const k = this.fresh('k', 'Int');
        this.ensure(label + ' (step)', S.implies(S.and(S.ge(k, S.int(0)), S.lt(k, n), p(k)), p(S.add(k, S.int(1)))));
        const b = this.bvar('Int', 'm');
        this.assume(S.forall([b], S.implies(S.and(S.ge(b, S.int(0)), S.le(b, n)), p(b))));
        this.assume(S.implies(S.ge(n, S.int(0)), p(n)));
    },
    /** forall i in [lo,hi): f(i), as a term (no forks allowed inside f) */
    all(lo, hi, f) {
        const b = this.bvar('Int', 'g');
        return S.forall([b], S.implies(S.and(S.ge(b, lo), S.lt(b, hi)), f(b)));
    },
    any(lo, hi, f) {
        const b = this.bvar('Int', 'g');
        return S.exists([b], S.and(S.ge(b, lo), S.lt(b, hi), f(b)));
    },
    /** prove a statement for an arbitrary i in [lo,hi): skolemised, so f may fork */
    forEachIndex(name, lo, hi, f) {
        const i = this.fresh(name, 'Int');
        const saved = this.facts.length;
        if (!this.decide(S.and(S.ge(i, lo), S.lt(i, hi)))) {
            this.facts.splice(saved);
            return;
        }
        f(i);
    },
    /**
     * runs the setup() of a component: props given by name (undefined props: the declared default; Boolean props that
     * are not given are arbitrary when anyFlags), returns {props, api, events}
     */
    mount(file, given = {}, { anyFlags = false, slots = {} } = {}) {
        const comp = this.force(this.get(file, 'default'));
        const decl = this.getProp(comp, 'props');
        const props = this.obj();
        props.reactive = true;
        for (const [k, d0] of decl.f ?? []) {
            if (k.startsWith('#')) continue;
            const d = this.force(d0);
            let v = given[k];
            if (v === undefined) {
                const type = d.k === 'obj' ? this.force(this.getProp(d, 'type')) : d;
                const isBool = type.k === 'fn' && type.name === 'Boolean';
                const hasDef = d.k === 'obj' && d.f.has('default');
                if (anyFlags && isBool) v = this.bool('prop_' + k);
                else if (hasDef) {
                    v = this.force(this.getProp(d, 'default'));
                    if (v.k === 'fn' && !(type.k === 'fn' && type.name === 'Function')) v = this.call(v, [props]);
                } else v = isBool ? S.FALSE : undef;
            }
            props.f.set(k, v);
        }
        const events = [];
        const emit = this.native('emit', (a) => {
            const n = a[0].op === 'str' ? a[0].x : a[0];
            events.push({ name: n, args: a.slice(1) });
            this.write(log, '#n' + events.length, S.TRUE);
            return undef;
        });
        const log = this.obj();
        const ctx = this.obj({ emit, slots: this.obj(slots), attrs: this.obj(), expose: this.native('expose', () => undef) });
        const api = this.call(this.getProp(comp, 'setup'), [props, ctx]);
        const r = this.call;
        return {
            props,
            api,
            events,
            get: (n) => this.getProp(api, n),
            val: (n) => this.v(this.getProp(api, n)),
            call: (n, ...a) => r.call(this, this.getProp(api, n), a),
            set: (n, v) => this.setProp(this.getProp(api, n), 'value', v),
        };
    },
    /** call that may throw: {v} or {thrown} */
    attempt(f) {
        try {
            return { v: f() };
        } catch (e) {
            if (e.constructor.name === 'JsThrow') return { thrown: e.v, err: e };
            throw e;
        }
    },
});

export async function verifyProperty(mod, { tier = 'quick', only = null, verbose = false } = {}) {
    const t0 = Date.now();
    const report = { contracts: [], obligations: 0, discharged: 0, failed: [], functions: new Set(), assumed: new Set(), solver: {}, solverMs: 0, execMs: 0, paths: 0, byEval: 0, vacuous: [], queries: 0 };
    const timeout = tier === 'thorough' ? 40000 : 15000;
    for (const c of mod.contracts) {
        if (only && c.name !== only) continue;
        const E = new Engine(c.opts ?? {});
        const tc = Date.now();
        let crash = null;
        try {
            E.verify(c.name, (e) => c.run(e));
        } catch (e) {
            crash = e;
        }
        E.close();
        report.execMs += Date.now() - tc;
        report.paths += E.paths;
        report.queries += E.feas.queries;
        for (const f of E.functions) report.functions.add(f);
        for (const a of E.assumed) report.assumed.add(a);
        if (crash) {
            if (process.env.TSVC_DEBUG) console.error(crash);
            report.failed.push({ contract: c.name, label: 'verification condition generation', reason: 'generator: ' + crash.message, verdict: 'error' });
            report.obligations++;
            report.contracts.push({ name: c.name, paths: E.paths, obligations: 1 });
            continue;
        }
        const cr = { name: c.name, paths: E.paths, obligations: E.obligations.length, labels: {}, bounded: [...E.assumed].some((a) => a.endsWith('(bounded)')) };
        report.contracts.push(cr);
        // group identical obligations
        const tasks = new Map();
        for (const o of E.obligations) {
            report.obligations++;
            const l = (cr.labels[o.label] ??= { n: 0, ok: 0 });
            l.n++;
            if (o.goal === S.TRUE) {
                report.discharged++;
                report.byEval++;
                l.ok++;
                continue;
            }
            const pr = new S.Printer(E.strings);
            const script = pr.script(o.facts, o.goal);
            const key = crypto.createHash('sha1').update(script).digest('hex');
            if (!tasks.has(key)) tasks.set(key, { script, o, dup: [] });
            tasks.get(key).dup.push(o);
        }
        if (!E.obligations.length) report.failed.push({ contract: c.name, label: 'non-empty contract', reason: 'no obligation was generated', verdict: 'error' });
        // goals sharing their premises are first tried together
        const groups = new Map();
        for (const t of tasks.values()) {
            const k = t.o.facts.map((f) => f.id).join(',');
            if (!groups.has(k)) groups.set(k, []);
            groups.get(k).push(t);
        }
        const jobs = Number(process.env.TSVC_JOBS || 8);
        await pool([...groups.values()].filter((g) => g.length > 1), jobs, async (g) => {
            const pr = new S.Printer(E.strings);
            const r = await decide(pr.script(g[0].o.facts, S.and(...g.map((t) => t.o.goal))), { timeout: 2500, quick: true });
            report.solverMs += r.ms;
            if (r.verdict === 'unsat') for (const t of g) t.r = r;
        });
        let failures = 0;
        await pool([...tasks.values()], jobs, async (t) => {
            // once obligations have failed the verdict is known: the rest gets less time
            const lim = failures >= 12 ? 0 : failures >= 3 ? 3000 : timeout;
            const r = t.r ?? (lim ? await decide(t.script, { timeout: lim, quick: failures >= 3 }) : { verdict: 'not tried', solver: '', out: '', ms: 0 });
            if (r.verdict !== 'unsat') failures++;
            if (!t.r) report.solverMs += r.ms;
            t.r = r;
            const l = cr.labels[t.o.label];
            if (r.verdict === 'unsat') {
                report.discharged += t.dup.length;
                report.solver[r.solver] = (report.solver[r.solver] ?? 0) + t.dup.length;
                l.ok += t.dup.length;
            } else {
                report.failed.push({ contract: c.name, label: t.o.label, verdict: r.verdict, solver: r.solver, out: r.out.slice(0, 20000), script: t.script, unsupported: !!t.o.unsupported, inputs: (t.o.inputs ?? []).map((i) => i.name) });
            }
        });
        // vacuity: some end state of every contract, and some instance of every label, must not be contradictory
        if (!report.failed.length) {
            const sat = async (facts) => {
                const pr = new S.Printer(E.strings);
                const r = await decide(pr.script(facts, null), { timeout: 1500, quick: true });
                return r.verdict !== 'unsat';
            };
            let alive = false;
            for (const s of E.smoke) {
                if (await sat(s.facts)) {
                    alive = true;
                    break;
                }
            }
            if (!alive) report.failed.push({ contract: c.name, label: 'vacuity guard', reason: 'every path of the contract is contradictory', verdict: 'error' });
            const labels = Object.keys(cr.labels).filter((l) => !/^no exception|^inside the supported/.test(l));
            await pool(labels, 8, async (l) => {
                let ok = false;
                const list = E.obligations.filter((o) => o.label === l);
                // a sample spread over the paths, in an order without period
                const sample = list.map((o, i) => [(i * 2654435761) % 4294967296, o]).sort((x, y) => x[0] - y[0]).slice(0, 60);
                for (const [, o] of sample) {
                    if (await sat(o.facts)) {
                        ok = true;
                        break;
                    }
                }
                if (!ok && process.env.TSVC_VAC) (await import('node:fs')).writeFileSync('/tmp/vac.smt2', new S.Printer(E.strings).script(list[0].facts, null));
                if (!ok) report.failed.push({ contract: c.name, label: l, reason: 'vacuous: contradictory premises on every path', verdict: 'error' });
            });
        }
        if (verbose) console.log(`  ${c.name}: ${E.paths} paths, ${cr.obligations} obligations, ${Object.values(cr.labels).reduce((a, l) => a + l.ok, 0)} ok, exec ${Date.now() - tc} ms`);
    }
    report.wallMs = Date.now() - t0;
    return report;
}

/** one process per contract; the reports are merged */
export async function verifyParallel(id, mod, { tier = 'quick', only = null, verbose = false } = {}) {
    const t0 = Date.now();
    const worker = path.join(path.dirname(fileURLToPath(import.meta.url)), 'worker.mjs');
    const total = { contracts: [], obligations: 0, discharged: 0, failed: [], functions: new Set(), assumed: new Set(), solver: {}, solverMs: 0, execMs: 0, paths: 0, byEval: 0, vacuous: [], queries: 0 };
    const names = mod.contracts.map((c) => c.name).filter((n) => !only || n === only);
    const par = Math.min(8, names.length);
    const inner = Math.max(2, Math.floor(10 / par));
    const reports = new Map();
    await pool(names, par, async (name) => {
        const r = await new Promise((res) => {
            const p = spawn(process.execPath, ['--max-old-space-size=6000', worker, id, name, tier], { stdio: ['ignore', 'pipe', 'pipe'], env: { ...process.env, TSVC_JOBS: process.env.TSVC_JOBS ?? String(inner) } });
            let out = '';
            let err = '';
            p.stdout.on('data', (d) => (out += d));
            p.stderr.on('data', (d) => (err += d));
            const limit = setTimeout(() => {
                err += ' time limit';
                p.kill('SIGKILL');
            }, tier === 'thorough' ? 600000 : 420000);
            p.on('close', (c) => {
                clearTimeout(limit);
                if (process.env.TSVC_DEBUG && err) console.error(err);
                try {
                    res(JSON.parse(out));
                } catch {
                    res({ crashed: `worker ended with ${c}: ${err.slice(-800)}` });
                }
            });
        });
        if (r.crashed) reports.set(name, { contracts: [{ name, paths: 0, obligations: 1 }], obligations: 1, discharged: 0, failed: [{ contract: name, label: 'verification condition generation', reason: r.crashed, verdict: 'error' }], functions: [], assumed: [], solver: {}, solverMs: 0, execMs: 0, paths: 0, byEval: 0, queries: 0 });
        else reports.set(name, r);
        if (verbose) {
            const x = reports.get(name);
            console.log(`  ${name}: ${x.paths} paths, ${x.discharged}/${x.obligations} obligations, generation ${x.execMs} ms, total ${x.wallMs} ms`);
        }
    });
    for (const n of names) {
        const r = reports.get(n);
        total.contracts.push(...r.contracts);
        for (const k of ['obligations', 'discharged', 'solverMs', 'execMs', 'paths', 'byEval', 'queries']) total[k] += r[k];
        total.failed.push(...r.failed);
        for (const f of r.functions) total.functions.add(f);
        for (const f of r.assumed) total.assumed.add(f);
        for (const [k, v] of Object.entries(r.solver)) total.solver[k] = (total.solver[k] ?? 0) + v;
    }
    total.wallMs = Date.now() - t0;
    return total;
}
