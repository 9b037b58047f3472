// Solver back ends.  A persistent z3 (driven synchronously through FIFOs) prunes infeasible branches;
// obligations are discharged by separate solver processes: z3, then z3-new, then cvc5.
import { spawn, execFileSync } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { Printer } from './smt.mjs';

export const Z3 = '/usr/bin/z3';
export const Z3NEW = '/usr/local/bin/z3-new';
export const CVC5 = '/usr/bin/cvc5';

export class Feasibility {
    constructor(strings, timeout = 300) {
        this.strings = strings;
        this.timeout = timeout;
        this.queries = 0;
        this.ms = 0;
        this.cache = new Map();
        this.start();
    }
    start() {
        this.dir = fs.mkdtempSync(path.join(os.tmpdir(), 'tsvc-'));
        const a = path.join(this.dir, 'in');
        const b = path.join(this.dir, 'out');
        execFileSync('mkfifo', [a, b]);
        this.wfd = fs.openSync(a, fs.constants.O_RDWR);
        this.rfd = fs.openSync(b, fs.constants.O_RDWR);
        this.proc = spawn(this.strings === 'smt' ? Z3NEW : Z3, ['-in'], { stdio: [this.wfd, this.rfd, 'ignore'] });
        this.proc.unref();
        this.buf = '';
    }
    line() {
        for (;;) {
            const i = this.buf.indexOf('\n');
            if (i >= 0) {
                const l = this.buf.slice(0, i);
                this.buf = this.buf.slice(i + 1);
                return l;
            }
            const b = Buffer.alloc(65536);
            const n = fs.readSync(this.rfd, b, 0, b.length, null);
            this.buf += b.toString('utf8', 0, n);
        }
    }
    /** is the conjunction of these terms refutable?  true = certainly unsatisfiable */
    refuted(terms) {
        const key = terms
            .map((t) => t.id)
            .sort((x, y) => x - y)
            .join(',');
        const c = this.cache.get(key);
        if (c !== undefined) return c;
        const t0 = Date.now();
        this.queries++;
        const pr = new Printer(this.strings);
        const s = pr.script(terms, null).replace('(set-logic ALL)', '').replace(/\(check-sat\)\n$/, '');
        const text = `(reset)(set-option :timeout ${this.timeout})\n${s}\n(check-sat)\n(echo "@@")\n`;
        let off = 0;
        const data = Buffer.from(text);
        while (off < data.length) off += fs.writeSync(this.wfd, data, off, Math.min(data.length - off, 32768));
        let res = 'unknown';
        for (;;) {
            const l = this.line();
            if (l === '@@') break;
            if (l === 'sat' || l === 'unsat' || l === 'unknown') res = l;
            else if (l.startsWith('(error')) res = 'error ' + l;
        }
        if (res.startsWith('error')) throw new Error('feasibility solver: ' + res + '\n' + text);
        this.ms += Date.now() - t0;
        const r = res === 'unsat';
        this.cache.set(key, r);
        return r;
    }
    close() {
        try {
            this.proc.kill('SIGKILL');
        } catch {}
        for (const fd of [this.wfd, this.rfd])
            try {
                fs.closeSync(fd);
            } catch {}
        fs.rmSync(this.dir, { recursive: true, force: true });
    }
}

export function run(cmd, args, input, ms) {
    return new Promise((res) => {
        const p = spawn(cmd, args, { stdio: ['pipe', 'pipe', 'ignore'] });
        let out = '';
        const t0 = Date.now();
        const timer = setTimeout(() => p.kill('SIGKILL'), ms + 1500);
        p.stdout.on('data', (d) => (out += d));
        p.stdin.on('error', () => {});
        p.on('error', (e) => {
            clearTimeout(timer);
            res({ out: 'error ' + e, ms: Date.now() - t0 });
        });
        p.on('close', () => {
            clearTimeout(timer);
            res({ out, ms: Date.now() - t0 });
        });
        p.stdin.end(input);
    });
}

const verdict = (out) => {
    const l = out.split('\n')[0].trim();
    return l === 'sat' || l === 'unsat' ? l : l.startsWith('(error') ? 'error' : 'unknown';
};

/** decide one script; returns {verdict, solver, ms, out} */
export async function decide(script, { timeout = 8000, quick = false } = {}) {
    let total = 0;
    const z3new = ['z3-new', Z3NEW, ['-in', `-t:${timeout}`], timeout];
    const cvc5 = ['cvc5', CVC5, ['--lang=smt2', `--tlimit=${timeout}`, '--enum-inst', '-q'], timeout];
    const cvc5s = ['cvc5', CVC5, ['--lang=smt2', `--tlimit=${timeout}`, '--strings-exp', '-q'], timeout];
    const tries = script.includes('; theory of strings') ? [z3new, cvc5s] : [
        ['z3', Z3, ['-in', `-t:${Math.min(timeout, 4000)}`], Math.min(timeout, 4000)],
        cvc5,
        z3new,
    ];
    let sat = null;
    let last = null;
    for (const [name, cmd, args, ms] of tries) {
        const r = await run(cmd, args, script, ms);
        total += r.ms;
        const v = verdict(r.out);
        last = { verdict: v, solver: name, ms: total, out: r.out };
        if (v === 'error') last.out = name + ': ' + r.out;
        if (v === 'unsat') return last;
        if (v === 'sat') {
            sat = last;
            break;
        }
        if (quick) break;
    }
    return sat ?? { ...last, ms: total };
}

/** run tasks with bounded parallelism */
export async function pool(items, n, f) {
    const out = new Array(items.length);
    let i = 0;
    await Promise.all(
        Array.from({ length: Math.min(n, items.length) }, async () => {
            while (i < items.length) {
                const k = i++;
                out[k] = await f(items[k], k);
            }
        }),
    );
    return out;
}
