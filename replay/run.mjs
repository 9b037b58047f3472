// Child process: runs the executable contract of a property on real code.
//   node replay/run.mjs P01 <seed> <milliseconds>          seeded search; prints one JSON line
//   node replay/run.mjs P01 --input <file>                 one recorded input
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { load, dom } from './bundle.mjs';

const [id, a, b] = process.argv.slice(2);
const here = path.dirname(fileURLToPath(import.meta.url));
const d = await import(path.join(here, id + '.mjs'));
export function makeRng(seed) {
    let s = (seed >>> 0) || 1;
    const next = () => {
        s ^= s << 13;
        s >>>= 0;
        s ^= s >>> 17;
        s ^= s << 5;
        s >>>= 0;
        return s / 4294967296;
    };
    const r = {
        next,
        int: (lo, hi) => lo + Math.floor(next() * (hi - lo + 1)),
        bool: (p = 0.5) => next() < p,
        pick: (xs) => xs[Math.floor(next() * xs.length)],
        list: (n, f) => Array.from({ length: n }, (_, i) => f(i)),
    };
    for (let i = 0; i < 16; i++) next();
    return r;
}
console.warn = console.error = console.info = () => {};
console.log = () => {};
const say = (o) => fs.writeSync(1, JSON.stringify(o) + '\n');
if (d.needsDom !== false) dom();
let M;
try {
    M = await load(d.entry, { fresh: d.fresh, own: d.own });
} catch (e) {
    say({ error: 'load: ' + (e.message ?? e).slice(0, 2000) });
    process.exit(0);
}
const state = d.init ? await d.init(M) : undefined;
process.on('uncaughtException', (e) => {
    say({ fail: current, message: 'uncaught exception: ' + (e?.message ?? e), cases });
    process.exit(0);
});
process.on('unhandledRejection', () => {});
let current = null;
let cases = 0;
async function one(input) {
    current = input;
    try {
        return (await d.run(M, input, state)) ?? null;
    } catch (e) {
        return 'exception: ' + (e?.stack ?? e);
    }
}
if (a === '--input') {
    const input = JSON.parse(fs.readFileSync(b, 'utf8'));
    const m = await one(input.input ?? input);
    say(m ? { fail: input, message: m } : { ok: 1 });
    process.exit(0);
}
const rng = makeRng(Number(a));
const end = Date.now() + Number(b);
const seen = new Set();
let samples = [];
const fixed = d.fixed ? d.fixed() : [];
const progress = process.env.TSVC_PROGRESS;
for (let i = 0; ; i++) {
    if (i >= fixed.length && Date.now() > end) break;
    if (d.maxCases && i >= d.maxCases) break;
    const input = i < fixed.length ? fixed[i] : d.gen(rng, i - fixed.length);
    const key = JSON.stringify(input);
    if (seen.has(key)) continue;
    seen.add(key);
    if (samples.length < 3) samples.push(input);
    if (progress) fs.writeFileSync(progress, key);
    cases++;
    const m = await one(input);
    if (m) {
        // shrink by the driver's own proposals
        let best = input;
        let msg = m;
        if (d.shrink) {
            let again = true;
            const stop = Date.now() + 5000;
            while (again && Date.now() < stop) {
                again = false;
                for (const c of d.shrink(best)) {
                    const r = await one(c);
                    if (r) {
                        best = c;
                        msg = r;
                        again = true;
                        break;
                    }
                }
            }
        }
        say({ fail: best, message: msg, cases });
        process.exit(0);
    }
}
say({ ok: 1, cases, distinct: seen.size, samples });
process.exit(0);
