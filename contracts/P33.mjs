// Fetching with a bounded number of workers: each worker proved against any interference of the others.
import { S, undef, I, Unsupported, within } from './prelude.mjs';
import { Suspend, JsThrow } from '../engine/exec.mjs';

const GR = 'packages/vlossom-mcp/src/services/github-registry-service.ts';
const item = (i) => S.app('item', [i], 'Val');
const value = (i) => S.app('value', [i], 'Val');

/** starts the pool without running its workers: the workers' function, their number, and the list returned */
function start(E, some = true) {
    const n = E.nat('n');
    if (some) E.assume(S.ge(n, I(1)));
    const limit = E.int('limit');
    const calls = [];
    const mapper = E.native('mapper', ([x, i]) => {
        calls.push({ x: E.force(x), i: E.force(i), waiting: true });
        const p = E.pendingPromise();
        p.call = calls.length - 1;
        return p;
    });
    // an asynchronous function started inside the pool is a worker; it is not run here
    let workers = null;
    const pool = E.own(GR, 'mapWithConcurrency');
    const running = E.pendingPromise();
    E.asyncHook = (fn) => {
        if (fn.node === pool.node) return undefined;
        if (workers && workers.fn.node !== fn.node) throw new Unsupported('workers of two kinds');
        workers ??= { fn };
        return running;
    };
    const all = E.pendingPromise();
    let length = null;
    const P = E.globals.get('Promise');
    P.props.set('all', E.native('all', ([list]) => {
        if (length) throw new Unsupported('workers waited for more than once');
        length = E.seqOf(E.force(list)).len;
        return all;
    }));
    E.awaitHook = (v) => {
        if (v === all) return E.arr([]);
        return undefined;
    };
    const r = E.awaitValue(E.call(pool, [E.arr({ k: 'seq', len: n, at: item }), limit, mapper]));
    E.asyncHook = null;
    if (!length) throw new Unsupported('no workers');
    if (some && !workers) throw new Unsupported('no workers');
    return { n, limit, calls, workers: { fn: workers?.fn, length }, results: r };
}
/** the variables a worker shares with the others: those one run changes */
function shared(E, s) {
    const envs = [];
    for (let e = s.workers.fn.env; e && !e.module; e = e.parent) envs.push(e);
    const before = envs.map((e) => new Map(e.f));
    s.calls.length = 0;
    E.awaitHook = () => {
        throw new Suspend();
    };
    E.call(s.workers.fn, [undef, I(0)]);
    const out = [];
    envs.forEach((e, i) => {
        for (const [k, v] of e.f) if (before[i].get(k) !== v) out.push({ e, k, was: before[i].get(k) });
    });
    s.calls.length = 0;
    return out;
}

export const contracts = [
    {
        name: 'the number of workers',
        run(E) {
            const s = start(E, false);
            const w = s.workers.length;
            E.ensure('no more than the limit', S.le(w, S.max(s.limit, I(1))));
            E.ensure('none without items, one at least with some', S.eq(S.ge(w, I(1)), S.ge(s.n, I(1))));
            E.ensure('one result per item', S.eq(E.seqOf(s.results).len, s.n));
            E.ensure('nothing processed before the workers start', S.bool(s.calls.length === 0));
        },
    },
    {
        name: 'a worker among others',
        run(E) {
            const s = start(E);
            E.unroll = 4;
            const vars = shared(E, s);
            if (vars.length !== 1) throw new Unsupported(`workers share ${vars.length} variables`);
            const [c] = vars;
            E.ensure('the first item first', S.eq(c.was, I(0)));
            const next = () => E.force(c.e.f.get(c.k));
            // any moment: the items before k are taken
            const any = (name, from) => {
                const k = E.fresh(name, 'Int');
                E.assume(S.ge(k, from));
                E.write(c.e, c.k, k);
                return k;
            };
            let k = any('taken', I(0));
            // results of the others: anything
            const other = (i) => S.app('other', [i], 'Val');
            E.write(s.results, '#seq', { k: 'seq', len: s.n, at: other });
            const done = [];
            let step = 0;
            E.awaitHook = (p) => {
                if (p.call === undefined) throw new Unsupported('waits for something else');
                E.ensure('one call per wait', S.bool(s.calls.length === step + 1 && p.call === step));
                const call = s.calls[step++];
                E.ensure('takes the next item', S.eq(call.i, k));
                E.ensure('an item there is', within(call.i, s.n));
                E.ensure('the item goes with its number', E.same(call.x, item(call.i)));
                E.ensure('nobody else takes it', S.eq(next(), S.add(call.i, I(1))));
                if (step === 2) throw new Suspend();
                // meanwhile the others go on
                k = any('later', S.add(call.i, I(1)));
                done.push(call.i);
                return value(call.i);
            };
            const p = E.call(s.workers.fn, [undef, I(0)]);
            const ended = p.f.get('#state').x;
            if (ended === 'resolved') E.ensure('stops only when everything is taken', S.ge(next(), s.n));
            else if (ended !== 'pending') E.ensure('does not fail by itself', S.FALSE);
            E.ensure('leaves what is taken', S.ge(next(), k));
            const out = E.seqOf(s.results);
            E.ensure('still one result per item', S.eq(out.len, s.n));
            const j = E.fresh('j', 'Int');
            if (!E.decide(within(j, s.n))) return;
            E.ensure('each result in the place of its item, the others untouched', E.same(out.at(j), done.length && E.decide(S.eq(j, done[0])) ? value(j) : other(j)));
        },
    },
    {
        name: 'a worker whose item fails',
        run(E) {
            const s = start(E);
            E.unroll = 3;
            const error = E.val('error');
            E.awaitHook = () => {
                throw new JsThrow(error, 'failed item');
            };
            const p = E.call(s.workers.fn, [undef, I(0)]);
            E.ensure('reports the failure', S.bool(p.f.get('#state').x === 'rejected'));
            E.ensure('takes nothing more', S.bool(s.calls.length === 1));
        },
    },
];
export const assumptions = [
    'workers interleave only where they wait (one thread)',
    'a worker keeps nothing from one item to the next but the variables it shares: two rounds from any state stand for all',
    'Promise.all waits for every worker and fails with the first failure',
];
