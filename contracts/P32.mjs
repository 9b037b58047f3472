// The trace of tool calls in a session.
import { S, undef, I, seq, within, Unsupported } from './prelude.mjs';

const MR = 'packages/vlossom-mcp/src/utils/mcp-response.ts';
const get = (E, o, k) => E.force(E.getProp(o, k));
const START = ['search_vlossom', 'scaffold_vlossom_code'];
const starts = (t) => S.or(...START.map((n) => S.eq(t, S.str(n))));

/** step i of any session: numbered from 1, linked to an earlier step or to none */
const tool = (i) => S.app('tool', [i], 'Str');
const took = (i) => S.app('took', [i], 'Real');
const linked = (i) => S.app('linked', [i], 'Bool');
const parent = (i) => S.app('parent', [i], 'Int');
const step = (E, i) =>
    E.obj({ step: S.add(i, I(1)), label: S.app('label', [i], 'Str'), tool: tool(i), durationMs: took(i), summary: undef, parentStep: E.decide(linked(i)) ? parent(i) : undef });

/** a session after any number of steps, and the clock */
function session(E) {
    const n = E.nat('n');
    const i = S.bvar('i', 'Int');
    E.assume(S.forall([i], S.implies(S.and(within(i, n), linked(i)), S.and(S.ge(parent(i), I(1)), S.le(parent(i), i))), [[parent(i)]]));
    const begun = E.choose('begun', 2) === 1;
    const first = E.int('initiator');
    if (begun) E.assume(S.and(S.ge(first, I(1)), S.le(first, n)));
    const last = E.input('last', 'Real');
    const state = E.obj({ steps: E.arr(seq(n, (k) => step(E, k))), lastActivityMs: last, ...(begun ? { initiatorStep: first } : {}) });
    const now = { t: E.input('now', 'Real') };
    E.globals.set('Date', E.obj({ now: E.native('now', () => now.t) }));
    E.get(MR, 'recordStep');
    E.setModule(MR, 'session', state);
    return { n, begun, first, last, now };
}
const record = (E, ...a) => {
    const r = E.call(E.get(MR, 'recordStep'), a);
    return { steps: E.seqOf(get(E, r, 'steps')), tools: E.seqOf(get(E, r, 'toolsUsed')), total: get(E, r, 'totalDurationMs') };
};
/** the trace is well formed: numbered without gaps, links only backwards */
function wellFormed(E, what, steps) {
    const k = E.fresh('k', 'Int');
    if (!E.decide(within(k, steps.len))) return;
    const s = steps.at(k);
    E.ensure(what + ': numbered without gaps', S.eq(get(E, s, 'step'), S.add(k, I(1))));
    const p = get(E, s, 'parentStep');
    E.ensure(what + ': linked to an earlier step or to none', p.k === 'undef' ? S.TRUE : S.and(S.ge(p, I(1)), S.le(p, k)));
}

export const contracts = [
    {
        name: 'a step is recorded',
        run(E) {
            const s = session(E);
            const timeout = E.input('timeout', 'Real');
            E.call(E.get(MR, 'setSessionTimeoutMs'), [timeout]);
            const [name, label, ms] = [E.str('name'), E.str('what'), E.input('ms', 'Real')];
            const r = record(E, name, label, ms);
            const idle = E.decide(S.gt(S.sub(s.now.t, s.last), timeout));
            const n = idle ? I(0) : s.n;
            E.ensure('a session idle for longer than the limit starts afresh, any other goes on', S.eq(r.steps.len, S.add(n, I(1))));
            wellFormed(E, 'the trace', r.steps);
            const k = E.fresh('j', 'Int');
            if (E.decide(within(k, n))) E.ensure('earlier steps are kept', E.deepEqual(r.steps.at(k), step(E, k)));
            const e = r.steps.at(n);
            E.ensure('the step is the one recorded', S.and(E.same(get(E, e, 'tool'), name), E.same(get(E, e, 'label'), label), E.same(get(E, e, 'durationMs'), ms)));
            const p = get(E, e, 'parentStep');
            const to = E.decide(starts(name)) ? null : !idle && s.begun ? s.first : null;
            E.ensure('linked to the last starting step', to ? E.same(p, to) : E.isUndef(p));
        },
    },
    {
        name: 'two steps in a row',
        run(E) {
            const s = session(E);
            E.call(E.get(MR, 'setSessionTimeoutMs'), [E.input('timeout', 'Real')]);
            E.assume(S.and(S.le(s.last, s.now.t), S.le(S.sub(s.now.t, s.last), E.input('timeout', 'Real'))));
            const [a, b] = [E.str('a'), E.str('b')];
            const r1 = record(E, a, S.str(''), S.real(1));
            const len = r1.steps.len;
            const t1 = s.now.t;
            s.now.t = E.input('later', 'Real');
            E.assume(S.le(S.sub(s.now.t, t1), E.input('timeout', 'Real')));
            const r2 = record(E, b, S.str(''), S.real(1));
            E.ensure('the trace grows by one', S.eq(r2.steps.len, S.add(s.n, I(2))));
            E.ensure('an answer already given stays as it is', S.eq(len, S.add(s.n, I(1))));
            wellFormed(E, 'the trace', r2.steps);
            const p = get(E, r2.steps.at(S.add(s.n, I(1))), 'parentStep');
            const to = E.decide(starts(b)) ? null : E.decide(starts(a)) ? S.add(s.n, I(1)) : s.begun ? s.first : null;
            E.ensure('linked to the last starting step', to ? E.same(p, to) : E.isUndef(p));
        },
    },
    {
        name: 'totals and tools used',
        run(E) {
            E.wholeLists = true;
            const s = session(E);
            E.assume(S.le(s.now.t, s.last));
            E.call(E.get(MR, 'setSessionTimeoutMs'), [S.real(0)]);
            const name = E.str('name');
            const ms = E.input('ms', 'Real');
            const r = record(E, name, S.str(''), ms);
            const names = seq(S.add(s.n, I(1)), (i) => S.ite(S.eq(i, s.n), name, tool(i)));
            const distinct = E.setFromSeq(names).keys;
            E.relateCounts?.(distinct);
            E.ensure('as many entries as different tools', S.eq(r.tools.len, distinct.len));
            const k = E.fresh('k', 'Int');
            // the sum of the times, by induction over the steps
            const sum = (i) => S.app('sum', [i], 'Real');
            const j = S.bvar('j', 'Int');
            E.assume(S.eq(sum(I(0)), S.real(0)));
            E.assume(S.forall([j], S.implies(within(j, names.len), S.eq(sum(S.add(j, I(1))), S.add(sum(j), S.ite(S.eq(j, s.n), ms, took(j))))), [[sum(j)]]));
            const acc = (E.ghost.states ?? []).find((x) => E.known(S.eq(S.toReal(x.X(x.n)), S.toReal(r.total))));
            if (!acc) throw new Unsupported('total of unknown origin');
            E.ensure('every step is counted', S.eq(acc.n, names.len));
            E.induct('the total so far', acc.n, (i) => S.eq(S.toReal(acc.X(i)), sum(i)));
            E.ensure('the total is the sum of the times', S.eq(S.toReal(r.total), sum(names.len)));
            if (E.decide(within(k, distinct.len))) {
                const q = distinct.at(k);
                for (const define of E.ghost.tallies ?? []) define(q);
                const times = E.filterSeq(names, (i) => S.eq(names.at(i), q)).len;
                E.ensure('each tool with the number of its steps', S.eq(r.tools.at(k), S.ite(S.gt(times, I(1)), S.strCat(S.strCat(q, S.str(' ×')), E.toStr(times)), q)));
            }
        },
    },
    {
        name: 'starting afresh',
        run(E) {
            session(E);
            E.call(E.get(MR, 'resetSession'), []);
            const name = E.str('name');
            const r = record(E, name, E.str('what'), E.input('ms', 'Real'));
            E.ensure('step one', S.eq(r.steps.len, I(1)));
            E.ensure('numbered one', S.eq(get(E, r.steps.at(I(0)), 'step'), I(1)));
            E.ensure('linked to none', E.isUndef(get(E, r.steps.at(I(0)), 'parentStep')));
            E.ensure('one tool', S.and(S.eq(r.tools.len, I(1)), E.same(r.tools.at(I(0)), name)));
        },
    },
];
