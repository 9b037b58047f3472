// Symbolic executor over the TypeScript compiler's syntax trees.  One run executes one path; every branch on
// a symbolic condition goes through Engine.decide, and the driver re-runs until all branch choices are covered.
import { createRequire } from 'node:module';
import fs from 'node:fs';
import path from 'node:path';
import * as S from './smt.mjs';
import { Slots, reads, undef, nul, NAN, inf, ABSENT, rec, union, litSeq, seq, catSeq, lift, lower, merge, substV, isTerm, resetHeapNames, heapObjOf, CannotLift } from './values.mjs';
import { Feasibility } from './solve.mjs';

const require = createRequire('/opt/veriftools/node/node_modules/');
export const ts = require('typescript');
const K = ts.SyntaxKind;

export class Unsupported extends Error {}
export class Infeasible extends Error {}
/** an asynchronous function left waiting: thrown by an await hook, its promise stays pending */
export class Suspend extends Error {}
export class JsThrow extends Error {
    constructor(v, where) {
        super('js exception at ' + where);
        this.v = v;
    }
}

export const REPO = process.env.VERIF_REPO || '/repo';
const asts = new Map();
export function parseFile(file) {
    let a = asts.get(file);
    if (a) return a;
    let text = fs.readFileSync(file, 'utf8');
    if (file.endsWith('.vue')) {
        const m = /<script[^>]*lang="ts"[^>]*>([\s\S]*?)<\/script>/.exec(text);
        if (!m) throw new Unsupported('no ts script in ' + file);
        const before = text.slice(0, m.index + m[0].indexOf('>') + 1).split('\n').length - 1;
        text = '\n'.repeat(before) + m[1];
    }
    a = ts.createSourceFile(file, text, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
    asts.set(file, a);
    return a;
}
const exists = new Map();
function isFile(f) {
    let r = exists.get(f);
    if (r === undefined) {
        r = fs.existsSync(f) && fs.statSync(f).isFile();
        exists.set(f, r);
    }
    return r;
}
export function resolveModule(from, spec) {
    let base;
    if (spec.startsWith('@/')) base = path.join(REPO, 'packages/vlossom/src', spec.slice(2));
    else if (spec.startsWith('.')) base = path.resolve(path.dirname(from), spec);
    else return null;
    const c = [base, base + '.ts', base + '/index.ts', base.replace(/\.js$/, '.ts')];
    for (const f of c) if (isFile(f)) return f;
    throw new Unsupported(`cannot resolve ${spec} from ${from}`);
}

export class Env {
    constructor(parent, birth, inBinder) {
        this.f = new Map();
        this.parent = parent;
        this.birth = birth;
        this.inBinder = inBinder;
    }
}

export class Engine {
    constructor({ strings = 'abs', maxPaths = 3000, feasTimeout = 300 } = {}) {
        this.strings = strings;
        this.maxPaths = maxPaths;
        this.feas = new Feasibility(strings, feasTimeout);
        this.obligations = [];
        this.functions = new Set();
        this.assumed = new Set();
        this.paths = 0;
        this.forks = 0;
        this.smoke = [];
        this.inputs = [];
    }
    close() {
        this.feas.close();
    }

    // ---- driver -------------------------------------------------------------------------------
    /** run a contract over every path */
    verify(name, contract) {
        this.contract = name;
        const trail = [];
        let n = 0;
        do {
            if (++n > this.maxPaths) {
                this.obligations.push({ contract: name, label: 'path budget exceeded', facts: [], goal: S.FALSE, unsupported: true });
                break;
            }
            this.paths++;
            this.reset();
            this.trail = trail;
            this.pos = 0;
            try {
                contract(this);
                this.smoke.push({ contract: name, facts: this.facts.map((f) => f.t) });
            } catch (e) {
                if (e instanceof Infeasible) {
                    // this choice of branches cannot occur
                } else if (e instanceof JsThrow) {
                    this.obligation(`no exception (${e.message})`, S.FALSE);
                } else if (e instanceof Unsupported || e instanceof CannotLift) {
                    this.obligation(`inside the supported fragment: ${e.message}`, S.FALSE, { unsupported: true });
                } else throw e;
            }
        } while (this.nextTrail(trail));
    }
    nextTrail(trail) {
        while (trail.length && trail[trail.length - 1].done) trail.pop();
        if (!trail.length) return false;
        const l = trail[trail.length - 1];
        l.val = !l.val;
        l.done = true;
        return true;
    }
    reset() {
        this.facts = [];
        this.journal = [];
        this.birth = 0;
        this.inModule = false;
        this.counter = 0;
        this.binders = [];
        this.depth = 0;
        this.exploring = 0;
        reads.set = null;
        this.modules = new Map();
        this.componentRefs = new Map();
        this.hooks = { mounted: [], beforeMount: [], unmounted: [], beforeUnmount: [], updated: [] };
        this.watchers = [];
        this.deferred = [];
        this.provided = new Map();
        this.injected = new Map();
        this.stubs = new Map();
        this.globals = new Map();
        this.curInputs = [];
        this.awaitHook = null;
        this.unroll = 0;
        this.wholeLists = false;
        this.invariant = null;
        this.tasks = null;
        this.waits = 0;
        this.ghost = {};
        this.lemmas = new Set();
        this.counts = [];
        this.filterMemo = new Map();
        resetHeapNames();
        Engine.install(this);
    }

    // ---- facts and decisions --------------------------------------------------------------------
    assume(t, pc = false) {
        if (t === S.TRUE) return;
        if (t === S.FALSE) throw new Infeasible();
        this.facts.push({ t, pc });
    }
    groundFacts() {
        return this.facts.map((f) => f.t).filter((t) => !hasQuant(t));
    }
    refutable(extra) {
        return this.feas.refuted([...this.groundFacts(), extra]);
    }
    /** branch on a Bool term; returns a JS boolean and records the choice as a path condition */
    decide(c) {
        if (c === S.TRUE) return true;
        if (c === S.FALSE) return false;
        for (const f of this.facts) {
            if (f.t === c) return true;
            if (f.t === S.not(c)) return false;
        }
        let e;
        if (this.pos < this.trail.length) e = this.trail[this.pos];
        else {
            e = { val: true, done: false };
            const q = hasQuant(c);
            if (!q && this.refutable(c)) e = { val: false, done: true };
            else if (!q && this.refutable(S.not(c))) e = { val: true, done: true };
            else if ((q || this.deep) && this.proves(S.not(c), 300)) e = { val: false, done: true };
            else if ((q || this.deep) && this.proves(c, 300)) e = { val: true, done: true };
            else this.forks++;
            this.trail.push(e);
        }
        this.pos++;
        this.facts.push({ t: e.val ? c : S.not(c), pc: true });
        return e.val;
    }
    /** provable now from ground facts (used only to choose simpler encodings) */
    known(c) {
        if (c === S.TRUE) return true;
        if (c === S.FALSE) return false;
        return !hasQuant(c) && this.feas.refuted([...this.groundFacts(), S.not(c)]);
    }
    /** provable now from all facts */
    proves(c, ms = 2500) {
        if (c === S.TRUE) return true;
        if (c === S.FALSE) return false;
        const key = c.id + ':' + this.facts.map((f) => f.t.id).join(',');
        this.proved ??= new Map();
        if (this.proved.has(key)) return this.proved.get(key);
        const t = this.feas.timeout;
        this.feas.timeout = ms;
        try {
            const r = this.feas.refuted([...this.facts.map((f) => f.t), S.not(c)]);
            this.proved.set(key, r);
            return r;
        } finally {
            this.feas.timeout = t;
        }
    }
    /** of the first m entries all are kept, or one of them is dropped (a theorem of counting) */
    prefixKept(r, m) {
        if (!r.filter) return;
        const { cnt, cond } = r.filter;
        const w = this.fresh('drop', 'Int');
        this.assume(S.implies(S.and(S.ge(m, S.int(0)), S.le(m, r.filter.src.len)), S.or(S.eq(cnt(m), m), S.and(S.ge(w, S.int(0)), S.lt(w, m), S.not(cond(w))))));
    }
    /** counting by pointwise equivalent conditions gives the same positions; the equivalence is an obligation */
    relateCounts(spec) {
        if (!spec.filter) return;
        const { cnt, idx, cond, src } = spec.filter;
        const k0 = S.int(0);
        if (this.counts.length < 2 || this.feas.refuted(this.facts.map((f) => f.t))) return;
        for (const c of [...this.counts]) {
            if (c.cnt(k0) === cnt(k0)) continue;
            if (c.n !== src.len && !this.proves(S.eq(c.n, src.len), 300)) continue;
            const i = this.fresh('at', 'Int');
            const eqv = S.implies(S.and(S.ge(i, k0), S.lt(i, src.len)), S.eq(cond(i), c.cond(i)));
            if (!this.proves(eqv, 900)) continue;
            this.ensure('the same entries are kept', eqv);
            const k = this.bvar('Int', 'k');
            this.assume(S.forall([k], S.implies(S.and(S.ge(k, k0), S.le(k, src.len)), S.eq(c.cnt(k), cnt(k))), [[c.cnt(k)], [cnt(k)]]));
            this.assume(S.eq(c.cnt(src.len), cnt(src.len)));
            this.assume(S.forall([k], S.implies(S.and(S.ge(k, k0), S.lt(k, cnt(src.len))), S.eq(c.idx(k), idx(k))), [[c.idx(k)], [idx(k)]]));
        }
    }
    fresh(hint, sort) {
        const n = `${hint}_${this.counter++}`;
        return S.app(n, [...this.binders], sort);
    }
    freshName(hint) {
        return `${hint}_${this.counter++}`;
    }
    /** application of a fresh function symbol, closed over the enclosing binders */
    fun(name, args, sort) {
        return S.app(name, [...this.binders, ...args], sort);
    }
    /** like fun, with the binders enclosing the point of definition rather than of use */
    closed() {
        const bs = [...this.binders];
        return (name, args, sort) => S.app(name, [...bs, ...args], sort);
    }
    bvar(sort = 'Int', hint = 'b') {
        return S.bvar(`${hint}!${this.counter++}`, sort);
    }
    obligation(label, goal, extra = {}) {
        if (goal !== S.TRUE && this.facts.some((f) => f.t === goal)) goal = S.TRUE;
        this.obligations.push({
            contract: this.contract,
            label,
            facts: this.facts.map((f) => f.t),
            goal,
            inputs: [...this.curInputs],
            ...extra,
        });
    }

    // ---- nested exploration -----------------------------------------------------------------------
    /** explore all paths of f from the current state; state is restored afterwards */
    explore(f) {
        const saved = [this.trail, this.pos];
        const out = [];
        const trail = [];
        const jm = this.journal.length;
        const fm = this.facts.length;
        const birth = this.birth;
        const sv = this.saveAux();
        let n = 0;
        this.exploring++;
        try {
        do {
            if (++n > 600) throw new Unsupported('too many paths in nested exploration');
            this.trail = trail;
            this.pos = 0;
            let r = null;
            try {
                r = { v: f() };
            } catch (e) {
                if (e instanceof JsThrow) r = { thrown: e };
                else if (e instanceof Infeasible) r = null;
                else {
                    [this.trail, this.pos] = saved;
                    throw e;
                }
            }
            if (r) {
                const added = this.facts.slice(fm);
                r.pc = S.and(...added.filter((x) => x.pc).map((x) => x.t));
                r.ax = added.filter((x) => !x.pc).map((x) => x.t);
                r.facts = this.facts.map((x) => x.t);
                r.writes = this.collectWrites(jm, birth);
                r.aux = this.auxChanged(sv);
                out.push(r);
            }
            this.undo(jm);
            this.facts.length = fm;
            this.restoreAux(sv);
        } while (this.nextTrail(trail));
        } finally {
            this.exploring--;
        }
        [this.trail, this.pos] = saved;
        return out;
    }
    saveAux() {
        return { w: this.watchers.length, d: this.deferred.length };
    }
    auxChanged(s) {
        return this.watchers.length !== s.w || this.deferred.length !== s.d;
    }
    restoreAux(s) {
        this.watchers.length = s.w;
        this.deferred.length = s.d;
    }
    collectWrites(jm, birth) {
        const m = new Map();
        for (let i = jm; i < this.journal.length; i++) {
            const { o, slot } = this.journal[i];
            if (o.birth > birth) continue;
            let s = m.get(o);
            if (!s) m.set(o, (s = new Map()));
            if (!s.has(slot)) s.set(slot, this.freeze(o.f.has(slot) ? o.f.get(slot) : ABSENT, birth));
        }
        return m;
    }
    undo(jm) {
        while (this.journal.length > jm) {
            const { o, slot, had, old, ver } = this.journal.pop();
            if (had) o.f.set(slot, old);
            else o.f.delete(slot);
            o.f.ver = ver;
        }
    }
    write(o, slot, v) {
        this.journal.push({ o, slot, had: o.f.has(slot), old: o.f.get(slot), ver: o.f.ver });
        o.f.set(slot, v);
    }
    del(o, slot) {
        this.journal.push({ o, slot, had: o.f.has(slot), old: o.f.get(slot), ver: o.f.ver });
        o.f.delete(slot);
    }
    /** value of a computed or watched getter: evaluated again only after something it read has changed */
    cached(holder, f) {
        const c = holder.cache;
        if (c && c.deps.every(([m, v]) => m.ver === v)) {
            if (reads.set) for (const [m] of c.deps) reads.set.add(m);
            return c.v;
        }
        const outer = reads.set;
        const mine = (reads.set = new Set());
        let v;
        try {
            v = f();
        } finally {
            reads.set = outer;
            if (outer) for (const m of mine) outer.add(m);
        }
        // inside a nested exploration the facts about the value are temporary
        if (!this.exploring && !this.binders.length) holder.cache = { v, deps: [...mine].map((m) => [m, m.ver]) };
        return v;
    }
    /** under a binder b with range fact: explore f, close local axioms, return paths */
    underBinder(b, range, f) {
        this.binders.push(b);
        const jm = this.facts.length;
        this.facts.push({ t: range, pc: false, rng: true });
        let paths;
        try {
            paths = this.explore(f);
        } finally {
            this.binders.pop();
            this.facts.splice(jm, 1);
        }
        return paths;
    }
    closeAxioms(b, range, paths) {
        for (const p of paths) {
            for (const a of p.ax) this.assume(S.forall([b], S.implies(S.and(range, p.pc), a)));
        }
    }
    mergePaths(paths, pick = (p) => p.v) {
        if (!paths.length) throw new Unsupported('no feasible path in callback');
        let r = pick(paths[paths.length - 1]);
        for (let i = paths.length - 2; i >= 0; i--) r = merge(paths[i].pc, pick(paths[i]), r);
        return r;
    }
    /** convert objects allocated after `birth` into immutable values */
    freeze(v, birth, seen = new Set()) {
        if (v.k === 'obj') {
            const o = v;
            if (o.birth <= birth) return v;
            if (seen.has(o)) return v;
            seen.add(o);
            if (o.kind === 'arr') return this.freezeSeq(o.f.get('#seq'), birth, seen);
            if (o.kind === 'obj' && (!o.cls || o.rec)) {
                const f = new Map();
                for (const [k, x] of o.f) f.set(k, this.freeze(x, birth, seen));
                return rec(f, o.base);
            }
            if (o.kind === 'promise' && o.f.get('#state')?.x === 'resolved') return rec(new Map([['#settled', this.freeze(o.f.get('#value'), birth, seen)]]));
            return v;
        }
        if (v.k === 'seq') return this.freezeSeq(v, birth, seen);
        if (v.k === 'union') return union(v.c, this.freeze(v.a, birth, seen), this.freeze(v.b, birth, seen));
        return v;
    }
    freezeSeq(s, birth, seen) {
        if (s.lit) return litSeq(s.lit.map((x) => this.freeze(x, birth, seen)));
        if (s.abs) return s;
        if (s.cat) return catSeq(this.freezeSeq(s.cat[0], birth, seen), this.freezeSeq(s.cat[1], birth, seen));
        return s;
    }
    /** evaluate a pure function of an index under a binder; null when it has effects */
    pureAt(len, f, lo = S.int(0)) {
        const b = this.bvar();
        const range = S.and(S.le(lo, b), S.lt(b, len));
        const birth = this.birth;
        const paths = this.underBinder(b, range, () => this.freeze(f(b), birth));
        for (const p of paths) if (p.writes.size || p.aux) return null;
        const ok = [];
        for (const p of paths) {
            if (p.thrown) {
                this.obligations.push({
                    contract: this.contract,
                    label: `no exception in callback (${p.thrown.message})`,
                    facts: p.facts,
                    goal: S.FALSE,
                    inputs: [...this.curInputs],
                });
            } else ok.push(p);
        }
        this.closeAxioms(b, range, ok);
        // paths that leave a loop at an iteration of their own: one of them is taken
        const own = (t) => (t.op === 'app' && /^iters_\d+$/.test(t.x)) || t.args?.some(own);
        if (ok.length > 1 && ok.some((p) => own(p.pc))) this.assume(S.forall([b], S.implies(range, S.or(...ok.map((p) => p.pc)))));
        if (!ok.length) return { b, range, at: () => undef };
        const v = this.mergePaths(ok);
        return { b, range, v, at: (i) => substV(v, new Map([[b, i]])) };
    }

    // ---- heap --------------------------------------------------------------------------------------
    alloc(kind, extra = {}) {
        const id = ++this.birth;
        return { k: 'obj', kind, id, birth: this.inModule ? 0 : id, f: new Slots(), ...extra };
    }
    obj(fields = {}, extra = {}) {
        const o = this.alloc('obj', extra);
        for (const [k, v] of fields instanceof Map ? fields : Object.entries(fields)) o.f.set(k, v);
        return o;
    }
    arr(s) {
        const o = this.alloc('arr');
        o.f.set('#seq', Array.isArray(s) ? litSeq(s) : s);
        return o;
    }
    ref(v) {
        const o = this.alloc('ref');
        o.f.set('value', v);
        return o;
    }
    env(parent) {
        return new Env(parent, this.inModule ? 0 : ++this.birth, this.binders.length > 0);
    }
    native(name, call, extra = {}) {
        return { k: 'fn', native: call, name, ...extra };
    }
    seqOf(v) {
        v = this.force(v);
        if (v.k === 'seq') return v;
        if (v.k === 'obj' && v.kind === 'arr') return v.f.get('#seq');
        if (v.k === 'obj' && v.kind === 'set') return this.setSeq(v);
        if (v.k === 'obj' && v.kind === 'map') return this.mapEntriesSeq(v);
        if (isTerm(v) && v.sort === 'Val') return this.opaqueSeq(v);
        if (isTerm(v) && v.sort === 'Str' && v.op === 'str') return litSeq([...v.x].map((c) => S.str(c)));
        return null;
    }
    opaqueSeq(v) {
        const o = S.sel('vo', v);
        const len = S.app('arrlen', [o], 'Int');
        this.assumeOnce(S.ge(len, S.int(0)));
        return seq(len, (i) => S.app('arrat', [o, i], 'Val'));
    }
    assumeOnce(t) {
        if (this.facts.some((f) => f.t === t)) return;
        this.assume(t);
    }
    force(v) {
        while (v.k === 'union') v = this.decide(v.c) ? v.a : v.b;
        return v;
    }

    // ---- conversions ---------------------------------------------------------------------------------
    truthy(v) {
        switch (v.k) {
            case 'undef':
            case 'null':
            case 'nan':
            case 'absent':
                return S.FALSE;
            case 'obj':
            case 'fn':
            case 'rec':
            case 'seq':
            case 'class':
            case 'inf':
            case 'sym':
            case 'regex':
            case 'ns':
                return S.TRUE;
            case 'union':
                return S.ite(v.c, this.truthy(v.a), this.truthy(v.b));
            case 't':
                switch (v.sort) {
                    case 'Bool':
                        return v;
                    case 'Int':
                    case 'Real':
                        return S.not(S.eq(v, v.sort === 'Int' ? S.int(0) : S.real(0)));
                    case 'Str':
                        return S.not(S.eq(v, S.str('')));
                    case 'Val':
                        return S.or(
                            S.and(S.is('vbool', v), S.sel('vb', v)),
                            S.and(S.is('vnum', v), S.not(S.eq(S.sel('vn', v), S.real(0)))),
                            S.and(S.is('vstr', v), S.not(S.eq(S.sel('vs', v), S.str('')))),
                            S.is('vobj', v),
                            S.is('vinf', v),
                        );
                }
        }
        throw new Unsupported('truthiness of ' + v.k);
    }
    typeofTerm(v) {
        switch (v.k) {
            case 'undef':
            case 'absent':
                return S.str('undefined');
            case 'null':
            case 'obj':
            case 'rec':
            case 'seq':
            case 'regex':
                return S.str('object');
            case 'fn':
            case 'class':
                return S.str('function');
            case 'sym':
                return S.str('symbol');
            case 'nan':
            case 'inf':
                return S.str('number');
            case 'union':
                return S.ite(v.c, this.typeofTerm(v.a), this.typeofTerm(v.b));
            case 't':
                switch (v.sort) {
                    case 'Bool':
                        return S.str('boolean');
                    case 'Int':
                    case 'Real':
                        return S.str('number');
                    case 'Str':
                        return S.str('string');
                    case 'Val':
                        return S.ite(
                            S.is('undef', v),
                            S.str('undefined'),
                            S.ite(
                                S.is('vbool', v),
                                S.str('boolean'),
                                S.ite(
                                    S.or(S.is('vnum', v), S.is('vnan', v), S.is('vinf', v)),
                                    S.str('number'),
                                    S.ite(
                                        S.is('vstr', v),
                                        S.str('string'),
                                        S.ite(
                                            S.and(S.is('vobj', v), S.app('isfn', [S.sel('vo', v)], 'Bool')),
                                            S.str('function'),
                                            S.str('object'),
                                        ),
                                    ),
                                ),
                            ),
                        );
                }
        }
        throw new Unsupported('typeof ' + v.k);
    }
    /** strict equality as a Bool term */
    eq(a, b) {
        if (a.k === 'absent') a = undef;
        if (b.k === 'absent') b = undef;
        if (a.k === 'union') return S.ite(a.c, this.eq(a.a, b), this.eq(a.b, b));
        if (b.k === 'union') return S.ite(b.c, this.eq(a, b.a), this.eq(a, b.b));
        if (a.k === 'nan' || b.k === 'nan') return S.FALSE;
        if (isTerm(a) && isTerm(b)) {
            if (a.sort === b.sort) {
                const e = S.eq(a, b);
                return a.sort === 'Val' ? S.and(e, S.not(S.is('vnan', a))) : e;
            }
            if (S.isNum(a) && S.isNum(b)) return S.eq(a, b);
            if (a.sort === 'Val' || b.sort === 'Val') return S.eq(lift(a), lift(b));
            return S.FALSE;
        }
        if (a.k === 'obj' && b.k === 'obj') return S.bool(a === b);
        const val = (x) => isTerm(x) && x.sort === 'Val';
        if (val(a) || val(b)) {
            const o = val(a) ? b : a;
            const v = val(a) ? a : b;
            if (o.k === 'undef') return S.is('undef', v);
            if (o.k === 'null') return S.is('nul', v);
            if (o.k === 'obj') return S.eq(v, lift(o));
            if (o.k === 'inf') return S.eq(v, lift(o));
            if (o.k === 'fn' || o.k === 'class') return S.FALSE;
            throw new Unsupported('equality of a value with ' + o.k);
        }
        if (a.k === 'inf' && b.k === 'inf') return S.bool(a.pos === b.pos);
        if (a.k !== b.k) return S.FALSE;
        if (a.k === 'undef' || a.k === 'null') return S.TRUE;
        if (a.k === 'fn') return S.bool(a === b || (a.node && a.node === b.node && a.env === b.env && a.thisVal === b.thisVal));
        if (a.k === 'class' || a.k === 'sym') return S.bool(a === b);
        throw new Unsupported('identity comparison of ' + a.k);
    }
    isNullish(v) {
        switch (v.k) {
            case 'undef':
            case 'null':
            case 'absent':
                return S.TRUE;
            case 'union':
                return S.ite(v.c, this.isNullish(v.a), this.isNullish(v.b));
            case 't':
                return v.sort === 'Val' ? S.or(S.is('undef', v), S.is('nul', v)) : S.FALSE;
            default:
                return S.FALSE;
        }
    }
    isUndef(v) {
        switch (v.k) {
            case 'undef':
            case 'absent':
                return S.TRUE;
            case 'union':
                return S.ite(v.c, this.isUndef(v.a), this.isUndef(v.b));
            case 't':
                return v.sort === 'Val' ? S.is('undef', v) : S.FALSE;
            default:
                return S.FALSE;
        }
    }
    /** JS number as term, or NAN / inf */
    toNum(v) {
        v = this.force(v);
        switch (v.k) {
            case 'undef':
                return NAN;
            case 'null':
                return S.int(0);
            case 'nan':
            case 'inf':
                return v;
            case 't':
                switch (v.sort) {
                    case 'Int':
                    case 'Real':
                        return v;
                    case 'Bool':
                        return S.ite(v, S.int(1), S.int(0));
                    case 'Str':
                        if (v.op === 'str') {
                            const n = Number(v.x);
                            return Number.isNaN(n) ? NAN : Number.isFinite(n) ? S.num(n) : inf(n > 0);
                        }
                        if (v.op === 'app' && v.x === 'i2s') return v.args[0];
                        if (this.strings === 'smt' && this.decide(this.inRe(v, /^\d+$/))) return S.app('str_to_int', [v], 'Int');
                        if (this.strings === 'smt' && this.decide(S.eq(v, S.str('')))) return S.int(0);
                        if (this.decide(S.app('str_isnum', [v], 'Bool'))) return S.app('str_num', [v], 'Real');
                        return NAN;
                    case 'Val':
                        if (this.decide(S.is('vnum', v))) return S.sel('vn', v);
                        if (this.decide(S.is('undef', v))) return NAN;
                        if (this.decide(S.is('nul', v))) return S.int(0);
                        if (this.decide(S.is('vbool', v))) return S.ite(S.sel('vb', v), S.int(1), S.int(0));
                        if (this.decide(S.is('vnan', v))) return NAN;
                        if (this.decide(S.is('vinf', v))) return inf(this.decide(S.sel('vip', v)));
                        if (this.decide(S.is('vstr', v))) return this.toNum(S.sel('vs', v));
                }
        }
        throw new Unsupported('number conversion of ' + v.k);
    }
    toInt(v) {
        const n = this.toNum(v);
        if (!isTerm(n)) throw new Unsupported('integer expected');
        const i = S.asInt(n);
        if (i) return i;
        const f = S.floor(n);
        if (this.decide(S.eq(S.toReal(f), n))) return f;
        throw new Unsupported('non-integral index');
    }
    toStr(v) {
        if (v.k === 'union') v = this.force(v);
        switch (v.k) {
            case 'undef':
            case 'absent':
                return S.str('undefined');
            case 'null':
                return S.str('null');
            case 'nan':
                return S.str('NaN');
            case 'inf':
                return S.str(v.pos ? 'Infinity' : '-Infinity');
            case 't':
                switch (v.sort) {
                    case 'Str':
                        return v;
                    case 'Int':
                        if (v.op === 'num') return S.str(String(Number(v.x.n)));
                        if (this.strings === 'smt') {
                            this.assumed.add('integers are printed in decimal notation (true below 1e21)');
                            const p = (t) => {
                                const r = S.app('str_from_int', [t], 'Str');
                                this.assumeOnce(S.implies(S.ge0(t), this.inRe(r, /^\d+$/)));
                                return r;
                            };
                            if (this.holds?.(S.ge0(v))) return p(v);
                            return S.ite(S.ge0(v), p(v), S.strCat(S.str('-'), p(S.neg(v))));
                        }
                        return S.app('i2s', [v], 'Str');
                    case 'Real': {
                        const i = S.asInt(v);
                        if (i) return this.toStr(i);
                        if (v.op === 'num') return S.str(String(S.constNum(v)));
                        return S.app('r2s', [v], 'Str');
                    }
                    case 'Bool':
                        return S.ite(v, S.str('true'), S.str('false'));
                    case 'Val':
                        return S.ite(S.is('vstr', v), S.sel('vs', v), S.app('v2s', [v], 'Str'));
                    case 'Obj':
                        return S.app('v2s', [lift(v)], 'Str');
                }
                break;
            case 'obj':
                return S.app('v2s', [lift(v)], 'Str');
            case 'rec':
                return S.str('[object Object]');
            case 'seq':
                return this.fresh('joined', 'Str');
        }
        throw new Unsupported('string conversion of ' + v.k);
    }
    throwType(msg) {
        const o = this.obj({ message: S.str(msg), name: S.str('TypeError') });
        o.errorKind = 'TypeError';
        throw new JsThrow(o, msg);
    }

    // ---- modules ---------------------------------------------------------------------------------------
    load(rel) {
        const file = path.isAbsolute(rel) ? rel : path.join(REPO, rel);
        let m = this.modules.get(file);
        if (m) return m;
        const sf = parseFile(file);
        m = { k: 'ns', file, env: new Env(null, 0, false), thunks: new Map(), exports: new Map(), stars: [], sf };
        m.env.module = m;
        this.modules.set(file, m);
        const bind = (name, thunk) => m.thunks.set(name, thunk);
        for (const st of sf.statements) {
            const exported = st.modifiers?.some((x) => x.kind === K.ExportKeyword);
            const isDefault = st.modifiers?.some((x) => x.kind === K.DefaultKeyword);
            const exp = (n) => {
                if (exported) m.exports.set(isDefault ? 'default' : n, () => this.lookup(m.env, n));
            };
            switch (st.kind) {
                case K.ImportDeclaration: {
                    const spec = st.moduleSpecifier.text;
                    const ic = st.importClause;
                    if (!ic || ic.isTypeOnly) break;
                    if (ic.name) bind(ic.name.text, () => this.importFrom(file, spec, 'default'));
                    const nb = ic.namedBindings;
                    if (nb?.kind === K.NamespaceImport) bind(nb.name.text, () => this.importNs(file, spec));
                    else if (nb)
                        for (const el of nb.elements) {
                            if (el.isTypeOnly) continue;
                            bind(el.name.text, () => this.importFrom(file, spec, (el.propertyName ?? el.name).text));
                        }
                    break;
                }
                case K.FunctionDeclaration:
                    if (!st.body) break;
                    bind(st.name?.text ?? 'default', () => this.closure(st, m.env, null, st.name?.text));
                    exp(st.name?.text ?? 'default');
                    break;
                case K.ClassDeclaration:
                    bind(st.name.text, () => this.makeClass(st, m.env));
                    exp(st.name.text);
                    break;
                case K.EnumDeclaration:
                    bind(st.name.text, () => this.makeEnum(st, m.env));
                    exp(st.name.text);
                    break;
                case K.VariableStatement:
                    for (const d of st.declarationList.declarations) {
                        if (d.name.kind === K.Identifier) {
                            bind(d.name.text, () => (d.initializer ? this.named(this.expr(d.initializer, m.env), d.name.text) : undef));
                            exp(d.name.text);
                        } else {
                            const names = [];
                            collectNames(d.name, names);
                            for (const n of names) {
                                bind(n, () => {
                                    const tmp = this.env(m.env);
                                    this.bindPattern(d.name, this.expr(d.initializer, m.env), tmp, true);
                                    for (const x of names) m.env.f.set(x, tmp.f.get(x));
                                    return tmp.f.get(n);
                                });
                                exp(n);
                            }
                        }
                    }
                    break;
                case K.ExportDeclaration:
                    if (st.isTypeOnly) break;
                    if (!st.exportClause) m.stars.push(st.moduleSpecifier.text);
                    else if (st.exportClause.kind === K.NamespaceExport) {
                        const sp = st.moduleSpecifier.text;
                        m.exports.set(st.exportClause.name.text, () => this.importNs(file, sp));
                    } else
                        for (const el of st.exportClause.elements) {
                            const src = (el.propertyName ?? el.name).text;
                            if (st.moduleSpecifier) {
                                const sp = st.moduleSpecifier.text;
                                m.exports.set(el.name.text, () => this.importFrom(file, sp, src));
                            } else m.exports.set(el.name.text, () => this.lookup(m.env, src));
                        }
                    break;
                case K.ExportAssignment:
                    m.thunks.set('#default', () => this.expr(st.expression, m.env));
                    m.exports.set('default', () => this.lookup(m.env, '#default'));
                    break;
                case K.ExpressionStatement:
                    // top-level effects are outside the fragment; a statement without effect is not
                    if (![K.VoidExpression, K.StringLiteral, K.NumericLiteral, K.Identifier].includes(st.expression.kind)) throw new Unsupported('top-level statement in ' + file);
                    break;
                case K.InterfaceDeclaration:
                case K.TypeAliasDeclaration:
                case K.ModuleDeclaration:
                case K.EmptyStatement:
                    break;
                default:
                    throw new Unsupported('top-level statement in ' + file);
            }
        }
        return m;
    }
    exportOf(m, name) {
        const key = '@' + name;
        if (m.cache?.has(key)) return m.cache.get(key);
        let v;
        if (m.exports.has(name)) v = m.exports.get(name)();
        else
            for (const sp of m.stars) {
                const f = resolveModule(m.file, sp);
                if (!f) continue;
                if (f.endsWith('.vue')) continue;
                v = this.exportOf(this.load(f), name);
                if (v !== undefined) break;
            }
        if (v !== undefined) (m.cache ??= new Map()).set(key, v);
        return v;
    }
    importFrom(file, spec, name) {
        const f = resolveModule(file, spec);
        if (f === null) {
            const ext = this.externals.get(spec);
            if (!ext) throw new Unsupported(`external module ${spec}`);
            const v = ext['*'] ? ext['*'](name) : ext[name];
            if (v === undefined) throw new Unsupported(`external ${spec}.${name}`);
            return v;
        }
        const key = path.relative(REPO, f) + '#' + name;
        if (this.stubs.has(key)) return this.stubs.get(key);
        if (f.endsWith('.vue') && name === 'default') return this.componentRef(f);
        const v = this.exportOf(this.load(f), name);
        if (v === undefined) throw new Unsupported(`no export ${name} in ${f}`);
        return v;
    }
    /** a component used as a value by another module: identity and name only */
    componentRef(f) {
        let o = this.componentRefs.get(f);
        if (!o) {
            o = this.obj({ name: S.str(path.basename(f, '.vue')) });
            o.component = path.relative(REPO, f);
            this.componentRefs.set(f, o);
        }
        return o;
    }
    importNs(file, spec) {
        const f = resolveModule(file, spec);
        if (f === null) {
            const ext = this.externals.get(spec);
            if (!ext) throw new Unsupported(`external module ${spec}`);
            return this.obj(ext);
        }
        return this.load(f);
    }
    /** exported value of a repo file, for contracts */
    get(rel, name) {
        const v = this.exportOf(this.load(rel), name);
        if (v === undefined) throw new Unsupported(`no export ${name} in ${rel}`);
        return v;
    }
    /** module-level (possibly not exported) binding, for contracts */
    top(rel, name) {
        const m = this.load(rel);
        if (!m.thunks.has(name)) throw new Unsupported(`no top-level ${name} in ${rel}`);
        return this.lookup(m.env, name);
    }
    hasTop(rel, name) {
        return this.load(rel).thunks.has(name);
    }

    lookup(env, name) {
        let e = env;
        for (; e; e = e.parent) {
            if (e.f.has(name)) {
                const v = e.f.get(name);
                if (v === undefined) throw new Unsupported('TDZ ' + name);
                return v;
            }
            if (e.module?.thunks.has(name)) return this.initBinding(e, name);
        }
        if (this.globals.has(name)) return this.globals.get(name);
        throw new Unsupported('unbound name ' + name);
    }
    /** lazy module binding: evaluated once, outside of any binder, and not an effect of the program */
    initBinding(e, name) {
        const saved = [this.journal, this.binders, this.inModule];
        this.journal = [];
        this.binders = [];
        this.inModule = true;
        try {
            const v = e.module.thunks.get(name)();
            e.f.set(name, v);
            return v;
        } finally {
            [this.journal, this.binders, this.inModule] = saved;
        }
    }
    assignVar(env, name, v) {
        for (let e = env; e; e = e.parent) {
            if (e.f.has(name)) {
                if (e.module) {
                    this.write(e, name, v);
                    return;
                }
                this.write(e, name, v);
                return;
            }
            if (e.module?.thunks.has(name)) {
                this.lookup(e, name);
                this.write(e, name, v);
                return;
            }
        }
        throw new Unsupported('assignment to unbound ' + name);
    }
    named(v, name) {
        if (v.k === 'fn' && !v.name) v.name = name;
        return v;
    }
    closure(node, env, thisVal, name) {
        return { k: 'fn', node, env, thisVal, name, arrow: node.kind === K.ArrowFunction };
    }

    // ---- classes -----------------------------------------------------------------------------------------
    makeClass(node, env) {
        const cls = { k: 'class', node, name: node.name?.text, methods: new Map(), getters: new Map(), setters: new Map(), statics: null, fields: [], ctor: null, base: null, env };
        cls.statics = this.alloc('statics');
        const h = node.heritageClauses?.find((c) => c.token === K.ExtendsKeyword);
        if (h) {
            cls.base = this.expr(h.types[0].expression, env);
            if (cls.base.k !== 'class') throw new Unsupported('extends of non-class');
        }
        for (const m of node.members) {
            const isStatic = m.modifiers?.some((x) => x.kind === K.StaticKeyword);
            const nm = m.name ? this.propName(m.name, env) : null;
            switch (m.kind) {
                case K.Constructor:
                    if (m.body) cls.ctor = m;
                    break;
                case K.MethodDeclaration:
                    if (!m.body) break;
                    if (isStatic) cls.statics.f.set(nm, this.closure(m, env, cls, nm));
                    else cls.methods.set(nm, m);
                    break;
                case K.GetAccessor:
                    if (isStatic) throw new Unsupported('static getter');
                    cls.getters.set(nm, m);
                    break;
                case K.SetAccessor:
                    cls.setters.set(nm, m);
                    break;
                case K.PropertyDeclaration:
                    if (isStatic) {
                        if (m.initializer) {
                            const e2 = this.env(env);
                            e2.f.set('this', cls);
                            cls.statics.f.set(nm, this.expr(m.initializer, e2));
                        } else cls.statics.f.set(nm, undef);
                    } else cls.fields.push([nm, m.initializer]);
                    break;
                default:
                    break;
            }
        }
        return cls;
    }
    makeEnum(node, env) {
        const o = this.obj();
        let next = 0;
        const e2 = this.env(env);
        for (const m of node.members) {
            const nm = this.propName(m.name, env);
            let v;
            if (m.initializer) v = this.expr(m.initializer, e2);
            else v = S.int(next);
            e2.f.set(nm, v);
            o.f.set(nm, v);
            if (isTerm(v) && v.op === 'num') {
                next = S.constNum(v) + 1;
                o.f.set(String(S.constNum(v)), S.str(nm));
            }
        }
        // integer-like keys come first in JS key order
        const ints = [...o.f].filter(([k]) => /^\d+$/.test(k));
        const rest = [...o.f].filter(([k]) => !/^\d+$/.test(k));
        o.f = new Map([...ints, ...rest]);
        return o;
    }
    construct(cls, args, node) {
        cls = this.force(cls);
        if (cls.k === 'fn' && cls.construct) return cls.construct(args, node);
        if (cls.k !== 'class') throw new Unsupported('new on ' + cls.k + ' ' + (cls.name ?? ''));
        const o = this.alloc('obj', { cls });
        this.initInstance(cls, o, args);
        return o;
    }
    initInstance(cls, o, args) {
        const fieldInit = (c) => {
            for (const [nm, init] of c.fields) {
                const e2 = this.env(c.env);
                e2.f.set('this', o);
                this.write(o, nm, init ? this.named(this.expr(init, e2), nm) : undef);
            }
        };
        if (!cls.base) fieldInit(cls);
        if (cls.ctor) {
            const fn = this.closure(cls.ctor, cls.env, o, 'constructor');
            fn.superInit = cls.base
                ? (a) => {
                      this.initInstance(cls.base, o, a);
                      fieldInit(cls);
                  }
                : null;
            // parameter properties
            const e2 = this.env(cls.env);
            e2.f.set('this', o);
            e2.superInit = fn.superInit;
            e2.superCls = cls.base;
            this.bindParams(cls.ctor, args, e2);
            for (const p of cls.ctor.parameters)
                if (p.modifiers?.some((x) => [K.PrivateKeyword, K.PublicKeyword, K.ProtectedKeyword, K.ReadonlyKeyword].includes(x.kind)))
                    this.write(o, p.name.text, e2.f.get(p.name.text));
            this.note(cls.ctor, e2);
            this.block(cls.ctor.body, e2);
        } else if (cls.base) {
            this.initInstance(cls.base, o, args);
            fieldInit(cls);
        }
    }
    findMember(cls, kind, name) {
        for (let c = cls; c; c = c.base) if (c[kind].has(name)) return [c[kind].get(name), c];
        return null;
    }

    // ---- calls ----------------------------------------------------------------------------------------------
    note(node, env) {
        const sf = node.getSourceFile();
        let nm = node.name?.getText?.() ?? (node.kind === K.Constructor ? 'constructor' : null);
        if (!nm && node.parent?.name && (node.parent.kind === K.VariableDeclaration || node.parent.kind === K.PropertyAssignment)) nm = node.parent.name.getText();
        const pc = node.parent?.kind === K.ClassDeclaration ? node.parent.name.text + '.' : '';
        if (nm) this.functions.add(path.relative(REPO, sf.fileName) + '#' + pc + nm);
    }
    call(fn, args = [], thisVal = undef) {
        fn = this.force(fn);
        if (isTerm(fn) && fn.sort === 'Val') {
            if (this.opaqueCall) return this.opaqueCall(fn, args);
            throw new Unsupported('call of an opaque value');
        }
        if (fn.k === 'undef' || fn.k === 'null') this.throwType('call of ' + fn.k);
        if (fn.k !== 'fn') throw new Unsupported('call of ' + fn.k);
        if (fn.native) return fn.native(args, thisVal);
        if (fn.substs) {
            let r = this.callClosure(fn, args, thisVal);
            for (const m of fn.substs) r = substV(r, m);
            return r;
        }
        return this.callClosure(fn, args, thisVal);
    }
    callClosure(fn, args, thisVal) {
        const node = fn.node;
        const key = this.fnKey(node);
        if (key && this.stubs.has('call:' + key) && !this.inStub?.has(key)) {
            const s = this.stubs.get('call:' + key);
            return s(args, fn.thisVal ?? thisVal, () => this.callBody(fn, args, thisVal));
        }
        return this.callBody(fn, args, thisVal);
    }
    fnKey(node) {
        if (node.tsvcKey === undefined) {
            const nm = node.name?.getText?.();
            node.tsvcKey = nm ? path.relative(REPO, node.getSourceFile().fileName) + '#' + (node.parent?.kind === K.ClassDeclaration ? node.parent.name.text + '.' : '') + nm : null;
        }
        return node.tsvcKey;
    }
    callBody(fn, args, thisVal) {
        const node = fn.node;
        if (++this.depth > 80) {
            throw new Unsupported('recursion too deep at ' + fn.name);
        }
        try {
            this.note(node, fn.env);
            const env = this.env(fn.env);
            if (!fn.arrow) env.f.set('this', fn.thisVal ?? thisVal);
            if (fn.superCls) env.superCls = fn.superCls;
            if (!fn.arrow && node.body && usesArguments(node)) env.f.set('arguments', this.arr(args));
            const isAsync = node.modifiers?.some((m) => m.kind === K.AsyncKeyword);
            if (node.asteriskToken) throw new Unsupported('generator function');
            const body = () => {
                this.bindParams(node, args, env);
                if (node.body.kind !== K.Block) return this.expr(node.body, env);
                const c = this.block(node.body, env, true);
                return c && c.type === 'return' ? c.v : undef;
            };
            if (!isAsync) return body();
            if (this.asyncHook) {
                const r = this.asyncHook(fn, args);
                if (r !== undefined) return r;
            }
            return this.runAsync(body);
        } finally {
            this.depth--;
        }
    }
    runAsync(body) {
        const p = this.alloc('promise');
        p.f.set('#state', S.str('pending'));
        const waits = this.waits;
        try {
            let v = body();
            v = this.force(v);
            if (this.waits !== waits) {
                // it had to wait: whoever called it hears of the end later
                this.tasks.push(() => this.fulfil(p, v));
                return p;
            }
            if (v.k === 'obj' && v.kind === 'promise') return v;
            this.write(p, '#state', S.str('resolved'));
            this.write(p, '#value', v);
        } catch (e) {
            if (e instanceof Suspend) return p;
            if (!(e instanceof JsThrow)) throw e;
            if (this.waits !== waits) {
                this.tasks.push(() => this.settlePromise(p, 'rejected', e.v));
                return p;
            }
            this.write(p, '#state', S.str('rejected'));
            this.write(p, '#value', e.v);
            p.err = e;
        }
        return p;
    }
    /** work that completes later: `E.eventLoop()` turns it on, `E.later(outcome)` is a promise settled by it */
    eventLoop() {
        this.tasks = [];
        this.assumed.add('an asynchronous function runs to its end before its caller goes on; its promise settles later; requests do not overlap otherwise');
    }
    later(state, v) {
        const p = this.pendingPromise();
        this.tasks.push(() => this.settlePromise(p, state, v));
        return p;
    }
    settlePromise(p, state, v) {
        if (p.f.get('#state').x !== 'pending') return;
        this.write(p, '#state', S.str(state));
        this.write(p, '#value', v);
        for (const r of p.reactions ?? []) r();
    }
    /** resolve with a value or with whatever a promise becomes */
    fulfil(p, v) {
        v = this.force(v);
        if (!(v.k === 'obj' && v.kind === 'promise')) return this.settlePromise(p, 'resolved', v);
        const st = v.f.get('#state').x;
        if (st === 'pending') (v.reactions ??= []).push(() => this.fulfil(p, v));
        else this.settlePromise(p, st, v.f.get('#value'));
    }
    awaitValue(v, node) {
        v = this.force(v);
        if (this.awaitHook) {
            const r = this.awaitHook(v, node);
            if (r !== undefined) return r;
        }
        if (v.k === 'rec' && v.fields.has('#settled')) return v.fields.get('#settled');
        if (v.k === 'obj' && v.kind === 'promise') {
            if (this.tasks && v.f.get('#state').x === 'pending') {
                this.waits++;
                while (this.tasks.length && v.f.get('#state').x === 'pending') this.tasks.shift()();
            }
            const st = v.f.get('#state');
            if (st.x === 'resolved') return v.f.get('#value');
            if (st.x === 'rejected') throw new JsThrow(v.f.get('#value'), 'awaited rejection' + (v.err ? ': ' + v.err.message : ''));
            throw new Unsupported('await of a pending promise without a contract');
        }
        if (isTerm(v) && v.sort === 'Val') throw new Unsupported('await of an opaque value without a contract');
        return v;
    }
    bindParams(node, args, env) {
        node.parameters.forEach((p, i) => {
            if (p.name.kind === K.Identifier && p.name.text === 'this') return;
            let v;
            if (p.dotDotDotToken) {
                let s = litSeq([]);
                if (args.rest) s = i <= args.length ? catSeq(litSeq(args.slice(i)), args.rest) : null;
                else s = litSeq(args.slice(i));
                if (!s) throw new Unsupported('spread argument binding');
                v = this.arr(s);
            } else {
                if (i >= args.length && args.rest) throw new Unsupported('spread argument binding');
                v = i < args.length ? args[i] : undef;
                if (p.initializer) v = this.defaulted(v, () => this.named(this.expr(p.initializer, env), p.name.text));
            }
            this.bindPattern(p.name, v, env, true);
        });
    }
    defaulted(v, f) {
        const u = this.isUndef(v);
        if (u === S.FALSE) return v;
        if (u === S.TRUE) return f();
        return this.decide(u) ? f() : this.refine(v);
    }
    /** drop union branches excluded by the path */
    refine(v) {
        if (v.k === 'union') return this.force(v);
        return v;
    }
    bindPattern(pat, v, env, declare) {
        if (pat.kind === K.Identifier) {
            if (declare) env.f.set(pat.text, v);
            else this.assignVar(env, pat.text, v);
            return;
        }
        if (pat.kind === K.ObjectBindingPattern) {
            v = this.force(v);
            if (this.decide(this.isNullish(v))) this.throwType('destructuring of nullish');
            const seen = [];
            for (const el of pat.elements) {
                if (el.dotDotDotToken) {
                    const o = this.objectSpread(this.obj(), v);
                    for (const k of seen) {
                        if (typeof k === 'string') o.f.set(k, ABSENT);
                        else this.symbolicWrite(o, k, undef, S.FALSE);
                    }
                    this.bindPattern(el.name, o, env, declare);
                    continue;
                }
                const key = el.propertyName ? this.propName(el.propertyName, env) : el.name.text;
                seen.push(key);
                let x = this.getProp(v, key);
                if (el.initializer) x = this.defaulted(x, () => this.named(this.expr(el.initializer, env), el.name.text));
                this.bindPattern(el.name, x, env, declare);
            }
            return;
        }
        if (pat.kind === K.ArrayBindingPattern) {
            const s = this.seqOf(v);
            if (!s) throw new Unsupported('array destructuring of ' + v.k);
            pat.elements.forEach((el, i) => {
                if (el.kind === K.OmittedExpression) return;
                if (el.dotDotDotToken) {
                    this.bindPattern(el.name, this.arr(this.sliceSeq(s, S.int(i), s.len)), env, declare);
                    return;
                }
                let x = this.index(s, S.int(i));
                if (el.initializer) x = this.defaulted(x, () => this.expr(el.initializer, env));
                this.bindPattern(el.name, x, env, declare);
            });
            return;
        }
        throw new Unsupported('pattern ' + K[pat.kind]);
    }
    propName(n, env) {
        if (n.kind === K.Identifier || n.kind === K.PrivateIdentifier || n.kind === K.StringLiteral || n.kind === K.NumericLiteral || n.kind === K.NoSubstitutionTemplateLiteral)
            return n.text;
        if (n.kind === K.ComputedPropertyName) {
            const v = this.expr(n.expression, env);
            return this.keyOf(v);
        }
        throw new Unsupported('property name ' + K[n.kind]);
    }
    /** JS string for a constant key, or the Str term for a symbolic one */
    keyOf(v) {
        v = this.force(v);
        if (v.k === 'sym') return '@@' + v.name;
        const t = this.toStr(v);
        return t.op === 'str' ? t.x : t;
    }

    // ---- statements ------------------------------------------------------------------------------------------
    hoist(stmts, env) {
        for (const st of stmts) {
            if (st.kind === K.FunctionDeclaration && st.body) env.f.set(st.name.text, this.closure(st, env, undefined, st.name.text));
        }
    }
    block(node, env, noScope = false) {
        const e = noScope ? env : this.env(env);
        this.hoist(node.statements, e);
        for (const st of node.statements) {
            const c = this.stmt(st, e);
            if (c) return c;
        }
        return undefined;
    }
    where(node) {
        const sf = node.getSourceFile();
        const { line } = sf.getLineAndCharacterOfPosition(node.getStart());
        return path.relative(REPO, sf.fileName) + ':' + (line + 1);
    }
    stmt(st, env) {
        switch (st.kind) {
            case K.ExpressionStatement:
                this.expr(st.expression, env);
                return undefined;
            case K.VariableStatement:
                this.varDecl(st.declarationList, env);
                return undefined;
            case K.ReturnStatement:
                return { type: 'return', v: st.expression ? this.expr(st.expression, env) : undef };
            case K.IfStatement:
                if (this.cond(st.expression, env)) return this.stmt(st.thenStatement, env);
                if (st.elseStatement) return this.stmt(st.elseStatement, env);
                return undefined;
            case K.Block:
                return this.block(st, env);
            case K.FunctionDeclaration:
            case K.EmptyStatement:
            case K.InterfaceDeclaration:
            case K.TypeAliasDeclaration:
                return undefined;
            case K.ForStatement:
                return this.forStmt(st, env);
            case K.WhileStatement:
                return this.loop(() => {
                    const c = this.cond(st.expression, env);
                    if (!c) return 'exit';
                    return this.body(st.statement, env);
                });
            case K.DoStatement: {
                let first = true;
                const c0 = this.body(st.statement, env);
                if (c0 !== 'cont') return this.exitOf(c0);
                return this.loop(() => {
                    if (!this.cond(st.expression, env)) return 'exit';
                    return this.body(st.statement, env);
                });
            }
            case K.ForOfStatement:
                return this.forOf(st, env);
            case K.ForInStatement: {
                const o = this.expr(st.expression, env);
                const keys = this.objKeys(o);
                return this.iterate(keys, (k) => {
                    const e = this.env(env);
                    this.bindLoopVar(st.initializer, k, e);
                    return this.body(st.statement, e);
                });
            }
            case K.BreakStatement:
                return { type: 'break', label: st.label?.text };
            case K.ContinueStatement:
                return { type: 'continue', label: st.label?.text };
            case K.ThrowStatement: {
                const v = this.expr(st.expression, env);
                throw new JsThrow(v, this.where(st));
            }
            case K.TryStatement:
                return this.tryStmt(st, env);
            case K.SwitchStatement:
                return this.switchStmt(st, env);
            case K.ClassDeclaration:
                env.f.set(st.name.text, this.makeClass(st, env));
                return undefined;
            case K.LabeledStatement: {
                const c = this.stmt(st.statement, env);
                if (c && c.type === 'break' && c.label === st.label.text) return undefined;
                return c;
            }
        }
        throw new Unsupported('statement ' + K[st.kind] + ' at ' + this.where(st));
    }
    varDecl(list, env) {
        for (const d of list.declarations) {
            const v = d.initializer ? this.expr(d.initializer, env) : undef;
            if (d.name.kind === K.Identifier) {
                this.named(v, d.name.text);
                env.f.set(d.name.text, v);
            } else this.bindPattern(d.name, v, env, true);
        }
    }
    cond(e, env) {
        return this.decide(this.condTerm(e, env));
    }
    /** conditions are built as terms where that needs no fork, so that equivalent spellings give equal paths */
    condTerm(e, env) {
        return this.truthy(this.expr(e, env));
    }
    tryStmt(st, env) {
        let c;
        const fin = () => {
            if (st.finallyBlock) {
                const f = this.block(st.finallyBlock, env);
                if (f) return f;
            }
            return null;
        };
        try {
            c = this.block(st.tryBlock, env);
        } catch (e) {
            if (!(e instanceof JsThrow)) throw e;
            if (!st.catchClause) {
                const f = fin();
                if (f) return f;
                throw e;
            }
            const e2 = this.env(env);
            if (st.catchClause.variableDeclaration) this.bindPattern(st.catchClause.variableDeclaration.name, e.v, e2, true);
            try {
                c = this.block(st.catchClause.block, e2);
            } catch (e3) {
                if (!(e3 instanceof JsThrow)) throw e3;
                const f = fin();
                if (f) return f;
                throw e3;
            }
        }
        const f = fin();
        return f ?? c;
    }
    switchStmt(st, env) {
        const v = this.expr(st.expression, env);
        const e = this.env(env);
        let hit = -1;
        const cs = st.caseBlock.clauses;
        for (let i = 0; i < cs.length && hit < 0; i++)
            if (cs[i].kind === K.CaseClause && this.decide(this.eq(v, this.expr(cs[i].expression, e)))) hit = i;
        if (hit < 0) hit = cs.findIndex((c) => c.kind === K.DefaultClause);
        if (hit < 0) return undefined;
        for (let i = hit; i < cs.length; i++)
            for (const s of cs[i].statements) {
                const c = this.stmt(s, e);
                if (c) {
                    if (c.type === 'break' && !c.label) return undefined;
                    return c;
                }
            }
        return undefined;
    }
    /** one loop body: 'cont', 'exit' or a completion to propagate */
    body(st, env) {
        const c = this.stmt(st, env);
        if (!c) return 'cont';
        if (c.type === 'continue' && !c.label) return 'cont';
        if (c.type === 'break' && !c.label) return 'exit';
        return c;
    }
    exitOf(r) {
        return r === 'exit' ? undefined : r;
    }
    forStmt(st, env) {
        const e = this.env(env);
        if (st.initializer) {
            if (st.initializer.kind === K.VariableDeclarationList) this.varDecl(st.initializer, e);
            else this.expr(st.initializer, e);
        }
        const names = [];
        if (st.initializer?.kind === K.VariableDeclarationList) for (const d of st.initializer.declarations) collectNames(d.name, names);
        return this.loop(() => {
            if (st.condition && !this.cond(st.condition, e)) return 'exit';
            // per-iteration binding of the loop variables
            const it = this.env(e);
            for (const n of names) it.f.set(n, e.f.get(n));
            const c = this.body(st.statement, it);
            for (const n of names) if (it.f.get(n) !== e.f.get(n)) this.write(e, n, it.f.get(n));
            if (c !== 'cont') return c;
            if (st.incrementor) this.expr(st.incrementor, e);
            return 'cont';
        });
    }
    bindLoopVar(init, v, e) {
        if (init.kind === K.VariableDeclarationList) this.bindPattern(init.declarations[0].name, v, e, true);
        else this.assignTo(init, v, e);
    }
    forOf(st, env) {
        if (st.awaitModifier) throw new Unsupported('for await');
        const it = this.expr(st.expression, env);
        const s = this.iterable(it);
        return this.iterate(s, (x) => {
            const e = this.env(env);
            this.bindLoopVar(st.initializer, x, e);
            return this.body(st.statement, e);
        });
    }
    iterable(v) {
        const s = this.seqOf(v);
        if (!s) throw new Unsupported('iteration over ' + v.k);
        return s;
    }
    /** run f on each element in order; f returns 'cont' | 'exit' | completion */
    iterate(s, f) {
        if (s.lit) {
            for (let i = 0; i < s.lit.length; i++) {
                const c = f(s.lit[i], S.int(i));
                if (c !== 'cont') return this.exitOf(c);
            }
            return undefined;
        }
        if (s.cat && s.cat[1].lit && !this.wholeLists) {
            // a known tail: its elements one by one after the rest
            const [head, tail] = s.cat;
            const r = this.iterateAll(head, f);
            if (r !== 'end') return r;
            for (let i = 0; i < tail.lit.length; i++) {
                const c = f(tail.lit[i], S.add(head.len, S.int(i)));
                if (c !== 'cont') return this.exitOf(c);
            }
            return undefined;
        }
        const r = this.iterateAll(s, f);
        return r === 'end' ? undefined : r;
    }
    /** 'end' when every element was visited */
    iterateAll(s, f) {
        return this.summarize((k) => {
            if (!this.decide(S.lt(k, s.len))) return 'end';
            return f(s.at(k), k);
        }, s.len);
    }
    /** general loop: unroll while the decisions are concrete, otherwise summarise */
    loop(run) {
        const inv = this.invariant;
        if (inv && !this.exploring) {
            // an invariant given by the contract: it holds at the start, any iteration keeps it, the end follows from it
            this.invariant = null;
            inv.used = true;
            inv.holds('at the start');
            inv.any();
            const r = run(null);
            if (r === 'cont') {
                inv.holds('after an iteration');
                throw new Infeasible();
            }
            return this.exitOf(r);
        }
        for (let i = 0; i < 70; i++) {
            // bounded contracts run every iteration; a path needing more is outside the bound and fails
            if (this.unroll) {
                if (i >= this.unroll) break;
                const r = run(null);
                if (r !== 'cont') return this.exitOf(r);
                continue;
            }
            // probe: does this iteration need a symbolic decision?
            const probe = this.explore(() => {
                const p0 = this.facts.length;
                const r = run(null);
                return { r, forked: this.facts.slice(p0).some((f) => f.pc) };
            });
            if (probe.length !== 1 || probe[0].thrown || probe[0].v.forked) return this.summarize(run);
            const r = run(null);
            if (r !== 'cont') return this.exitOf(r);
        }
        throw new Unsupported('loop unrolled too often');
    }

    // ---- loop summaries ----------------------------------------------------------------------------------------
    /**
     * Replaces a loop by: n completed iterations, each cell modified by the body given as a function of the
     * iteration number, followed by the one iteration that leaves the loop (guard false, break, return, throw).
     */
    summarize(run, total) {
        const cells = [];
        const find = (o, slot) => cells.find((c) => c.o === o && c.slot === slot);
        const birth0 = this.birth;
        let paths, b, range;
        let n;
        for (let round = 0; ; round++) {
            if (round > 24) throw new Unsupported('loop summary does not stabilise');
            b = this.bvar('Int', 'k');
            range = S.ge(b, S.int(0));
            paths = this.underBinder(b, range, () => {
                for (const c of cells) this.write(c.o, c.slot, c.at(b, this));
                return run(b);
            });
            // effects on not yet tracked cells?
            let grew = false;
            for (const p of paths) {
                if (p.aux) throw new Unsupported('loop body registers watchers or deferred work');
                if (p.thrown || (p.v !== 'cont')) continue;
                for (const [o, slots] of p.writes)
                    for (const slot of slots.keys())
                        if (!find(o, slot)) {
                            const c = this.newCell(o, slot);
                            this.guess(c, slots.get(slot));
                            cells.push(c);
                            grew = true;
                        }
            }
            if (grew) continue;
            let changed = false;
            const cont = paths.filter((p) => !p.thrown && p.v === 'cont');
            for (const c of cells) {
                const upd = cont.map((p) => ({ pc: p.pc, v: p.writes.get(c.o).get(c.slot) }));
                if (this.classify(c, upd, b)) changed = true;
                c.upd = upd;
            }
            if (!changed) break;
        }
        const cont = paths.filter((p) => !p.thrown && p.v === 'cont');
        const goesOn = S.or(...cont.map((p) => p.pc));
        // every element is visited when nothing but the end of the list ends the loop
        const all = (t) => this.known(S.ge(t, S.int(0))) && this.known(S.or(S.lt(b, S.int(0)), S.ge(b, t), goesOn));
        let whole = null;
        if (!hasQuant(goesOn)) {
            if (total) whole = all(total) ? total : null;
            else whole = this.bounds(goesOn, b).find((t) => all(t) && this.known(S.not(S.subst(goesOn, new Map([[b, t]]))))) ?? null;
        }
        n = whole ?? this.fresh('iters', 'Int');
        this.assume(S.ge(n, S.int(0)));
        const rng = S.and(S.ge(b, S.int(0)), S.lt(b, n));
        this.closeAxioms(b, rng, cont);
        const contC = S.or(...cont.map((p) => p.pc));
        if (contC === S.FALSE) this.assume(S.eq(n, S.int(0)));
        else {
            this.assume(S.forall([b], S.implies(rng, contC)));
            this.assume(S.or(S.eq(n, S.int(0)), S.subst(contC, new Map([[b, S.sub(n, S.int(1))]]))));
            this.assume(S.or(S.eq(n, S.int(0)), S.subst(contC, new Map([[b, S.int(0)]]))));
        }
        for (const c of cells) this.cellAxioms(c, b, n, rng);
        for (const c of cells) this.write(c.o, c.slot, c.result ? c.result(n) : c.at(n, this));
        // the next iteration is not one that goes on
        const more = S.subst(contC, new Map([[b, n]]));
        if (!hasQuant(more)) this.assume(S.not(more));
        const r = run(n);
        if (r === 'cont') throw new Infeasible();
        return this.exitOf(r);
    }
    /** numbers of iterations suggested by the comparisons of a loop condition that mention the iteration number */
    bounds(t, b) {
        const out = [];
        const at = (d, k) => S.subst(d, new Map([[b, S.int(k)]]));
        const visit = (u) => {
            if (u.sort === 'Bool' && u.args?.length && u.args.length <= 2 && u.args.every((a) => S.isNum(a))) {
                const d = u.args.length === 2 ? S.sub(u.args[0], u.args[1]) : u.args[0];
                if (d.sort !== 'Int') return;
                const step = S.sub(at(d, 1), at(d, 0));
                if (step === S.int(1)) out.push(S.sub(S.int(0), at(d, 0)), S.sub(S.int(1), at(d, 0)));
                else if (step === S.int(-1)) out.push(at(d, 0), S.add(at(d, 0), S.int(1)));
            } else if (u.sort === 'Bool') u.args?.forEach(visit);
        };
        visit(t);
        const some = out.slice(0, 6);
        return [...some, ...some.map((x) => S.ite(S.gt(x, S.int(0)), x, S.int(0)))];
    }
    newCell(o, slot) {
        const init = o.f.has(slot) ? o.f.get(slot) : ABSENT;
        const c = { o, slot, init, form: 'state', name: this.freshName('st'), fun: this.closed() };
        const v = init.k === 'union' ? init : init;
        if (slot === '#seq' || (v.k === 'obj' && v.kind === 'arr' && slot !== '#seq') || v.k === 'seq') {
            c.type = 'seq';
            c.isArr = slot !== '#seq';
            c.init0 = slot === '#seq' ? v : this.seqOf(v);
            c.abs = Symbol('abs');
            c.at = (k) => {
                const L = c.fun(c.name + 'L', [k], 'Int');
                const s = seq(L, (i) => c.fun(c.name + 'A', [k, i], 'Val'), { abs: c.abs });
                this.assume(S.ge(L, S.int(0)));
                return c.isArr ? this.arr(s) : s;
            };
            return c;
        }
        if (slot === '#base') {
            // a dictionary written at computed keys
            c.type = 'dict';
            const prev = o.f.get('#base') ?? o.base ?? null;
            const known = new Map([...o.f].filter(([k]) => !k.startsWith('#')));
            c.init0 = { get: (q) => this.lookupKnown(known, q, prev), has: (q) => this.hasKnown(known, q, prev) };
            c.abs = Symbol('abs');
            c.at = (k) => ({ k: 'basefn', abs: c.abs, get: (q) => lower(c.fun(c.name + 'G', [k, q], 'Val')), has: (q) => c.fun(c.name + 'H', [k, q], 'Bool') });
            return c;
        }
        if (slot === '#m') {
            // a map filled in a loop: only tallies (each key's number of occurrences) are followed
            c.type = 'tally';
            c.abs = Symbol('abs');
            c.at = (k) => ({
                k: 'mapstate',
                abs: c.abs,
                has: (q) => c.fun(c.name + 'H', [k, q], 'Bool'),
                get: (q) => c.fun(c.name + 'G', [k, q], 'Int'),
                keys: seq(c.fun(c.name + 'L', [k], 'Int'), (i) => c.fun(c.name + 'K', [i], 'Val')),
            });
            return c;
        }
        if (slot === '#layers') {
            c.type = 'map';
            c.at = () => {
                throw new Unsupported('map updated in a loop');
            };
            return c;
        }
        const sort = v.k === 't' ? v.sort : 'Val';
        c.type = 'term';
        c.sort = sort;
        c.at = (k) => lower(c.fun(c.name, [k], c.sort));
        return c;
    }
    /** a number moved on by a fixed step in the first iteration: taken as a counter as long as every iteration confirms it */
    guess(c, next) {
        if (c.type !== 'term' || c.sort !== 'Int' || !isTerm(next) || !S.isNum(next)) return;
        const step = S.sub(next, c.init);
        if (step.op !== 'num' || step.sort !== 'Int' || step === S.int(0)) return;
        const state = c.at;
        c.form = 'guess';
        c.step = step;
        c.at = (k) => S.add(c.init, S.mul(step, k));
        c.revert = () => {
            c.form = 'state';
            c.at = state;
        };
    }
    /** try to move a cell to a more precise form; true when the form changed */
    classify(c, upd, b) {
        if (c.form === 'guess') {
            if (upd.every((u) => isTerm(u.v) && u.v === c.at(S.add(b, S.int(1))))) return false;
            c.revert();
            return true;
        }
        if (c.form !== 'state') return false;
        if (c.type === 'term') {
            const old = c.fun(c.name, [b], c.sort);
            if (upd.every((u) => isTerm(u.v) && u.v === old)) {
                c.form = 'const';
                c.at = () => c.init;
                return true;
            }
            if (S.isNum(old) && upd.length && upd.every((u) => isTerm(u.v) && S.isNum(u.v))) {
                // counter
                const ds = upd.map((u) => S.sub(u.v, old));
                if (ds.every((d) => d.op === 'num' && d.x.eq(ds[0].x))) {
                    const step = ds[0];
                    c.form = 'counter';
                    c.at = (k) => S.add(c.init, S.mul(step, k));
                    return true;
                }
                // conditional counter: how often the condition held
                const parts = this.increments(c, upd, old);
                if (c.sort === 'Int' && parts && !parts.some((u) => termUses(u.pc, c.name))) {
                    c.form = 'count';
                    c.step = parts.find((u) => u.d !== S.int(0)).d;
                    c.cnt = (k) => c.fun(c.name + 'cnt', [k], 'Int');
                    c.at = (k) => S.add(c.init, S.mul(c.step, c.cnt(k)));
                    return true;
                }
                if (c.sort === 'Int' && upd.some((u) => u.v.sort === 'Real' && !S.asInt(u.v))) {
                    c.sort = 'Real';
                    c.init = S.toReal(c.init);
                    return true;
                }
            }
            // widen to Val when an update leaves the sort
            if (c.sort !== 'Val' && upd.some((u) => !isTerm(u.v) || (u.v.sort !== c.sort && !(S.isNum(u.v) && c.sort === 'Real')))) {
                if (upd.every((u) => isTerm(u.v) && u.v.sort === 'Int') || upd.every((u) => isTerm(u.v) && S.asInt(u.v))) return false;
                c.sort = 'Val';
                c.name = this.freshName('st');
                return true;
            }
            return false;
        }
        if (c.type === 'seq') {
            const parts = upd.map((u) => {
                let s = c.isArr ? (u.v.k === 'seq' ? u.v : u.v.k === 'obj' && u.v.kind === 'arr' ? u.v.f.get('#seq') : null) : u.v;
                if (!s) return null;
                if (s.abs === c.abs) return [];
                if (s.cat && s.cat[0].abs === c.abs && s.cat[1].lit) return s.cat[1].lit;
                return null;
            });
            if (parts.every((p) => p && p.length <= 1)) {
                c.form = 'append';
                // c.cnt(k) pushes in the first k iterations; idx(j) the iteration of push j
                c.cnt = (k) => (c.always ? k : c.fun(c.name + 'cnt', [k], 'Int'));
                c.idx = (j) => (c.always ? j : c.fun(c.name + 'idx', [j], 'Int'));
                c.always = parts.every((p) => p.length === 1);
                c.at = (k) => {
                    const s = this.appended(c, k);
                    s.abs = c.abs;
                    return c.isArr ? this.arr(s) : s;
                };
                return true;
            }
            if (upd.every((u) => this.blockAdded(c, u.v))) {
                // several elements at a time: a block per iteration
                c.form = 'extend';
                return true;
            }
            throw new Unsupported('array rebuilt in a loop in an unsupported way');
        }
        if (c.type === 'dict') {
            if (!upd.every((u) => u.v.abs === c.abs || u.v.over?.prev?.abs === c.abs)) throw new Unsupported('dictionary rebuilt in a loop in an unsupported way');
            c.form = 'keyed';
            return true;
        }
        if (c.type === 'tally') {
            const key = (u) => lift(u.v.over.key);
            const G = (q) => c.fun(c.name + 'G', [b, q], 'Int');
            const ok =
                c.init.keys.lit?.length === 0 &&
                upd.length &&
                upd.every((u) => u.v.over?.prev?.abs === c.abs && isTerm(u.v.over.v) && (S.isNum(u.v.over.v) || u.v.over.v.sort === 'Val')) &&
                upd.every((u) => {
                    const v = u.v.over.v.sort === 'Val' ? lower(u.v.over.v) : u.v.over.v;
                    const want = u.v.over.isIn ? S.add(G(key(u)), S.int(1)) : S.int(1);
                    return isTerm(v) && S.isNum(v) && this.feas.refuted([u.pc, S.not(S.eq(S.toReal(v), S.toReal(want)))]);
                });
            if (!ok) {
                // any contents, after any number of iterations
                c.form = 'any';
                c.at = (k) => {
                    const L = c.fun(c.name + 'L', [k], 'Int');
                    this.assume(S.ge(L, S.int(0)));
                    return { k: 'mapstate', abs: c.abs, has: (q) => c.fun(c.name + 'H', [k, q], 'Bool'), get: (q) => lower(c.fun(c.name + 'V', [k, q], 'Val')), keys: seq(L, (i) => lower(c.fun(c.name + 'W', [k, i], 'Val'))) };
                };
                return true;
            }
            c.form = 'tally';
            return true;
        }
        throw new Unsupported('loop cell ' + c.slot);
    }
    /** updates of a number as paths that add nothing or one fixed number; null when it is changed otherwise */
    increments(c, upd, old) {
        const out = [];
        const split = (pc, d) => {
            if (d.op === 'ite') return split(S.and(pc, d.args[0]), d.args[1]) && split(S.and(pc, S.not(d.args[0])), d.args[2]);
            const x = S.asInt(d) ?? d;
            if (x.op !== 'num') return false;
            out.push({ pc, d: x });
            return true;
        };
        const diff = (v) => (v.op === 'ite' ? S.ite(v.args[0], diff(v.args[1]), diff(v.args[2])) : S.sub(v, old));
        if (!upd.every((u) => isTerm(u.v) && S.isNum(u.v) && split(u.pc, diff(u.v)))) return null;
        const steps = new Set(out.map((u) => u.d).filter((d) => d !== S.int(0)));
        return steps.size === 1 ? out : null;
    }
    /** what an iteration adds at the end of an array cell: a sequence, or null when it does something else */
    blockAdded(c, v) {
        let s = c.isArr ? (v.k === 'seq' ? v : v.k === 'obj' && v.kind === 'arr' ? v.f.get('#seq') : null) : v;
        const added = [];
        while (s && s.abs !== c.abs) {
            if (!s.cat) return null;
            added.unshift(s.cat[1]);
            s = s.cat[0];
        }
        return s ? added.reduce((x, y) => catSeq(x, y), litSeq([])) : null;
    }
    appended(c, k) {
        const tail = seq(c.cnt(k), (j) => {
            if (!c.val) return c.fun(c.name + 'R', [j], 'Val');
            return substV(c.val, new Map([[c.valB, c.idx(j)]]));
        });
        return catSeq(c.init0, tail);
    }
    cellAxioms(c, b, n, rng) {
        if (c.form === 'const' || c.form === 'counter' || c.form === 'guess' || c.form === 'any') return;
        if (c.form === 'count') {
            const parts = this.increments(c, c.upd, c.at(b));
            if (!parts || parts.some((u) => termUses(u.pc, c.name + 'cnt') || (u.d !== c.step && u.d !== S.int(0)))) throw new Unsupported('a number counted in an unsupported way');
            const cond = S.or(...parts.filter((u) => u.d === c.step).map((u) => u.pc));
            this.countAxioms(c.cnt, (j) => c.fun(c.name + 'idx', [j], 'Int'), (k) => S.subst(cond, new Map([[b, k]])), n);
            return;
        }
        if (c.form === 'tally') {
            // every iteration counts one occurrence of its key
            const key = this.mergePaths(c.upd.map((u) => ({ pc: u.pc, v: this.freeze(u.v.over.key, -1e9) })));
            c.result = (k) => this.tallyOf(seq(k, (i) => substV(key, new Map([[b, i]]))));
            return;
        }
        if (c.form === 'keyed') {
            const set = c.upd.filter((u) => u.v.abs !== c.abs);
            if (!set.length) {
                c.result = () => c.init;
                return;
            }
            if (!set.every((u) => u.v.over)) throw new Unsupported('dictionary written twice in an iteration');
            const cond = S.or(...set.map((u) => u.pc));
            const pick = (f) => this.mergePaths(set.map((u) => ({ pc: u.pc, v: f(u.v.over) })));
            const key = pick((w) => w.k);
            const val = this.freeze(pick((w) => this.freeze(w.v, -1e9)), -1e9);
            const there = pick((w) => w.present);
            const at = (t, k) => S.subst(t, new Map([[b, k]]));
            // the last iteration writing the key, or -1
            const pos = (q) => c.fun(c.name + 'pos', [q], 'Int');
            const q = this.bvar('Str', 'q');
            this.assume(
                S.forall(
                    [q],
                    S.and(
                        S.ge(pos(q), S.int(-1)),
                        S.lt(pos(q), n),
                        S.implies(S.ge(pos(q), S.int(0)), S.and(at(cond, pos(q)), S.eq(at(key, pos(q)), q))),
                    ),
                    [[pos(q)]],
                ),
            );
            this.assume(S.forall([b], S.implies(S.and(rng, cond), S.ge(pos(key), b)), this.appsOf(key, b)));
            c.result = () => ({
                k: 'basefn',
                get: (k) => merge(S.ge(pos(k), S.int(0)), () => substV(val, new Map([[b, pos(k)]])), () => c.init0.get(k)),
                has: (k) => S.ite(S.ge(pos(k), S.int(0)), at(there, pos(k)), c.init0.has(k)),
            });
            return;
        }
        if (c.form === 'extend') {
            const blocks = c.upd.map((u) => ({ pc: u.pc, s: this.freezeSeq(this.blockAdded(c, u.v), -1e9, new Set()) }));
            const filled = blocks.filter((x) => x.s.lit?.length !== 0);
            const len = this.mergePaths(blocks.map((x) => ({ pc: x.pc, v: x.s.len })));
            const block = seq(len, (x) => (filled.length ? this.mergePaths(filled.map((u) => ({ pc: u.pc, v: u.s.at(x) }))) : undef));
            const all = this.flattenSeq(seq(n, (i) => this.arr(substV(block, new Map([[b, i]])))));
            c.result = () => {
                const s = catSeq(c.init0, all);
                return c.isArr ? this.arr(s) : s;
            };
            return;
        }
        if (c.form === 'append') {
            const lits = c.upd.map((u) => {
                const s = c.isArr ? (u.v.k === 'seq' ? u.v : u.v.f.get('#seq')) : u.v;
                if (s.abs === c.abs) return { pc: u.pc, push: null };
                return { pc: u.pc, push: s.cat[1].lit[0] };
            });
            const pushes = lits.filter((l) => l.push);
            const cond = S.or(...pushes.map((l) => l.pc));
            if (!pushes.length) {
                c.result = () => c.init;
                return;
            }
            const v = this.mergePaths(
                pushes.map((l) => ({ pc: l.pc, v: this.freeze(l.push, -1e9) })),
            );
            // values read back from the growing array before the final definition was known
            c.val = v;
            c.valB = b;
            if (!c.always) this.countAxioms((k) => c.cnt(k), (j) => c.idx(j), (k) => S.subst(cond, new Map([[b, k]])), n);
            const vv = c.valAt ?? ((j) => substV(v, new Map([[b, c.idx(j)]])));
            // tie values read inside the loop (uninterpreted R) to their definition
            const j = this.bvar('Int', 'j');
            try {
                const Rj = c.fun(c.name + 'R', [j], 'Val');
                this.assume(
                    S.forall([j], S.implies(S.and(S.ge(j, S.int(0)), S.lt(j, c.cnt(n))), S.eq(Rj, lift(vv(j)))), [[Rj]]),
                );
            } catch (e) {
                if (!(e instanceof CannotLift)) throw e;
            }
            c.result = (k) => {
                const added = seq(c.cnt(k), vv);
                if (!c.always && k === n) added.filter = { src: seq(n, (i) => substV(v, new Map([[b, i]]))), cond: (i) => S.subst(cond, new Map([[b, i]])), cnt: c.cnt, idx: c.idx };
                const s = catSeq(c.init0, added);
                return c.isArr ? this.arr(s) : s;
            };
            return;
        }
        if (c.type === 'term') {
            const X = (k) => c.fun(c.name, [k], c.sort);
            const init = c.sort === 'Val' ? lift(c.init.k === 'absent' ? undef : c.init) : c.init;
            this.assume(S.eq(X(S.int(0)), init));
            const coerce = (v) => (c.sort === 'Val' ? lift(v) : c.sort === 'Int' ? (S.asInt(v) ?? v) : c.sort === 'Real' ? S.toReal(v) : v);
            // conditional overwrite: X' = cond ? v : X with cond, v independent of X
            const usesX = (t) => termUses(t, c.name);
            const keep = c.upd.filter((u) => isTerm(u.v) && u.v === X(b));
            const set = c.upd.filter((u) => !(isTerm(u.v) && u.v === X(b)));
            const rngN = (k) => S.and(S.ge(k, S.int(0)), S.lt(k, n));
            let upd = null;
            for (let i = c.upd.length - 1; i >= 0; i--) {
                const v = coerce(c.upd[i].v);
                upd = upd === null ? v : S.ite(c.upd[i].pc, v, upd);
            }
            if (set.length && set.every((u) => !usesX(coerce(u.v)) && !usesX(u.pc)) && keep.every((u) => !usesX(u.pc))) {
                const cond = S.or(...set.map((u) => u.pc));
                const val = this.mergePaths(set.map((u) => ({ pc: u.pc, v: coerce(u.v) })));
                const w = (k) => c.fun(c.name + 'w', [k], 'Int');
                const m = this.bvar('Int', 'm');
                const at = (t, k) => S.subst(t, new Map([[b, k]]));
                const b2 = this.bvar('Int', 'b');
                this.assume(
                    S.forall(
                        [m],
                        S.implies(
                            S.and(S.ge(m, S.int(0)), S.le(m, n)),
                            S.or(
                                S.and(S.eq(w(m), S.int(-1)), S.eq(X(m), init), S.forall([b2], S.implies(S.and(S.ge(b2, S.int(0)), S.lt(b2, m)), S.not(at(cond, b2))))),
                                S.and(
                                    S.ge(w(m), S.int(0)),
                                    S.lt(w(m), m),
                                    at(cond, w(m)),
                                    S.eq(X(m), at(val, w(m))),
                                    S.forall([b2], S.implies(S.and(S.gt(b2, w(m)), S.lt(b2, m)), S.not(at(cond, b2)))),
                                ),
                            ),
                        ),
                        [[X(m)]],
                    ),
                );
                return;
            }
            this.assume(S.forall([b], S.implies(rng, S.eq(X(S.add(b, S.int(1))), upd)), [[X(b)]]));
            (this.ghost.states ??= []).push({ X, n });
            this.inductive(c, X, init, upd, b, n, rng);
        }
    }
    /** candidate inductive facts about a state function, each proved before use */
    inductive(c, X, init, upd, b, n, rng) {
        if (!S.isNum(X(b))) return;
        const try1 = (p) => {
            // step: p(X(b)) /\ rng /\ path facts => p(upd)
            const facts = [...this.facts.map((f) => f.t), rng, p(X(b))];
            const goal = S.subst(p(upd), new Map());
            if (p(init) === S.FALSE || !this.feas.refuted([...facts.filter((t) => !hasQuant(t)), S.not(goal)])) return;
            if (!this.known(p(init))) return;
            const m = this.bvar('Int', 'm');
            this.assume(S.forall([m], S.implies(S.and(S.ge(m, S.int(0)), S.le(m, n)), p(X(m))), [[X(m)]]));
        };
        try1((x) => S.ge(x, init));
        try1((x) => S.le(x, init));
        try1((x) => S.ge(x, S.int(0)));
        // step-wise monotonicity
        const mono = (cmp) => {
            if (!this.feas.refuted([...this.groundFacts(), rng, S.not(cmp(X(b), upd))])) return;
            const i = this.bvar('Int', 'i');
            const j = this.bvar('Int', 'j');
            this.assume(
                S.forall([i, j], S.implies(S.and(S.ge(i, S.int(0)), S.le(i, j), S.le(j, n)), cmp(X(i), X(j))), [[X(i), X(j)]]),
            );
        };
        mono((x, y) => S.le(x, y));
        mono((x, y) => S.ge(x, y));
    }
    /** facts about counting the k in [0,n) with cond(k); each is a theorem of counting (see lemmas/Count.lean) */
    countAxioms(cnt, idx, cond, n) {
        const i0 = S.int(0);
        const a = this.bvar('Int', 'a');
        const c = this.bvar('Int', 'c');
        const j = this.bvar('Int', 'j');
        const j2 = this.bvar('Int', 'j');
        this.assume(S.eq(cnt(i0), i0));
        this.assume(S.forall([a], S.implies(S.and(S.ge(a, i0), S.le(a, n)), S.and(S.ge(cnt(a), i0), S.le(cnt(a), a), S.le(cnt(a), cnt(n)))), [[cnt(a)]]));
        this.assume(
            S.forall(
                [a, c],
                S.implies(
                    S.and(S.ge(a, i0), S.lt(a, c), S.le(c, n)),
                    S.and(
                        S.le(cnt(a), cnt(c)),
                        S.le(S.sub(cnt(c), cnt(a)), S.sub(c, a)),
                        S.implies(cond(a), S.lt(cnt(a), cnt(c))),
                        S.implies(S.not(cond(a)), S.le(S.sub(cnt(c), cnt(a)), S.sub(S.sub(c, a), S.int(1)))),
                    ),
                ),
                [[cnt(a), cnt(c)]],
            ),
        );
        this.assume(
            S.forall(
                [j],
                S.implies(S.and(S.ge(j, i0), S.lt(j, cnt(n))), S.and(S.ge(idx(j), i0), S.lt(idx(j), n), cond(idx(j)), S.eq(cnt(idx(j)), j))),
                [[idx(j)]],
            ),
        );
        this.assume(
            S.forall([a], S.implies(S.and(S.ge(a, i0), S.lt(a, n), cond(a)), S.and(S.ge(cnt(a), i0), S.lt(cnt(a), cnt(n)), S.eq(idx(cnt(a)), a))), patternFor(cond(a), a)),
        );
        this.assume(
            S.forall([j, j2], S.implies(S.and(S.ge(j, i0), S.lt(j, j2), S.lt(j2, cnt(n))), S.lt(idx(j), idx(j2))), [[idx(j), idx(j2)]]),
        );
        // everything kept, or a witness that was dropped
        const w = this.fresh('drop', 'Int');
        this.assume(S.or(S.eq(cnt(n), n), S.and(S.ge(w, i0), S.lt(w, n), S.not(cond(w)))));
        // nothing kept, or the first kept
        this.assume(S.or(S.eq(cnt(n), i0), S.and(S.ge(idx(i0), i0), S.lt(idx(i0), n), cond(idx(i0)))));
        // lemma (induction on the length): equal conditions over equal lengths count alike
        if (!this.binders.length) {
            for (const o of this.counts.slice(-10)) {
                const d = this.fresh('diff', 'Int');
                const k = this.bvar('Int', 'k');
                const k2 = this.bvar('Int', 'k');
                this.assume(
                    S.or(
                        S.not(S.eq(o.n, n)),
                        S.and(S.ge(d, i0), S.lt(d, n), S.not(S.eq(o.cond(d), cond(d)))),
                        S.and(
                            S.forall([k], S.implies(S.and(S.ge(k, i0), S.le(k, n)), S.eq(cnt(k), o.cnt(k))), [[cnt(k)], [o.cnt(k)]]),
                            S.eq(cnt(n), o.cnt(o.n)),
                            S.forall([k2], S.implies(S.and(S.ge(k2, i0), S.lt(k2, cnt(n))), S.eq(idx(k2), o.idx(k2))), [[idx(k2)], [o.idx(k2)]]),
                        ),
                    ),
                );
            }
            this.counts.push({ cnt, idx, cond, n });
        }
    }
    /** the part of a list kept by a condition on the position alone: an interval, or all but one */
    keptPart(s, cond) {
        const b = S.bvar('canon!', 'Int');
        const t = cond(b);
        const free = (x) => S.subst(x, new Map([[b, S.int(0)]])) === x;
        if (t.op === 'not' && t.args[0].op === 'eq') {
            const [l, r] = t.args[0].args;
            if (!S.isNum(l) || !S.isNum(r)) return null;
            const d = S.sub(l, r);
            const at = [S.sub(b, d), S.add(b, d)].find((x) => x.sort === 'Int' && free(x));
            if (!at) return null;
            if (this.decide(S.and(S.ge(at, S.int(0)), S.lt(at, s.len)))) return catSeq(this.sliceSeq(s, S.int(0), at), this.sliceSeq(s, S.add(at, S.int(1)), s.len));
            return s;
        }
        let lo = S.int(0);
        let hi = s.len;
        let moved = false;
        for (const a of t.op === 'and' ? t.args : [t]) {
            if (a.op !== 'ge0' || a.args[0].sort !== 'Int') return null;
            const up = S.sub(a.args[0], b);
            const down = S.add(a.args[0], b);
            if (free(up)) lo = S.max(lo, S.neg(up));
            else if (free(down)) hi = S.min(hi, S.add(down, S.int(1)));
            else return null;
            moved = true;
        }
        return moved ? this.sliceSeq(s, lo, S.max(lo, hi)) : null;
    }
    filterSeq(s, cond, valAt = (i) => s.at(i)) {
        const canon = S.bvar('canon!', 'Int');
        // the kept positions depend on the condition and the length alone
        const used = new Set([...S.freeVars(cond(canon)), ...S.freeVars(s.len)]);
        const own = this.binders.filter((b) => used.has(b));
        const name = `${cond(canon).id},${s.len.id},${own.map((b) => b.id)}`;
        const key = `${name};${this.binders.map((b) => b.id)}`;
        let e = this.filterMemo.get(key);
        if (!e) {
            e = this.filterMemo.get(name);
            if (!e) {
                const nm = this.freshName('flt');
                e = { cnt: (k) => S.app(nm + 'cnt', [...own, k], 'Int'), idx: (j) => S.app(nm + 'idx', [...own, j], 'Int') };
                this.filterMemo.set(name, e);
            }
            e = { ...e, facts: [] };
            this.filterMemo.set(key, e);
            const mark = this.facts.length;
            this.countAxioms(e.cnt, e.idx, cond, s.len);
            e.facts = this.facts.slice(mark);
        } else {
            const have = new Set(this.facts.slice(-400).map((f) => f.t));
            for (const f of e.facts) if (!have.has(f.t)) this.facts.push(f);
        }
        const { cnt, idx } = e;
        const r = seq(cnt(s.len), (j) => valAt(idx(j)));
        r.filter = { src: s, cond, cnt, idx };
        return r;
    }

    // ---- expressions ----------------------------------------------------------------------------------------------
    expr(e, env) {
        switch (e.kind) {
            case K.NumericLiteral:
                return S.num(Number(e.text.replace(/_/g, '')));
            case K.StringLiteral:
            case K.NoSubstitutionTemplateLiteral:
                return S.str(e.text);
            case K.TrueKeyword:
                return S.TRUE;
            case K.FalseKeyword:
                return S.FALSE;
            case K.NullKeyword:
                return nul;
            case K.Identifier:
                if (e.text === 'undefined') return undef;
                if (e.text === 'NaN') return NAN;
                if (e.text === 'Infinity') return inf(true);
                return this.lookup(env, e.text);
            case K.ThisKeyword:
                return this.lookup(env, 'this');
            case K.ParenthesizedExpression:
            case K.AsExpression:
            case K.NonNullExpression:
            case K.TypeAssertionExpression:
            case K.SatisfiesExpression:
                return this.expr(e.expression, env);
            case K.ArrowFunction:
            case K.FunctionExpression:
                return this.closure(e, env, undefined, e.name?.text);
            case K.TemplateExpression: {
                let s = S.str(e.head.text);
                for (const sp of e.templateSpans) {
                    s = S.strCat(s, this.toStr(this.expr(sp.expression, env)));
                    s = S.strCat(s, S.str(sp.literal.text));
                }
                return s;
            }
            case K.ArrayLiteralExpression: {
                let s = litSeq([]);
                for (const el of e.elements) {
                    if (el.kind === K.SpreadElement) s = catSeq(s, this.iterable(this.spreadable(this.expr(el.expression, env))));
                    else s = catSeq(s, litSeq([this.expr(el, env)]));
                }
                return this.arr(s);
            }
            case K.ObjectLiteralExpression:
                return this.objectLit(e, env);
            case K.PropertyAccessExpression: {
                if (e.expression.kind === K.SuperKeyword) return this.superProp(e.name.text, env);
                const o = this.expr(e.expression, env);
                if (o === SHORT) return this.unshort(e, SHORT);
                if (e.questionDotToken && this.decide(this.isNullish(o))) return this.short(e);
                return this.unshort(e, this.getProp(o, e.name.text, e));
            }
            case K.ElementAccessExpression: {
                const o = this.expr(e.expression, env);
                if (o === SHORT) return this.unshort(e, SHORT);
                if (e.questionDotToken && this.decide(this.isNullish(o))) return this.short(e);
                const k = this.expr(e.argumentExpression, env);
                return this.unshort(e, this.getElem(o, k, e));
            }
            case K.CallExpression:
                return this.unshort(e, this.callExpr(e, env));
            case K.NewExpression: {
                const c = this.expr(e.expression, env);
                return this.construct(c, this.args(e.arguments ?? [], env), e);
            }
            case K.BinaryExpression:
                return this.binary(e, env);
            case K.PrefixUnaryExpression:
                return this.prefix(e, env);
            case K.PostfixUnaryExpression: {
                const old = this.toNum(this.expr(e.operand, env));
                const nv = this.arith(e.operator === K.PlusPlusToken ? '+' : '-', old, S.int(1));
                this.assignTo(e.operand, nv, env);
                return old;
            }
            case K.ConditionalExpression: {
                const c = this.condTerm(e.condition, env);
                if (c === S.TRUE) return this.expr(e.whenTrue, env);
                if (c === S.FALSE) return this.expr(e.whenFalse, env);
                return this.decide(c) ? this.expr(e.whenTrue, env) : this.expr(e.whenFalse, env);
            }
            case K.TypeOfExpression:
                return this.typeofTerm(this.expr(e.expression, env));
            case K.VoidExpression:
                this.expr(e.expression, env);
                return undef;
            case K.AwaitExpression: {
                const v = this.expr(e.expression, env);
                return this.awaitValue(v, e);
            }
            case K.DeleteExpression: {
                const t = e.expression;
                const o = this.force(this.expr(t.expression, env));
                const k = t.kind === K.PropertyAccessExpression ? t.name.text : this.keyOf(this.expr(t.argumentExpression, env));
                this.deleteProp(o, k);
                return S.TRUE;
            }
            case K.RegularExpressionLiteral: {
                const m = /^\/([\s\S]*)\/([a-z]*)$/.exec(e.text);
                return { k: 'regex', re: new RegExp(m[1], m[2]), src: e.text };
            }
            case K.SpreadElement:
                throw new Unsupported('spread');
            case K.ClassExpression:
                return this.makeClass(e, env);
        }
        throw new Unsupported('expression ' + K[e.kind] + ' at ' + this.where(e));
    }
    // optional chains: an inner ?. that short-circuits ends the whole chain
    short(e) {
        return this.chainOuter(e) ? SHORT : undef;
    }
    chainOuter(e) {
        const p = e.parent;
        return !!p && (p.flags & ts.NodeFlags.OptionalChain) !== 0 && p.expression === e && p.kind !== K.NonNullExpression;
    }
    unshort(e, v) {
        if (v === SHORT && !this.chainOuter(e)) return undef;
        return v;
    }
    spreadable(v) {
        v = this.force(v);
        if (isTerm(v) && v.sort === 'Val') {
            if (this.decide(this.isNullish(v))) this.throwType('spread of nullish');
            return v;
        }
        if (v.k === 'undef' || v.k === 'null') this.throwType('spread of nullish');
        return v;
    }
    objectLit(e, env) {
        const o = this.obj();
        for (const p of e.properties) {
            switch (p.kind) {
                case K.PropertyAssignment: {
                    const k = this.propName(p.name, env);
                    const v = this.expr(p.initializer, env);
                    if (v.k === 'fn' && !v.name && typeof k === 'string') v.name = k;
                    this.setOwn(o, k, v);
                    break;
                }
                case K.ShorthandPropertyAssignment:
                    this.setOwn(o, p.name.text, this.expr(p.name, env));
                    break;
                case K.MethodDeclaration: {
                    const k = this.propName(p.name, env);
                    this.setOwn(o, k, this.closure(p, env, o, k));
                    break;
                }
                case K.SpreadAssignment:
                    this.objectSpread(o, this.expr(p.expression, env));
                    break;
                case K.GetAccessor: {
                    const k = this.propName(p.name, env);
                    (o.getters ??= new Map()).set(k, this.closure(p, env, o, k));
                    break;
                }
                case K.SetAccessor: {
                    const k = this.propName(p.name, env);
                    (o.setters ??= new Map()).set(k, this.closure(p, env, o, k));
                    break;
                }
                default:
                    throw new Unsupported('object member ' + K[p.kind]);
            }
        }
        return o;
    }
    setOwn(o, k, v) {
        if (typeof k !== 'string') {
            // symbolic key in an object literal: overlay on a base function
            const prev = this.baseOf(o);
            const known = new Map(o.f);
            o.f = new Map();
            o.base = {
                get: (q) => merge(S.eq(q, k), v, () => this.lookupKnown(known, q, prev)),
                has: (q) => S.or(S.eq(q, k), this.hasKnown(known, q, prev)),
            };
            return;
        }
        o.f.set(k, v);
    }
    lookupKnown(known, q, prev) {
        if (q.op === 'str' && known.has(q.x)) return known.get(q.x).k === 'absent' ? undef : known.get(q.x);
        let r = prev ? prev.get(q) : undef;
        if (q.op === 'str') return r;
        for (const [k, v] of known) r = merge(S.eq(q, S.str(k)), v.k === 'absent' ? undef : v, r);
        return r;
    }
    hasKnown(known, q, prev) {
        let r = prev ? prev.has(q) : S.FALSE;
        for (const [k, v] of known) r = S.ite(S.eq(q, S.str(k)), S.bool(v.k !== 'absent'), r);
        return r;
    }
    baseOf(o) {
        return o.base ?? null;
    }
    /** copies the own properties of v over o (fresh object, not journaled) */
    objectSpread(o, v) {
        v = this.force(v);
        if (v.k === 'undef' || v.k === 'null' || v.k === 'nan' || (isTerm(v) && v.sort !== 'Val')) return o;
        if (isTerm(v)) {
            if (!this.decide(S.is('vobj', v))) return o;
            const ob = S.sel('vo', v);
            return this.overlay(o, { get: (k) => lower(S.app('prop', [ob, k], 'Val')), has: (k) => S.app('hasprop', [ob, k], 'Bool') });
        }
        if (v.k === 'obj' && v.kind === 'arr') throw new Unsupported('array spread into object');
        if (v.k === 'obj' || v.k === 'rec') {
            const f = v.k === 'obj' ? v.f : v.fields;
            const base = v.k === 'obj' ? (v.f.get('#base') ?? v.base) : v.base;
            const own = [...f].filter(([k]) => !k.startsWith('@@') && !k.startsWith('#'));
            if (base && own.some(([, x]) => x.k === 'absent')) {
                // some properties of the base were deleted
                const known = new Map(own);
                this.overlay(o, { get: (k) => this.lookupKnown(known, k, base), has: (k) => this.hasKnown(known, k, base) });
            } else {
                if (base) this.overlay(o, base);
                for (const [k, x] of own) if (x.k !== 'absent') o.f.set(k, x);
            }
            if (v.getters) for (const [k] of v.getters) o.f.set(k, this.getProp(v, k));
            return o;
        }
        throw new Unsupported('object spread of ' + v.k);
    }
    overlay(o, base) {
        const prev = this.baseOf(o);
        const known = new Map(o.f);
        for (const [k, x] of known) o.f.set(k, merge(base.has(S.str(k)), () => base.get(S.str(k)), x.k === 'absent' ? undef : x));
        o.base = prev
            ? { get: (k) => merge(base.has(k), () => base.get(k), () => prev.get(k)), has: (k) => S.or(base.has(k), prev.has(k)) }
            : base;
        return o;
    }
    superProp(name, env) {
        let e = env;
        while (e && !e.f.has('this')) e = e.parent;
        const t = this.lookup(env, 'this');
        let sc = null;
        for (let x = env; x; x = x.parent)
            if (x.superCls) {
                sc = x.superCls;
                break;
            }
        if (!sc && t.cls) sc = t.cls.base;
        const m = this.findMember(sc, 'methods', name);
        if (!m) throw new Unsupported('super.' + name);
        const c = this.closure(m[0], m[1].env, t, name);
        c.superCls = m[1].base;
        return c;
    }
    args(list, env) {
        const out = [];
        for (const a of list) {
            if (a.kind === K.SpreadElement) {
                const s = this.iterable(this.spreadable(this.expr(a.expression, env)));
                if (out.rest) out.rest = catSeq(out.rest, s);
                else if (s.lit) out.push(...s.lit);
                else out.rest = s;
            } else {
                const v = this.expr(a, env);
                if (out.rest) out.rest = catSeq(out.rest, litSeq([v]));
                else out.push(v);
            }
        }
        return out;
    }
    callExpr(e, env) {
        const cal = e.expression;
        if (cal.kind === K.SuperKeyword) {
            for (let x = env; x; x = x.parent)
                if (x.superInit) {
                    x.superInit(this.args(e.arguments, env));
                    return undef;
                }
            throw new Unsupported('super()');
        }
        if (cal.kind === K.ImportKeyword) throw new Unsupported('dynamic import');
        let thisVal = undef;
        let fn;
        if (cal.kind === K.PropertyAccessExpression && cal.expression.kind !== K.SuperKeyword) {
            const o = this.expr(cal.expression, env);
            if (o === SHORT) return SHORT;
            if (cal.questionDotToken && this.decide(this.isNullish(o))) return this.short(cal) === SHORT && this.chainOuter(e) ? SHORT : undef;
            const of = this.force(o);
            // methods of built-in values
            const m = this.method(of, cal.name.text, e);
            if (m) {
                if (e.questionDotToken === undefined || true) {
                    const a = this.args(e.arguments, env);
                    return m(a);
                }
            }
            fn = this.getProp(of, cal.name.text, cal);
            thisVal = of;
        } else if (cal.kind === K.ElementAccessExpression) {
            const o = this.force(this.expr(cal.expression, env));
            if (o === SHORT) return SHORT;
            if (cal.questionDotToken && this.decide(this.isNullish(o))) return this.short(e);
            fn = this.getElem(o, this.expr(cal.argumentExpression, env), cal);
            thisVal = o;
        } else {
            fn = this.expr(cal, env);
            if (fn === SHORT) return SHORT;
        }
        if (e.questionDotToken && this.decide(this.isNullish(fn))) return this.short(e);
        fn = this.force(fn);
        const a = this.args(e.arguments, env);
        if (fn.k === 'undef' || fn.k === 'null' || (isTerm(fn) && fn.sort !== 'Val')) {
            this.throwType(`call of a non-function at ${this.where(e)}`);
        }
        return this.call(fn, a, thisVal);
    }
    binary(e, env) {
        const op = e.operatorToken.kind;
        switch (op) {
            case K.AmpersandAmpersandToken: {
                const a = this.expr(e.left, env);
                return this.logical(true, a, e.right, env);
            }
            case K.BarBarToken: {
                const a = this.expr(e.left, env);
                return this.logical(false, a, e.right, env);
            }
            case K.QuestionQuestionToken: {
                const a = this.expr(e.left, env);
                const c = this.isNullish(a);
                if (c === S.FALSE) return a;
                if (c === S.TRUE) return this.expr(e.right, env);
                const s = this.simple(e.right, env);
                if (s) {
                    try {
                        return merge(c, s, a);
                    } catch (x) {
                        if (!(x instanceof CannotLift)) throw x;
                    }
                }
                return this.decide(c) ? this.expr(e.right, env) : this.refine(a);
            }
            case K.EqualsToken: {
                if (e.left.kind === K.ObjectLiteralExpression || e.left.kind === K.ArrayLiteralExpression) throw new Unsupported('destructuring assignment');
                const v = this.expr(e.right, env);
                this.assignTo(e.left, this.named(v, e.left.kind === K.Identifier ? e.left.text : undefined), env);
                return v;
            }
            case K.CommaToken:
                this.expr(e.left, env);
                return this.expr(e.right, env);
            case K.PlusEqualsToken:
            case K.MinusEqualsToken:
            case K.AsteriskEqualsToken:
            case K.SlashEqualsToken:
            case K.PercentEqualsToken:
            case K.AmpersandEqualsToken:
            case K.BarEqualsToken: {
                const a = this.expr(e.left, env);
                const b = this.expr(e.right, env);
                const v = this.arith({ [K.PlusEqualsToken]: '+', [K.MinusEqualsToken]: '-', [K.AsteriskEqualsToken]: '*', [K.SlashEqualsToken]: '/', [K.PercentEqualsToken]: '%', [K.AmpersandEqualsToken]: '&', [K.BarEqualsToken]: '|' }[op], a, b);
                this.assignTo(e.left, v, env);
                return v;
            }
            case K.QuestionQuestionEqualsToken: {
                const a = this.expr(e.left, env);
                if (!this.decide(this.isNullish(a))) return a;
                const v = this.expr(e.right, env);
                this.assignTo(e.left, v, env);
                return v;
            }
            case K.BarBarEqualsToken:
            case K.AmpersandAmpersandEqualsToken: {
                const a = this.expr(e.left, env);
                const t = this.decide(this.truthy(a));
                if (t === (op === K.BarBarEqualsToken)) return a;
                const v = this.expr(e.right, env);
                this.assignTo(e.left, v, env);
                return v;
            }
        }
        const a = this.expr(e.left, env);
        const b = this.expr(e.right, env);
        switch (op) {
            case K.EqualsEqualsEqualsToken:
                return this.eq(a, b);
            case K.ExclamationEqualsEqualsToken:
                return S.not(this.eq(a, b));
            case K.EqualsEqualsToken:
            case K.ExclamationEqualsToken: {
                let r;
                const nl = (v) => v.k === 'null' || v.k === 'undef';
                if (nl(a)) r = this.isNullish(b);
                else if (nl(b)) r = this.isNullish(a);
                else throw new Unsupported('loose equality at ' + this.where(e));
                return op === K.EqualsEqualsToken ? r : S.not(r);
            }
            case K.LessThanToken:
                return this.compare('<', a, b);
            case K.LessThanEqualsToken:
                return this.compare('<=', a, b);
            case K.GreaterThanToken:
                return this.compare('>', a, b);
            case K.GreaterThanEqualsToken:
                return this.compare('>=', a, b);
            case K.PlusToken:
                return this.arith('+', a, b);
            case K.MinusToken:
                return this.arith('-', a, b);
            case K.AsteriskToken:
                return this.arith('*', a, b);
            case K.SlashToken:
                return this.arith('/', a, b);
            case K.PercentToken:
                return this.arith('%', a, b);
            case K.AsteriskAsteriskToken:
                return this.arith('**', a, b);
            case K.LessThanLessThanToken:
                return this.arith('<<', a, b);
            case K.AmpersandToken:
                return this.arith('&', a, b);
            case K.BarToken:
                return this.arith('|', a, b);
            case K.InKeyword:
                return this.hasProp(this.force(b), this.keyOf(a));
            case K.InstanceOfKeyword:
                return this.instanceOf(a, this.force(b));
        }
        throw new Unsupported('operator ' + K[op] + ' at ' + this.where(e));
    }
    /** && and ||: as terms when both sides are Bool and the right side is simple, else fork */
    logical(isAnd, a, right, env) {
        const c = this.truthy(a);
        if (c === (isAnd ? S.FALSE : S.TRUE)) return a;
        if (c === (isAnd ? S.TRUE : S.FALSE)) return this.expr(right, env);
        if (isTerm(a) && a.sort === 'Bool') {
            const s = this.simple(right, env);
            if (s && isTerm(s) && s.sort === 'Bool') return isAnd ? S.and(a, s) : S.or(a, s);
        }
        if (this.decide(c)) return isAnd ? this.expr(right, env) : this.refine(a);
        return isAnd ? this.refine(a) : this.expr(right, env);
    }
    /** value of e when it can be computed without forking, effects or exceptions; else null */
    simple(e, env) {
        if (!isSimple(e)) return null;
        let r = null;
        try {
            const ps = this.explore(() => this.expr(e, env));
            if (ps.length === 1 && !ps[0].thrown && !ps[0].writes.size && !ps[0].aux && ps[0].pc === S.TRUE && !ps[0].ax.length) r = ps[0].v;
        } catch (x) {
            if (!(x instanceof Unsupported)) throw x;
        }
        return r;
    }
    compare(op, a, b) {
        a = this.force(a);
        b = this.force(b);
        if (isTerm(a) && isTerm(b) && a.sort === 'Str' && b.sort === 'Str') return this.strCompare(op, a, b);
        if (isTerm(a) && isTerm(b) && (a.sort === 'Val' || b.sort === 'Val')) {
            const sa = a.sort === 'Str' ? S.TRUE : a.sort === 'Val' ? S.is('vstr', a) : S.FALSE;
            const sb = b.sort === 'Str' ? S.TRUE : b.sort === 'Val' ? S.is('vstr', b) : S.FALSE;
            if (this.decide(S.and(sa, sb))) return this.strCompare(op, a.sort === 'Val' ? S.sel('vs', a) : a, b.sort === 'Val' ? S.sel('vs', b) : b);
        }
        if ((a.k === 'obj' && a.kind === 'date') || (b.k === 'obj' && b.kind === 'date')) throw new Unsupported('date comparison');
        // relational comparison of opaque objects (dates): an uninterpreted time value
        const ov = (v) => isTerm(v) && v.sort === 'Val' && this.objNum && this.decide(S.is('vobj', v));
        let x = ov(a) ? this.objNum(a) : this.toNum(a);
        let y = ov(b) ? this.objNum(b) : this.toNum(b);
        if (x.k === 'nan' || y.k === 'nan') return S.FALSE;
        if (x.k === 'inf' || y.k === 'inf') {
            const ord = (v) => (v.k === 'inf' ? (v.pos ? 1 : -1) : 0);
            const d = ord(x) - ord(y);
            return S.bool(op === '<' ? d < 0 : op === '<=' ? d <= 0 : op === '>' ? d > 0 : d >= 0);
        }
        return { '<': S.lt, '<=': S.le, '>': S.gt, '>=': S.ge }[op](x, y);
    }
    strCompare(op, a, b) {
        if (a.op === 'str' && b.op === 'str') return S.bool(op === '<' ? a.x < b.x : op === '<=' ? a.x <= b.x : op === '>' ? a.x > b.x : a.x >= b.x);
        if (op === '>') return this.strCompare('<', b, a);
        if (op === '>=') return this.strCompare('<=', b, a);
        if (op === '<=') return S.not(this.strCompare('<', b, a));
        const lt = (x, y) => S.app('str_lt', [x, y], 'Bool');
        if (this.strings !== 'smt' && !this.lemmas.has('str_lt')) {
            this.lemmas.add('str_lt');
            const x = S.bvar('x!s', 'Str');
            const y = S.bvar('y!s', 'Str');
            const z = S.bvar('z!s', 'Str');
            this.assume(S.forall([x], S.not(lt(x, x)), [[lt(x, x)]]));
            this.assume(S.forall([x, y], S.or(lt(x, y), lt(y, x), S.eq(x, y)), [[lt(x, y)]]));
            this.assume(S.forall([x, y], S.not(S.and(lt(x, y), lt(y, x))), [[lt(x, y)]]));
            this.assume(S.forall([x, y, z], S.implies(S.and(lt(x, y), lt(y, z)), lt(x, z)), [[lt(x, y), lt(y, z)]]));
        }
        return lt(a, b);
    }
    arith(op, a, b) {
        a = this.force(a);
        b = this.force(b);
        if (op === '+') {
            const isS = (v) => isTerm(v) && v.sort === 'Str';
            const isObjLike = (v) => v.k === 'obj' || v.k === 'rec' || v.k === 'seq' || v.k === 'fn';
            if (isS(a) || isS(b) || isObjLike(a) || isObjLike(b)) return S.strCat(this.toStr(a), this.toStr(b));
            const val = (v) => isTerm(v) && v.sort === 'Val';
            if (val(a) && this.decide(S.or(S.is('vstr', a), S.is('vobj', a)))) return S.strCat(this.toStr(a), this.toStr(b));
            if (val(b) && this.decide(S.or(S.is('vstr', b), S.is('vobj', b)))) return S.strCat(this.toStr(a), this.toStr(b));
        }
        const x = this.toNum(a);
        const y = this.toNum(b);
        if (x.k === 'nan' || y.k === 'nan') return NAN;
        if (x.k === 'inf' || y.k === 'inf') return this.infArith(op, x, y);
        switch (op) {
            case '+':
                return S.add(x, y);
            case '-':
                return S.sub(x, y);
            case '*':
                return S.mul(x, y);
            case '/':
                if (y.op === 'num') {
                    if (y.x.zero) {
                        if (x.op === 'num' && x.x.zero) return NAN;
                        if (this.decide(S.eq(x, x.sort === 'Int' ? S.int(0) : S.real(0)))) return NAN;
                        return inf(this.decide(S.gt0(x)));
                    }
                } else if (this.decide(S.eq(y, y.sort === 'Int' ? S.int(0) : S.real(0)))) {
                    if (this.decide(S.eq(x, x.sort === 'Int' ? S.int(0) : S.real(0)))) return NAN;
                    return inf(this.decide(S.gt0(x)));
                }
                return S.div(x, y);
            case '%': {
                const xi = S.asInt(x);
                const yi = S.asInt(y);
                if (!xi || !yi) throw new Unsupported('remainder of reals');
                if (this.decide(S.eq(yi, S.int(0)))) return NAN;
                const ab = (t) => S.ite(S.ge(t, S.int(0)), t, S.neg(t));
                return S.ite(S.ge(xi, S.int(0)), S.imod(xi, ab(yi)), S.neg(S.imod(S.neg(xi), ab(yi))));
            }
            case '**': {
                const c = S.constNum(x);
                const d = S.constNum(y);
                if (c !== undefined && d !== undefined) return S.num(c ** d);
                if (d !== undefined && Number.isInteger(d) && d >= 0 && d <= 4) {
                    let r = S.int(1);
                    for (let i = 0; i < d; i++) r = S.mul(r, x);
                    return r;
                }
                throw new Unsupported('power');
            }
            case '<<':
            case '&':
            case '|': {
                const c = S.constNum(x);
                const d = S.constNum(y);
                if (c !== undefined && d !== undefined) return S.num(op === '<<' ? c << d : op === '&' ? c & d : c | d);
                // 32-bit operations are left uninterpreted (range only)
                const r = S.app({ '<<': 'bit_shl', '&': 'bit_and', '|': 'bit_or' }[op], [S.toReal(x), S.toReal(y)], 'Int');
                this.assumeOnce(S.and(S.ge(r, S.int(-2147483648)), S.le(r, S.int(2147483647))));
                return r;
            }
        }
        throw new Unsupported('arithmetic ' + op);
    }
    infArith(op, x, y) {
        if (op === '+' || op === '-') {
            if (x.k === 'inf' && y.k === 'inf') return (op === '+') === (x.pos === y.pos) ? x : NAN;
            if (x.k === 'inf') return x;
            return op === '+' ? y : inf(!y.pos);
        }
        if (op === '/') {
            if (x.k === 'inf' && y.k === 'inf') return NAN;
            if (y.k === 'inf') return S.int(0);
            return inf(x.pos === this.decide(S.ge0(y)));
        }
        if (op === '*') {
            const i = x.k === 'inf' ? x : y;
            const o = x.k === 'inf' ? y : x;
            if (o.k === 'inf') return inf(i.pos === o.pos);
            if (this.decide(S.eq(o, o.sort === 'Int' ? S.int(0) : S.real(0)))) return NAN;
            return inf(i.pos === this.decide(S.gt0(o)));
        }
        throw new Unsupported('infinite arithmetic ' + op);
    }
    prefix(e, env) {
        switch (e.operator) {
            case K.ExclamationToken:
                return S.not(this.truthy(this.expr(e.operand, env)));
            case K.MinusToken: {
                const v = this.toNum(this.expr(e.operand, env));
                if (v.k === 'nan') return v;
                if (v.k === 'inf') return inf(!v.pos);
                return S.neg(v);
            }
            case K.PlusToken:
                return this.toNum(this.expr(e.operand, env));
            case K.PlusPlusToken:
            case K.MinusMinusToken: {
                const v = this.arith(e.operator === K.PlusPlusToken ? '+' : '-', this.toNum(this.expr(e.operand, env)), S.int(1));
                this.assignTo(e.operand, v, env);
                return v;
            }
        }
        throw new Unsupported('prefix operator at ' + this.where(e));
    }
    assignTo(t, v, env) {
        switch (t.kind) {
            case K.ParenthesizedExpression:
            case K.AsExpression:
            case K.NonNullExpression:
                return this.assignTo(t.expression, v, env);
            case K.Identifier:
                return this.assignVar(env, t.text, v);
            case K.PropertyAccessExpression: {
                const o = this.expr(t.expression, env);
                return this.setProp(this.force(o), t.name.text, v);
            }
            case K.ElementAccessExpression: {
                const o = this.force(this.expr(t.expression, env));
                const k = this.expr(t.argumentExpression, env);
                if (o.k === 'obj' && o.kind === 'arr') {
                    return this.setIndex(o, this.toInt(k), v);
                }
                return this.setProp(o, this.keyOf(k), v);
            }
        }
        throw new Unsupported('assignment target ' + K[t.kind]);
    }
    setIndex(o, i, v) {
        const s = o.f.get('#seq');
        const c = S.constNum(i);
        if (s.lit && c !== undefined && c <= s.lit.length && c >= 0) {
            const l = [...s.lit];
            l[c] = v;
            this.write(o, '#seq', litSeq(l));
            return;
        }
        if (!this.decide(S.and(S.ge(i, S.int(0)), S.lt(i, s.len)))) {
            if (this.decide(S.eq(i, s.len))) {
                this.write(o, '#seq', catSeq(s, litSeq([v])));
                return;
            }
            throw new Unsupported('sparse array write');
        }
        this.write(o, '#seq', seq(s.len, (j) => merge(S.eq(j, i), v, () => s.at(j))));
    }

    // ---- properties ------------------------------------------------------------------------------------------------
    getElem(o, k, node) {
        o = this.force(o);
        const s = o.k === 'seq' || (o.k === 'obj' && o.kind === 'arr') ? this.seqOf(o) : null;
        const kk = this.force(k);
        if (s && !(isTerm(kk) && kk.sort === 'Str')) return this.index(s, this.toInt(kk));
        if (isTerm(o) && o.sort === 'Str' && isTerm(kk) && S.isNum(kk)) return this.strAt(o, this.toInt(kk));
        if (isTerm(o) && o.sort === 'Val' && isTerm(kk) && S.isNum(kk)) {
            if (this.decide(this.isNullish(o))) this.throwType('index of nullish at ' + this.where(node));
            return this.index(this.opaqueSeq(o), this.toInt(kk));
        }
        return this.getProp(o, this.keyOf(kk), node);
    }
    /** element read with bounds: out of range gives undefined */
    index(s, i) {
        const inR = S.and(S.ge(i, S.int(0)), S.lt(i, s.len));
        if (inR === S.FALSE) return undef;
        if (this.known(inR)) return s.at(i);
        return this.decide(inR) ? s.at(i) : undef;
    }
    deleteProp(o, k) {
        if (o.k !== 'obj' || o.kind !== 'obj') throw new Unsupported('delete on ' + o.k);
        if (typeof k !== 'string') {
            this.symbolicWrite(o, k, undef, S.FALSE);
            return;
        }
        this.materialize(o, k);
        if (this.hasBase(o)) this.write(o, k, ABSENT);
        else if (o.f.has(k)) this.del(o, k);
    }
    hasBase(o) {
        return !!(o.f.get('#base') ?? o.base);
    }
    materialize() {}
    /** write at a symbolic key: the object becomes a base function with an overlay */
    symbolicWrite(o, k, v, present = S.TRUE) {
        const known = new Map();
        for (const [q, x] of o.f) if (!q.startsWith('#')) known.set(q, x);
        const prev = o.f.get('#base') ?? o.base ?? null;
        const nb = {
            k: 'basefn',
            get: (q) => merge(S.eq(q, k), v, () => this.lookupKnown(known, q, prev)),
            has: (q) => S.ite(S.eq(q, k), present, this.hasKnown(known, q, prev)),
        };
        if (!known.size) nb.over = { prev, k, v, present };
        for (const q of known.keys()) this.del(o, q);
        this.write(o, '#base', nb);
    }
    hasProp(o, k) {
        if (o.k === 'union') return S.ite(o.c, this.hasProp(o.a, k), this.hasProp(o.b, k));
        if (isTerm(o) && o.sort === 'Val') return S.app('hasprop', [S.sel('vo', o), typeof k === 'string' ? S.str(k) : k], 'Bool');
        if (o.k === 'rec' || (o.k === 'obj' && (o.kind === 'obj' || o.kind === 'ref' || o.kind === 'computed'))) {
            const f = o.k === 'rec' ? o.fields : o.f;
            const base = o.k === 'rec' ? o.base : (o.f.get('#base') ?? o.base);
            if (typeof k === 'string') {
                if (f.has(k)) return S.bool(f.get(k).k !== 'absent');
                if (o.getters?.has(k)) return S.TRUE;
                if (o.cls && (this.findMember(o.cls, 'methods', k) || this.findMember(o.cls, 'getters', k))) return S.TRUE;
                if (o.kind === 'computed' && k === 'value') return S.TRUE;
                return base ? base.has(S.str(k)) : S.FALSE;
            }
            const known = new Map([...f].filter(([q]) => !q.startsWith('#')));
            return this.hasKnown(known, k, base);
        }
        throw new Unsupported('in on ' + o.k);
    }
    getProp(o, k, node) {
        if (o === SHORT) return SHORT;
        if (o.k === 'union') {
            // read both sides when that is harmless
            const plain = (v) => (v.k === 'union' ? plain(v.a) && plain(v.b) : v.k === 'rec' && !v.base && !v.cls && typeof k === 'string');
            if (plain(o)) {
                const read = (v) => (v.k === 'union' ? merge(v.c, () => read(v.a), () => read(v.b)) : this.recGet(v.fields, v.base, k));
                return read(o);
            }
            o = this.force(o);
        }
        switch (o.k) {
            case 'undef':
            case 'null':
            case 'absent':
                return this.throwType(`property ${typeof k === 'string' ? k : '[key]'} of ${o.k}${node ? ' at ' + this.where(node) : ''}`);
            case 'ns': {
                const key = path.relative(REPO, o.file) + '#' + k;
                if (this.stubs.has(key)) return this.stubs.get(key);
                const v = this.exportOf(o, k);
                if (v === undefined) throw new Unsupported(`no export ${k} in ${o.file}`);
                return v;
            }
            case 'class':
                for (let c = o; c; c = c.base) if (c.statics.f.has(k)) return c.statics.f.get(k);
                if (k === 'name') return S.str(o.name);
                return undef;
            case 'rec':
                return this.recGet(o.fields, o.base, k);
            case 'seq':
                return this.arrProp(o, k);
            case 'fn':
                if (o.props?.has(k)) return o.props.get(k);
                if (k === 'name') return S.str(o.name ?? '');
                if (this.method(o, k)) return this.native(k, (a) => this.method(o, k)(a));
                if (o.native && o.props) throw new Unsupported(`builtin ${o.name}.${k}`);
                return undef;
            case 'regex': {
                if (k === 'source') return S.str(o.re.source);
                break;
            }
            case 'sym':
                break;
            case 't':
                return this.termProp(o, k, node);
            case 'nan':
            case 'inf': {
                const m = this.method(o, k);
                if (m) return this.native(k, m);
                return undef;
            }
            case 'obj': {
                if (o.kind === 'arr') return this.arrProp(o, k);
                if (o.kind === 'ref' && k === 'value') return o.f.get('value');
                if (o.kind === 'propref' && k === 'value') return this.getProp(o.target, o.key);
                if (o.kind === 'computed' && k === 'value') return this.cached(o, () => this.call(o.getter, []));
                if (o.kind === 'date' || o.kind === 'map' || o.kind === 'set' || o.kind === 'promise' || o.kind === 'regexp') {
                    const p = this.builtinProp(o, k);
                    if (p !== undefined) return p;
                }
                if (o.getters && typeof k === 'string' && o.getters.has(k)) return this.call(o.getters.get(k), [], o);
                if (o.cls && typeof k === 'string' && !o.f.has(k)) {
                    const g = this.findMember(o.cls, 'getters', k);
                    if (g) return this.call({ ...this.closure(g[0], g[1].env, o, k), superCls: g[1].base }, []);
                    const m = this.findMember(o.cls, 'methods', k);
                    if (m) return { ...this.closure(m[0], m[1].env, o, k), superCls: m[1].base };
                }
                const r = this.recGet(o.f, o.f.get('#base') ?? o.base, k);
                if (o.reactive && r.k === 'obj' && (r.kind === 'ref' || r.kind === 'computed' || r.kind === 'propref')) return this.getProp(r, 'value');
                if (r.k === 'undef' && typeof k === 'string') {
                    const m = this.method(o, k);
                    if (m) return this.native(k, m);
                    if (o.builtin && !o.f.has(k)) throw new Unsupported(`builtin ${o.builtin}.${k}`);
                }
                return r;
            }
        }
        throw new Unsupported(`property ${typeof k === 'string' ? k : '?'} of ${o.k}`);
    }
    recGet(f, base, k) {
        if (typeof k === 'string') {
            if (f.has(k)) {
                const v = f.get(k);
                return v.k === 'absent' ? undef : v;
            }
            return base ? base.get(S.str(k)) : undef;
        }
        const known = new Map([...f].filter(([q]) => !q.startsWith('#')));
        return this.lookupKnown(known, k, base);
    }
    setProp(o, k, v) {
        if (o.k === 'undef' || o.k === 'null') this.throwType('assignment to property of nullish');
        if (o.k === 'class') {
            this.write(o.statics, k, v);
            return;
        }
        if (o.k === 'obj') {
            if (o.kind === 'computed') {
                if (k === 'value' && o.setter) {
                    this.call(o.setter, [v]);
                    return;
                }
                if (k === 'value') throw new Unsupported('write to a readonly computed');
            }
            if (o.kind === 'propref') {
                this.setProp(o.target, o.key, v);
                return;
            }
            if (o.kind === 'arr') {
                if (k === 'length') {
                    const n = this.toInt(v);
                    const s = o.f.get('#seq');
                    this.write(o, '#seq', this.sliceSeq(s, S.int(0), n));
                    return;
                }
                if (typeof k === 'string' && /^\d+$/.test(k)) return this.setIndex(o, S.int(Number(k)), v);
                throw new Unsupported('array property write');
            }
            if (o.cls && typeof k === 'string') {
                const st = this.findMember(o.cls, 'setters', k);
                if (st) {
                    this.call(this.closure(st[0], st[1].env, o, k), [v]);
                    return;
                }
            }
            if (o.setters && typeof k === 'string' && o.setters.has(k)) {
                this.call(o.setters.get(k), [v], o);
                return;
            }
            if (o.reactive && typeof k === 'string' && o.f.has(k)) {
                const r = o.f.get(k);
                if (r.k === 'obj' && (r.kind === 'ref' || r.kind === 'computed' || r.kind === 'propref')) return this.setProp(r, 'value', v);
            }
            if (o.onSet && typeof k === 'string' && o.onSet(k, v)) return;
            if (typeof k !== 'string') {
                this.symbolicWrite(o, k, v);
                return;
            }
            this.write(o, k, v);
            return;
        }
        if (o.k === 'fn') {
            (o.props ??= new Map()).set(k, v);
            return;
        }
        throw new Unsupported('property write on ' + o.k);
    }
    instanceOf(v, cls) {
        if (v.k === 'union') return S.ite(v.c, this.instanceOf(v.a, cls), this.instanceOf(v.b, cls));
        const nm = cls.name;
        if (cls.k === 'class') {
            if (v.k !== 'obj') return S.FALSE;
            for (let c = v.cls; c; c = c.base) if (c === cls) return S.TRUE;
            return S.FALSE;
        }
        if (v.k === 'obj') {
            const kinds = { Promise: 'promise', Map: 'map', Set: 'set', Array: 'arr', Date: 'date' };
            if (kinds[nm]) return S.bool(v.kind === kinds[nm]);
            if (nm === 'Error') return S.bool(!!v.errorKind);
            if (nm === 'Object') return S.TRUE;
            if (v.tags) return S.bool(v.tags.includes(nm));
            return S.FALSE;
        }
        if (isTerm(v) && v.sort === 'Val') return S.and(S.is('vobj', v), S.app('instof_' + nm, [S.sel('vo', v)], 'Bool'));
        return S.FALSE;
    }
}

const SHORT = { k: 'short' };

export function collectNames(pat, out) {
    if (pat.kind === K.Identifier) out.push(pat.text);
    else for (const el of pat.elements) if (el.name) collectNames(el.name, out);
}
const qmemo = new WeakMap();
export function hasQuant(t) {
    let r = qmemo.get(t);
    if (r === undefined) {
        r = t.op === 'forall' || t.op === 'exists' || t.args.some(hasQuant);
        qmemo.set(t, r);
    }
    return r;
}
export function termUses(t, name, memo = new Map()) {
    if (memo.has(t)) return memo.get(t);
    const r = (t.op === 'app' && t.x === name) || t.args.some((a) => termUses(a, name, memo));
    memo.set(t, r);
    return r;
}
/** applications inside t that mention v, smallest first, as candidate triggers */
export function patternFor(t, v) {
    const found = [];
    const go = (x) => {
        if (!S.freeVars(x).has(v)) return;
        if (x.op === 'app' && x.args.some((a) => a === v) && !hasQuant(x)) found.push(x);
        for (const a of x.args) if (x.op !== 'forall' && x.op !== 'exists') go(a);
    };
    go(t);
    const uniq = [...new Set(found)].filter((x) => [...S.freeVars(x)].length >= 1);
    return uniq.slice(0, 3).map((x) => [x]);
}
function isSimple(e) {
    switch (e.kind) {
        case K.Identifier:
        case K.NumericLiteral:
        case K.StringLiteral:
        case K.NoSubstitutionTemplateLiteral:
        case K.TrueKeyword:
        case K.FalseKeyword:
        case K.NullKeyword:
        case K.ThisKeyword:
            return true;
        case K.ParenthesizedExpression:
        case K.AsExpression:
        case K.NonNullExpression:
        case K.TypeOfExpression:
            return isSimple(e.expression);
        case K.PropertyAccessExpression:
            return isSimple(e.expression);
        case K.ElementAccessExpression:
            return isSimple(e.expression) && isSimple(e.argumentExpression);
        case K.PrefixUnaryExpression:
            return e.operator === K.ExclamationToken || e.operator === K.MinusToken ? isSimple(e.operand) : false;
        case K.BinaryExpression: {
            const o = e.operatorToken.kind;
            if (o >= K.FirstAssignment && o <= K.LastAssignment) return false;
            return isSimple(e.left) && isSimple(e.right);
        }
        case K.CallExpression:
            return isSimple(e.expression) && e.arguments.every((a) => isSimple(a) || a.kind === K.ArrowFunction);
        case K.ConditionalExpression:
            return isSimple(e.condition) && isSimple(e.whenTrue) && isSimple(e.whenFalse);
    }
    return false;
}
function usesArguments(node) {
    if (node.tsvcArgs === undefined) {
        let f = false;
        const go = (n) => {
            if (n.kind === K.Identifier && n.text === 'arguments') f = true;
            ts.forEachChild(n, go);
        };
        go(node.body);
        node.tsvcArgs = f;
    }
    return node.tsvcArgs;
}
