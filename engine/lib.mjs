// Models of the JavaScript built-ins, Vue and the other dependencies.  Everything here is trusted: the evidence
// lists the entries a contract used (Engine.assumed).
import * as R from './regex.mjs';
import * as S from './smt.mjs';
import { undef, nul, NAN, inf, ABSENT, rec, union, litSeq, seq, catSeq, lift, lower, merge, substV, isTerm, CannotLift } from './values.mjs';
import { Engine, Unsupported, Infeasible, JsThrow } from './exec.mjs';

const I0 = S.int(0);
const I1 = S.int(1);
const isT = (v, s) => isTerm(v) && v.sort === s;

Engine.install = installLib;
function installLib(E) {
    const nat = (name, f, extra) => E.native(name, f, extra);
    const G = E.globals;
    E.externals = new Map();
    const use = (n) => E.assumed.add(n);

    // ---- Math, Number, … ---------------------------------------------------------------------
    const num1 = (f) => (a) => {
        const x = E.toNum(a[0] ?? undef);
        if (x.k === 'nan') return NAN;
        return f(x);
    };
    const minmax = (isMin) => (args) => {
        let r = isMin ? inf(true) : inf(false);
        const step = (acc, v) => {
            const x = E.toNum(v);
            if (acc.k === 'nan' || x.k === 'nan') return NAN;
            if (acc.k === 'inf') return acc.pos === isMin ? x : acc;
            if (x.k === 'inf') return x.pos === isMin ? acc : x;
            return isMin ? S.min(acc, x) : S.max(acc, x);
        };
        for (const v of args) r = step(r, v);
        if (args.rest) {
            // extremum of a symbolic sequence
            const s = args.rest;
            if (!E.decide(S.gt(s.len, I0))) return r;
            const p = E.pureAt(s.len, (i) => E.toNum(s.at(i)));
            if (!p || !isTerm(p.v) || !S.isNum(p.v)) throw new Unsupported('min/max of a non-numeric sequence');
            const w = E.fresh('ext', 'Int');
            E.assume(S.and(S.ge(w, I0), S.lt(w, s.len)));
            const m = p.at(w);
            const b = E.bvar();
            E.assume(S.forall([b], S.implies(S.and(S.ge(b, I0), S.lt(b, s.len)), isMin ? S.le(m, p.at(b)) : S.ge(m, p.at(b)))));
            r = step(r, m);
        }
        return r;
    };
    const floorOf = (x) => (x.k === 'inf' ? x : E.floorTerm(x));
    const MathO = E.obj({
        min: nat('Math.min', minmax(true)),
        max: nat('Math.max', minmax(false)),
        floor: nat('Math.floor', num1(floorOf)),
        ceil: nat('Math.ceil', num1((x) => (x.k === 'inf' ? x : S.neg(E.floorTerm(S.neg(x)))))),
        round: nat('Math.round', num1((x) => (x.k === 'inf' ? x : E.floorTerm(S.add(x, S.real(0.5)))))),
        trunc: nat('Math.trunc', num1((x) => (x.k === 'inf' ? x : S.ite(S.ge0(x), E.floorTerm(x), S.neg(E.floorTerm(S.neg(x))))))),
        abs: nat('Math.abs', num1((x) => (x.k === 'inf' ? inf(true) : S.ite(S.ge0(x), x, S.neg(x))))),
        pow: nat('Math.pow', (a) => E.powTerm(E.toNum(a[0]), E.toNum(a[1]))),
        log: nat('Math.log', num1((x) => E.logTerm(x))),
        random: nat('Math.random', () => {
            const r = E.fresh('rand', 'Real');
            E.assume(S.and(S.ge(r, S.real(0)), S.lt(r, S.real(1))));
            return r;
        }),
    });
    G.set('Math', MathO);
    const isInteger = (v) => {
        if (v.k === 'union') return S.ite(v.c, isInteger(v.a), isInteger(v.b));
        if (isT(v, 'Int')) return S.TRUE;
        if (isT(v, 'Real')) return S.eq(S.toReal(S.floor(v)), v);
        if (isT(v, 'Val')) return S.and(S.is('vnum', v), S.eq(S.toReal(S.floor(S.sel('vn', v))), S.sel('vn', v)));
        return S.FALSE;
    };
    const isFinite_ = (v) => {
        if (v.k === 'union') return S.ite(v.c, isFinite_(v.a), isFinite_(v.b));
        if (isTerm(v) && S.isNum(v)) return S.TRUE;
        if (isT(v, 'Val')) return S.is('vnum', v);
        return S.FALSE;
    };
    const isNaN_ = (v) => {
        if (v.k === 'union') return S.ite(v.c, isNaN_(v.a), isNaN_(v.b));
        if (v.k === 'nan') return S.TRUE;
        if (isT(v, 'Val')) return S.is('vnan', v);
        return S.FALSE;
    };
    const NumberF = nat('Number', (a) => (a.length ? E.toNum(a[0]) : I0));
    NumberF.props = new Map(
        Object.entries({
            isInteger: nat('Number.isInteger', (a) => isInteger(a[0] ?? undef)),
            isSafeInteger: nat('Number.isSafeInteger', (a) => isInteger(a[0] ?? undef)),
            isFinite: nat('Number.isFinite', (a) => isFinite_(a[0] ?? undef)),
            isNaN: nat('Number.isNaN', (a) => isNaN_(a[0] ?? undef)),
            MAX_SAFE_INTEGER: S.int(Number.MAX_SAFE_INTEGER),
            MIN_SAFE_INTEGER: S.int(Number.MIN_SAFE_INTEGER),
            NaN: NAN,
            EPSILON: S.real(Number.EPSILON),
            MAX_VALUE: S.real(1.7976931348623157e308),
            POSITIVE_INFINITY: inf(true),
            NEGATIVE_INFINITY: inf(false),
            parseInt: nat('parseInt', (a) => E.parseNum('int', a[0])),
            parseFloat: nat('parseFloat', (a) => E.parseNum('float', a[0])),
        }),
    );
    G.set('Number', NumberF);
    G.set('parseInt', NumberF.props.get('parseInt'));
    G.set('parseFloat', NumberF.props.get('parseFloat'));
    G.set('isNaN', nat('isNaN', (a) => S.bool(E.toNum(a[0]).k === 'nan')));
    G.set('isFinite', nat('isFinite', (a) => isFinite_(E.toNum(a[0]))));
    G.set('Boolean', nat('Boolean', (a) => E.truthy(a[0] ?? undef)));
    G.set('String', nat('String', (a) => (a.length ? E.toStr(a[0]) : S.str(''))));
    const SymF = nat('Symbol', (a) => ({ k: 'sym', name: 's' + E.freshName('sym') }));
    G.set('Symbol', SymF);

    // ---- Array, Object, JSON ---------------------------------------------------------------------
    const isArr = (v) => {
        if (v.k === 'union') return S.ite(v.c, isArr(v.a), isArr(v.b));
        if (v.k === 'seq' || (v.k === 'obj' && v.kind === 'arr')) return S.TRUE;
        if (isT(v, 'Val')) return S.and(S.is('vobj', v), S.app('isarr', [S.sel('vo', v)], 'Bool'));
        return S.FALSE;
    };
    E.isArrayTerm = isArr;
    const ArrayF = nat('Array', (a) => {
        if (a.length === 1 && isTerm(a[0]) && S.isNum(a[0])) return E.arr(seq(E.toInt(a[0]), () => undef));
        return E.arr([...a]);
    });
    ArrayF.construct = (a) => ArrayF.native(a);
    ArrayF.props = new Map(
        Object.entries({
            isArray: nat('Array.isArray', (a) => isArr(a[0] ?? undef)),
            of: nat('Array.of', (a) => E.arr([...a])),
            from: nat('Array.from', (a) => {
                let v = E.force(a[0]);
                let s;
                if (v.k === 'obj' && v.kind === 'obj' && E.hasProp(v, 'length') === S.TRUE) {
                    const n = E.toNum(E.getProp(v, 'length'));
                    if (n.k === 'nan') s = litSeq([]);
                    else {
                        const i = E.toInt(n);
                        const c = S.constNum(i);
                        const m = S.max(i, I0);
                        s = c !== undefined ? litSeq(new Array(Math.max(0, c)).fill(undef)) : seq(m, () => undef);
                    }
                } else s = E.iterable(E.spreadable(v));
                if (a[1]) return E.arrMethod(E.arr(s), s, 'map', [E.force(a[1])]);
                return E.arr(s);
            }),
        }),
    );
    G.set('Array', ArrayF);
    const ObjectF = nat('Object', (a) => a[0] ?? E.obj());
    ObjectF.props = new Map(
        Object.entries({
            keys: nat('Object.keys', (a) => E.arr(E.objKeys(a[0]))),
            values: nat('Object.values', (a) => {
                const o = E.force(a[0]);
                const ks = E.objKeys(o);
                return E.arr(mapSeq(ks, (k) => E.getProp(o, k.op === 'str' ? k.x : k)));
            }),
            entries: nat('Object.entries', (a) => {
                const o = E.force(a[0]);
                const ks = E.objKeys(o);
                return E.arr(mapSeq(ks, (k) => litSeq([k, E.getProp(o, k.op === 'str' ? k.x : k)])));
            }),
            assign: nat('Object.assign', (a) => {
                const t = E.force(a[0]);
                const list = a.slice(1);
                if (a.rest) {
                    if (!a.rest.lit) throw new Unsupported('Object.assign of a symbolic list');
                    list.push(...a.rest.lit);
                }
                for (let s of list) {
                    s = E.force(s);
                    if (s.k === 'undef' || s.k === 'null') continue;
                    const tmp = E.objectSpread(E.obj(), s);
                    if (tmp.base) {
                        // opaque source: becomes an overlay of the target
                        const known = new Map([...t.f].filter(([k]) => !k.startsWith('#')));
                        const prev = t.f.get('#base') ?? t.base ?? null;
                        for (const k of known.keys()) E.del(t, k);
                        const b = tmp.base;
                        E.write(t, '#base', {
                            k: 'basefn',
                            get: (q) => merge(b.has(q), () => b.get(q), () => E.lookupKnown(known, q, prev)),
                            has: (q) => S.or(b.has(q), E.hasKnown(known, q, prev)),
                        });
                    }
                    for (const [k, x] of tmp.f) E.setProp(t, k, x);
                }
                return t;
            }),
            fromEntries: nat('Object.fromEntries', (a) => {
                const s = E.seqOf(a[0]);
                const o = E.obj();
                if (!s.lit) return E.objFromSeq(s);
                for (const e of s.lit) {
                    const es = E.seqOf(e);
                    E.setOwn(o, E.keyOf(es.at(I0)), es.at(I1));
                }
                return o;
            }),
            freeze: nat('Object.freeze', (a) => a[0]),
            defineProperty: nat('Object.defineProperty', (a) => {
                throw new Unsupported('Object.defineProperty');
            }),
        }),
    );
    G.set('Object', ObjectF);
    G.set(
        'JSON',
        E.obj({
            stringify: nat('JSON.stringify', (a) => {
                use('JSON.stringify is an uninterpreted function');
                const v = E.force(a[0]);
                if (isTerm(v) || v.k === 'undef' || v.k === 'null' || v.k === 'obj') {
                    if (v.k === 'undef') return undef;
                    if (v.k === 'null') return S.str('null');
                    if (isTerm(v) && ['Bool', 'Int', 'Real'].includes(v.sort)) return E.toStr(v);
                    return S.app('json', [lift(v)], 'Str');
                }
                return E.fresh('json', 'Str');
            }),
            parse: nat('JSON.parse', (a) => lower(S.app('json_parse', [E.toStr(a[0])], 'Val'))),
        }),
    );
    const errorCtor = (kind) => {
        const f = nat(kind, (a) => f.construct(a));
        f.construct = (a) => {
            const o = E.obj({ message: a.length ? E.toStr(a[0]) : S.str(''), name: S.str(kind) });
            o.errorKind = kind;
            return o;
        };
        return f;
    };
    for (const k of ['Error', 'TypeError', 'RangeError']) G.set(k, errorCtor(k));
    G.set('console', E.obj({ log: nat('log', () => undef), warn: nat('warn', () => undef), error: nat('error', () => undef), info: nat('info', () => undef), debug: nat('debug', () => undef) }));
    G.set('encodeURIComponent', nat('encodeURIComponent', (a) => S.app('uri', [E.toStr(a[0])], 'Str')));
    G.set('structuredClone', nat('structuredClone', (a) => a[0]));

    // ---- Map, Set --------------------------------------------------------------------------------
    const mk = (kind) => {
        const f = nat(kind, () => E.throwType('constructor'));
        f.name = kind[0].toUpperCase() + kind.slice(1);
        f.construct = (a) => {
            const o = E.alloc(kind);
            o.f.set('#m', emptyMap(E));
            const src = a.length ? E.force(a[0]) : undef;
            if (src.k !== 'undef' && src.k !== 'null') {
                const s = E.iterable(E.spreadable(src));
                if (s.lit) for (const x of s.lit) kind === 'set' ? E.mapSet(o, x, S.TRUE) : E.mapSet(o, E.seqOf(x).at(I0), E.seqOf(x).at(I1));
                else if (kind === 'set') o.f.set('#m', E.setFromSeq(s));
                else o.f.set('#m', E.mapFromSeq(s));
            }
            return o;
        };
        return f;
    };
    G.set('Map', mk('map'));
    G.set('Set', mk('set'));
    G.set('WeakMap', mk('map'));
    G.set('WeakSet', mk('set'));

    // ---- Promise and timers ----------------------------------------------------------------------
    const PromiseF = nat('Promise', () => E.throwType('Promise constructor'));
    PromiseF.construct = (a) => {
        const p = E.alloc('promise');
        p.f.set('#state', S.str('pending'));
        const settle = (st) => (x) => {
            if (p.f.get('#state').x !== 'pending') return undef;
            E.write(p, '#state', S.str(st));
            E.write(p, '#value', x[0] ?? undef);
            return undef;
        };
        const res = nat('resolve', settle('resolved'));
        const rej = nat('reject', settle('rejected'));
        p.resolve = res;
        p.reject = rej;
        try {
            E.call(a[0], [res, rej]);
        } catch (e) {
            if (!(e instanceof JsThrow)) throw e;
            settle('rejected')([e.v]);
        }
        return p;
    };
    const settled = (st, v) => {
        const p = E.alloc('promise');
        p.f.set('#state', S.str(st));
        p.f.set('#value', v);
        return p;
    };
    E.resolved = (v) => settled('resolved', v);
    E.rejected = (v) => settled('rejected', v);
    E.pendingPromise = () => {
        const p = E.alloc('promise');
        p.f.set('#state', S.str('pending'));
        return p;
    };
    PromiseF.props = new Map(
        Object.entries({
            resolve: nat('Promise.resolve', (a) => {
                const v = E.force(a[0] ?? undef);
                return v.k === 'obj' && v.kind === 'promise' ? v : settled('resolved', v);
            }),
            reject: nat('Promise.reject', (a) => settled('rejected', a[0] ?? undef)),
            all: nat('Promise.all', (a) => {
                const s = E.seqOf(a[0]);
                if (s.lit && E.tasks) {
                    const all = E.pendingPromise();
                    const list = s.lit.map((x) => E.force(x));
                    const is = (v) => v.k === 'obj' && v.kind === 'promise';
                    const look = () => {
                        for (const v of list) if (is(v) && v.f.get('#state').x === 'rejected') return E.settlePromise(all, 'rejected', v.f.get('#value'));
                        if (list.every((v) => !is(v) || v.f.get('#state').x === 'resolved')) E.settlePromise(all, 'resolved', E.arr(list.map((v) => (is(v) ? v.f.get('#value') : v))));
                    };
                    for (const v of list) if (is(v) && v.f.get('#state').x === 'pending') (v.reactions ??= []).push(look);
                    E.tasks.push(look);
                    return all;
                }
                if (s.lit) {
                    const out = [];
                    for (const x of s.lit) {
                        const v = E.force(x);
                        if (v.k === 'obj' && v.kind === 'promise') {
                            if (v.f.get('#state').x === 'rejected') return settled('rejected', v.f.get('#value'));
                            if (v.f.get('#state').x === 'pending') throw new Unsupported('Promise.all of a pending promise');
                            out.push(v.f.get('#value'));
                        } else out.push(v);
                    }
                    return settled('resolved', E.arr(out));
                }
                // any number of promises, each already fulfilled
                const one = s.at(S.bvar('lay!', 'Int'));
                if (one.k === 'rec' && one.fields.has('#settled')) return settled('resolved', E.arr(seq(s.len, (i) => s.at(i).fields.get('#settled'))));
                const p = E.alloc('promise');
                p.f.set('#state', S.str('all'));
                p.f.set('#value', s);
                return p;
            }),
        }),
    );
    G.set('Promise', PromiseF);
    const defer = (kind) => (a) => {
        const h = E.alloc('handle');
        h.f.set('cancelled', S.FALSE);
        const id = S.app('timer_' + h.id, [], 'Int');
        E.assume(S.gt(id, I0));
        for (const d of E.deferred) if (d.id) E.assume(S.not(S.eq(d.id, id)));
        E.deferred.push({ kind, fn: a[0], delay: a[1], args: a.slice(2), h, id });
        return kind === 'microtask' ? undef : id;
    };
    const cancel = (a) => {
        const t = E.force(a[0] ?? undef);
        if (t.k === 'undef' || t.k === 'null') return undef;
        for (const d of E.deferred) if (d.id && E.decide(E.eq(d.id, t))) E.write(d.h, 'cancelled', S.TRUE);
        return undef;
    };
    G.set('setTimeout', nat('setTimeout', defer('timeout')));
    G.set('setInterval', nat('setInterval', defer('interval')));
    G.set('requestAnimationFrame', nat('requestAnimationFrame', defer('frame')));
    G.set('queueMicrotask', nat('queueMicrotask', defer('microtask')));
    for (const n of ['clearTimeout', 'clearInterval', 'cancelAnimationFrame']) G.set(n, nat(n, cancel));
    /** run the deferred work registered so far (those not cancelled) of the given kinds */
    E.runDeferred = (filter = () => true) => {
        const list = E.deferred.filter((d) => !d.ran && filter(d));
        for (const d of list) {
            if (E.decide(d.h.f.get('cancelled'))) continue;
            E.write(d.h, 'cancelled', S.TRUE);
            E.call(d.fn, d.args ?? []);
        }
    };
    const DateF = nat('Date', () => E.fresh('datestr', 'Str'));
    DateF.props = new Map([['now', nat('Date.now', () => E.now())]]);
    DateF.construct = (a) => {
        const d = E.alloc('date');
        d.f.set('#t', a.length ? E.fresh('time', 'Int') : E.now());
        return d;
    };
    E.now = () => {
        const t = E.fresh('now', 'Int');
        E.assume(S.gt(t, I0));
        return t;
    };
    G.set('Date', DateF);
    G.set('Function', nat('Function', () => E.throwType('Function')));
    for (const n of ['HTMLElement', 'Element', 'KeyboardEvent', 'MouseEvent', 'Event', 'Node', 'RegExp', 'DOMRect', 'File', 'FileList', 'CSSStyleSheet', 'ShadowRoot', 'Text'])
        G.set(n, nat(n, () => E.throwType(n)));
    G.get('RegExp').construct = (a) => {
        const src = E.force(a[0]);
        if (src.k === 'regex') return src;
        const fl = a[1] ? E.toStr(a[1]) : S.str('');
        const t = E.toStr(src);
        if (t.op === 'str' && fl.op === 'str') return { k: 'regex', re: new RegExp(t.x, fl.x), src: `/${t.x}/${fl.x}` };
        return { k: 'regex', sym: t, flags: fl };
    };

    // ---- Vue ---------------------------------------------------------------------------------------
    const isRefV = (v) => v.k === 'obj' && (v.kind === 'ref' || v.kind === 'computed' || v.kind === 'propref');
    const unref = (v) => {
        v = E.force(v);
        return isRefV(v) ? E.getProp(v, 'value') : v;
    };
    E.unref = unref;
    E.computed = (getter, setter) => E.alloc('computed', { getter, setter });
    const hook = (n) => nat(n, (a) => {
        E.hooks[n].push(a[0]);
        return undef;
    });
    const source = (w) => {
        const s = E.force(w);
        if (s.k === 'fn') return E.call(s, []);
        if (isRefV(s)) return E.getProp(s, 'value');
        if (s.k === 'obj' && s.kind === 'arr') return E.arr(E.seqOf(s).lit.map(source));
        return s;
    };
    const watch = (a) => {
        const opt = a[2] ? E.force(a[2]) : undef;
        const flag = (n) => (opt.k === 'undef' ? false : E.decide(E.truthy(E.getProp(opt, n))));
        const w = { src: a[0], cb: a[1], deep: flag('deep'), flushMode: opt, cell: E.alloc('watch') };
        w.cell.f.set('stopped', S.FALSE);
        const src0 = E.force(a[0]);
        w.multi = src0.k === 'obj' && src0.kind === 'arr';
        w.deep ||= src0.k === 'obj' && !isRefV(src0) && !w.multi;
        w.once = flag('once');
        w.read = () => (src0.k === 'fn' ? E.cached(w, () => source(src0)) : source(src0));
        w.note = (v = w.read()) => {
            E.write(w.cell, 'old', v);
            if (w.deep) E.write(w.cell, 'snap', E.snapshot(v));
        };
        w.note();
        E.watchers.push(w);
        if (flag('immediate')) E.call(w.cb, [E.inScope(() => source(w.src)), undef, E.native('onCleanup', () => undef)]);
        return E.native('stop', () => {
            E.write(w.cell, 'stopped', S.TRUE);
            return undef;
        });
    };
    E.inScope = (f) => f();
    const vue = {
        ref: nat('ref', (a) => {
            const v = a.length ? E.force(a[0]) : undef;
            return isRefV(v) ? v : E.ref(v);
        }),
        shallowRef: nat('shallowRef', (a) => E.ref(a[0] ?? undef)),
        reactive: nat('reactive', (a) => {
            const o = E.force(a[0]);
            if (o.k === 'obj') o.reactive = true;
            return o;
        }),
        readonly: nat('readonly', (a) => a[0]),
        markRaw: nat('markRaw', (a) => a[0]),
        toRaw: nat('toRaw', (a) => a[0]),
        computed: nat('computed', (a) => {
            const o = E.force(a[0]);
            if (o.k === 'fn') return E.computed(o);
            return E.computed(E.getProp(o, 'get'), E.getProp(o, 'set'));
        }),
        unref: nat('unref', (a) => unref(a[0])),
        toValue: nat('toValue', (a) => {
            const v = E.force(a[0]);
            return v.k === 'fn' ? E.call(v, []) : unref(v);
        }),
        isRef: nat('isRef', (a) => S.bool(isRefV(E.force(a[0])))),
        toRefs: nat('toRefs', (a) => {
            const o = E.force(a[0]);
            const r = E.obj();
            for (const k of o.f.keys()) r.f.set(k, E.alloc('propref', { target: o, key: k }));
            if (o.base) r.base = { get: (k) => E.alloc('propref', { target: o, key: k.op === 'str' ? k.x : k }), has: () => S.TRUE };
            return r;
        }),
        toRef: nat('toRef', (a) => E.alloc('propref', { target: E.force(a[0]), key: E.keyOf(a[1]) })),
        watch: nat('watch', watch),
        watchEffect: nat('watchEffect', (a) => {
            const w = { effect: a[0], cell: E.alloc('watch') };
            w.cell.f.set('stopped', S.FALSE);
            w.run = () => {
                w.cache = null;
                E.cached(w, () => E.call(a[0], []));
            };
            w.run();
            if (!w.cache) throw new Unsupported('watchEffect inside a loop');
            E.watchers.push(w);
            return E.native('stop', () => {
                E.write(w.cell, 'stopped', S.TRUE);
                return undef;
            });
        }),
        nextTick: nat('nextTick', (a) => {
            if (a.length && E.force(a[0]).k === 'fn') {
                defer('tick')(a);
                return E.resolved(undef);
            }
            return E.resolved(undef);
        }),
        onMounted: hook('mounted'),
        onBeforeMount: hook('beforeMount'),
        onUnmounted: hook('unmounted'),
        onBeforeUnmount: hook('beforeUnmount'),
        onUpdated: hook('updated'),
        provide: nat('provide', (a) => {
            E.provided.set(E.keyOf(a[0]), a[1]);
            return undef;
        }),
        inject: nat('inject', (a) => {
            const k = E.keyOf(a[0]);
            if (E.injected.has(k)) return E.injected.get(k);
            if (a.length < 2) return undef;
            const d = E.force(a[1]);
            return d.k === 'fn' && a[2] && E.decide(E.truthy(a[2])) ? E.call(d, []) : d;
        }),
        defineComponent: nat('defineComponent', (a) => a[0]),
        defineAsyncComponent: nat('defineAsyncComponent', (a) => a[0]),
        useTemplateRef: nat('useTemplateRef', () => E.ref(nul)),
        useSlots: nat('useSlots', () => E.obj()),
        useAttrs: nat('useAttrs', () => E.obj()),
        useId: nat('useId', () => E.fresh('uid', 'Str')),
        getCurrentInstance: nat('getCurrentInstance', () => nul),
        h: nat('h', (a) => {
            const o = E.obj({ type: a[0] ?? undef, props: a[1] ?? nul, children: a[2] ?? nul });
            return o;
        }),
        render: nat('render', () => undef),
        Comment: { k: 'sym', name: 'Comment' },
        Fragment: { k: 'sym', name: 'Fragment' },
        Text: { k: 'sym', name: 'Text' },
        KeepAlive: E.obj({ name: S.str('KeepAlive') }),
        Teleport: E.obj({ name: S.str('Teleport') }),
        Transition: E.obj({ name: S.str('Transition') }),
        TransitionGroup: E.obj({ name: S.str('TransitionGroup') }),
    };
    E.vue = vue;
    E.externals.set('vue', vue);
    const isEqual = (a) => E.deepEqual(a[0] ?? undef, a[1] ?? undef);
    E.externals.set('radash', {
        isEqual: nat('isEqual', isEqual),
        debounce: nat('debounce', (a) => a[1]),
        throttle: nat('throttle', (a) => a[1]),
        get: nat('get', (a) => E.rGet(a[0] ?? undef, a[1], a[2] ?? undef)),
        assign: nat('assign', (a) => E.rAssign(a[0] ?? undef, a[1] ?? undef)),
        isEmpty: nat('isEmpty', (a) => E.rIsEmpty(a[0] ?? undef)),
        isObject: nat('isObject', (a) => E.rIsObject(a[0] ?? undef)),
        omit: nat('omit', (a) => {
            const o = E.force(a[0] ?? undef);
            if (!E.decide(E.truthy(o))) return E.obj();
            const ks = a[1] ? E.seqOf(E.force(a[1])) : litSeq([]);
            if (!E.decide(S.gt(ks.len, I0))) return o;
            if (isTerm(o)) {
                use('radash.omit/crush of an opaque item is a function of the item and the omitted keys');
                return S.app('omit_' + E.omitTag(ks), [lift(o)], 'Val');
            }
            const r = E.objectSpread(E.obj(), o);
            E.iterate(ks, (k) => {
                E.deleteProp(r, E.keyOf(k));
                return 'cont';
            });
            return r;
        }),
        shake: nat('shake', (a) => {
            const o = E.force(a[0] ?? undef);
            if (!E.decide(E.truthy(o))) return E.obj();
            if (a[1]) throw new Unsupported('shake with a filter');
            if (o.k !== 'obj') throw new Unsupported('shake of an unknown object');
            const under = o.f.get('#base') ?? o.base;
            if (under) {
                const known = new Map([...o.f].filter(([k]) => !k.startsWith('#')));
                const get = (k) => E.lookupKnown(known, k, under);
                return E.obj({}, { base: { get, has: (k) => S.and(E.hasKnown(known, k, under), S.not(E.isUndef(get(k)))) } });
            }
            const r = E.obj();
            for (const [k, v] of o.f) {
                if (k.startsWith('#') || v.k === 'absent') continue;
                const u = E.isUndef(v);
                if (u === S.TRUE) continue;
                if (u === S.FALSE || !E.decide(u)) r.f.set(k, v);
            }
            return r;
        }),
        crush: nat('crush', (a) => {
            const o = E.force(a[0] ?? undef);
            if (!isTerm(o)) throw new Unsupported('crush of a known object');
            use('radash.omit/crush of an opaque item is a function of the item and the omitted keys');
            return S.app('crush', [lift(o)], 'Val');
        }),
    });
    E.externals.set('nanoid', {
        customAlphabet: nat('customAlphabet', () => E.externals.get('nanoid').nanoid),
        nanoid: nat('nanoid', () => {
            use('nanoid returns a non-empty string not returned before, always of the same length');
            const id = E.fresh('nanoid', 'Str');
            E.assume(S.not(S.eq(id, S.str(''))));
            // unique: the identifier determines the call (and iteration) that produced it
            const k = (E.ghost.nanoids = (E.ghost.nanoids ?? 0) + 1);
            E.assume(S.eq(S.app('nid_call', [id], 'Int'), S.int(k)));
            id.args.forEach((x, i) => E.assume(S.eq(S.app('nid_arg' + i, [id], x.sort), x)));
            return id;
        }),
    });
    const sfun = (n) => nat(n, (a) => E.strFun(n, E.toStr(a[0])));
    E.externals.set('change-case', { kebabCase: sfun('kebabCase'), pascalCase: sfun('pascalCase'), camelCase: sfun('camelCase') });
    E.externals.set('@lucide/vue', { '*': (n) => E.obj({ name: S.str(n) }) });
    const F = E.obj();
    G.set('globalThis', F);
    G.set('process', E.obj({ env: E.obj() }));
    for (const [n, o] of G) if (o.k === 'obj' && o.kind === 'obj' && n !== 'process') o.builtin = n;
}

const emptyMap = () => ({ k: 'mapstate', has: () => S.FALSE, get: () => undef, keys: litSeq([]) });
function mapSeq(s, f) {
    if (s.lit) return litSeq(s.lit.map(f));
    return seq(s.len, (i) => f(s.at(i)));
}

Object.assign(Engine.prototype, {
    // ---- radash ------------------------------------------------------------------------------------------
    omitTag(ks) {
        // same key list -> same function
        if (ks.lit) return ks.lit.map((x) => x.id ?? '?').join('_');
        return ks.len.id + '_' + lift(ks.at(S.bvar('canon!', 'Int'))).id;
    },
    rGet(o, path, def) {
        o = this.force(o);
        const p = this.toStr(path);
        let r;
        if (p.op === 'str') {
            r = o;
            for (const seg of p.x.split(/[\.\[\]]/g)) {
                r = this.force(r);
                if (this.decide(this.isNullish(r))) return def;
                const d = seg.replace(/['"]/g, '');
                if (d.trim() === '') continue;
                r = /^\d+$/.test(d) && r.k === 'obj' && r.kind === 'arr' ? this.getElem(r, S.int(Number(d))) : this.getProp(r, d);
            }
        } else {
            this.assumed.add('radash.get is a function of the value and the path');
            r = S.app('rget', [lift(o), p], 'Val');
        }
        if (def.k === 'undef') return r;
        return merge(this.isUndef(r), def, r);
    },
    rIsObject(o) {
        if (o.k === 'union') return S.ite(o.c, this.rIsObject(o.a), this.rIsObject(o.b));
        if (o.k === 'rec') return S.TRUE;
        if (o.k === 'obj') return S.bool(o.kind === 'obj' && !o.cls);
        if (isT(o, 'Val')) return S.and(S.is('vobj', o), S.app('isplain', [S.sel('vo', o)], 'Bool'));
        return S.FALSE;
    },
    rIsEmpty(o) {
        if (o.k === 'union') return S.ite(o.c, this.rIsEmpty(o.a), this.rIsEmpty(o.b));
        if (o.k === 'undef' || o.k === 'null') return S.TRUE;
        if (o.k === 'fn' || o.k === 'sym') return S.FALSE;
        if (o.k === 'seq') return S.eq(o.len, I0);
        if (isTerm(o)) {
            if (o.sort === 'Bool') return S.TRUE;
            if (S.isNum(o)) return S.eq(o, o.sort === 'Int' ? I0 : S.real(0));
            if (o.sort === 'Str') return S.eq(o, S.str(''));
            return S.app('rempty', [lift(o)], 'Bool');
        }
        if (o.k === 'obj' && o.kind === 'arr') return S.eq(this.seqOf(o).len, I0);
        if (o.k === 'obj' && (o.kind === 'map' || o.kind === 'set')) return S.eq(o.f.get('#m').keys.len, I0);
        if (o.k === 'obj' || o.k === 'rec') {
            const f = o.k === 'obj' ? o.f : o.fields;
            const known = [...f].some(([k, v]) => !k.startsWith('#') && v.k !== 'absent');
            if (known) return S.FALSE;
            if (!(o.base ?? o.f?.get('#base'))) return S.TRUE;
        }
        throw new Unsupported('isEmpty of ' + o.k);
    },
    rAssign(a, b) {
        a = this.force(a);
        b = this.force(b);
        if (!this.decide(this.truthy(a)) || !this.decide(this.truthy(b))) {
            if (!this.decide(this.isNullish(a))) return a;
            if (!this.decide(this.isNullish(b))) return b;
            return this.obj();
        }
        const shape = (o) => {
            if (o.k === 'rec') return { f: o.fields, base: o.base };
            if (o.k === 'obj') return { f: o.f, base: o.f.get('#base') ?? o.base ?? null };
            if (isT(o, 'Val')) {
                const ob = S.sel('vo', o);
                return { f: new Map(), base: { get: (k) => lower(S.app('prop', [ob, k], 'Val')), has: (k) => S.app('hasprop', [ob, k], 'Bool') } };
            }
            return { f: new Map(), base: null };
        };
        const sa = shape(a);
        const sb = shape(b);
        if (sa.base || sb.base) {
            // key by key: the second value where present, merged into the first where that is an object
            const own = (f) => new Map([...f].filter(([k]) => !k.startsWith('#') && !k.startsWith('@@')));
            const look = (x) => {
                const known = own(x.f);
                return { get: (k) => this.lookupKnown(known, k, x.base), has: (k) => this.hasKnown(known, k, x.base) };
            };
            const [A, B] = [look(sa), look(sb)];
            this.assumed.add('radash.assign of two opaque values is a function of the values');
            return this.obj(
                {},
                {
                    base: {
                        get: (k) => {
                            const [x, y] = [lift(A.get(k)), lift(B.get(k))];
                            const v = S.ite(B.has(k), y, x);
                            return lower(S.ite(S.and(A.has(k), this.rIsObject(lower(x))), S.app('rassign', [x, v], 'Val'), v));
                        },
                        has: (k) => S.or(A.has(k), B.has(k)),
                    },
                },
            );
        }
        const r = this.obj();
        for (const k of new Set([...sa.f.keys(), ...sb.f.keys()])) {
            if (k.startsWith('#') || k.startsWith('@@')) continue;
            const va = sa.f.get(k);
            const vb = sb.f.get(k);
            const hasA = va && va.k !== 'absent';
            const hasB = vb && vb.k !== 'absent';
            if (!hasA && !hasB) continue;
            const value = hasB ? vb : va;
            if (hasA && this.decide(this.rIsObject(this.force(va)))) r.f.set(k, this.rAssign(va, value));
            else r.f.set(k, value);
        }
        return r;
    },
    floorTerm(x) {
        const i = S.asInt(x);
        if (i) return i;
        // floor(a/b) for symbolic b: introduce the quotient with its defining inequalities
        if (x.op === 'num') return S.floor(x);
        const f = S.floor(x);
        const d = findDiv(x);
        if (d && f.op !== 'idiv') {
            const q = this.defTerm('floor', x, 'Int');
            const xr = x;
            this.assumeOnce(S.and(S.le(S.toReal(q), xr), S.lt(xr, S.toReal(S.add(q, I1)))));
            return q;
        }
        return f;
    },
    /** deterministic name for a derived quantity of x */
    defTerm(name, x, sort) {
        return S.app(`${name}_of`, [x], sort);
    },
    powTerm(x, y) {
        const a = S.constNum(x);
        const b = S.constNum(y);
        if (a !== undefined && b !== undefined) return S.num(a ** b);
        if (b !== undefined && Number.isInteger(b) && b >= 0 && b <= 4) return this.arith('**', x, y);
        if (a !== undefined && y.sort === 'Int' && a > 1) {
            this.assumed.add('powers of a constant are exact and strictly increasing');
            const p = (t) => S.app('pow_' + a, [t], 'Real');
            this.assumeOnce(S.gt(p(y), S.real(0)));
            for (let k = 0; k <= 8; k++) this.assumeOnce(S.implies(S.eq(y, S.int(k)), S.eq(p(y), S.real(a ** k))));
            return p(y);
        }
        throw new Unsupported('Math.pow');
    },
    logTerm(x) {
        if (x.k === 'inf') return x.pos ? x : NAN;
        const c = S.constNum(x);
        if (c !== undefined) return c > 0 ? S.real(Math.log(c)) : c === 0 ? inf(false) : NAN;
        if (this.decide(S.eq(x, x.sort === 'Int' ? I0 : S.real(0)))) return inf(false);
        if (!this.decide(S.gt0(x))) return NAN;
        return S.app('ln', [S.toReal(x)], 'Real');
    },
    parseNum(kind, v) {
        const t = this.toStr(v);
        if (t.op === 'str') {
            const n = kind === 'int' ? parseInt(t.x, 10) : parseFloat(t.x);
            return Number.isNaN(n) ? NAN : S.num(n);
        }
        if (this.decide(S.app(`parse_${kind}_ok`, [t], 'Bool'))) return S.app(`parse_${kind}`, [t], kind === 'int' ? 'Int' : 'Real');
        return NAN;
    },
    /** unary string function: computed on constants, uninterpreted otherwise */
    strFun(n, s) {
        if (n.startsWith('str_trim') && s.op === 'app' && (s.x === 'str_cat' || s.x === 'i2s')) {
            const tk = this.tokens(s);
            const space = (t) => (t.c !== undefined ? String.fromCharCode(t.c).trim() === '' : undefined);
            const run = (t) => t.r && t.r.every(([a, b]) => a > 32 && b < 128);
            if (tk?.length && tk.every((t) => t.c !== undefined || run(t))) {
                let [a, b] = [0, tk.length];
                if (n !== 'str_trimEnd') while (a < b && space(tk[a])) a++;
                if (n !== 'str_trimStart') while (b > a && space(tk[b - 1])) b--;
                return this.textOf(tk.slice(a, b));
            }
        }
        if (s.op === 'str') {
            const f = {
                str_lower: (x) => x.toLowerCase(),
                str_upper: (x) => x.toUpperCase(),
                str_trim: (x) => x.trim(),
                str_trimEnd: (x) => x.trimEnd(),
                str_trimStart: (x) => x.trimStart(),
            }[n];
            if (f) return S.str(f(s.x));
            const k = { kebabCase: kebab }[n];
            if (k) return S.str(k(s.x));
        }
        if (s.op === 'app' && s.x === n) return s; // idempotent
        if (s.op === 'ite') return S.ite(s.args[0], this.strFun(n, s.args[1]), this.strFun(n, s.args[2]));
        return S.app(n, [s], 'Str');
    },
    strAt(s, i) {
        const c = S.constNum(i);
        if (s.op === 'str' && c !== undefined) return c < s.x.length && c >= 0 ? S.str(s.x[c]) : undef;
        const inR = S.and(S.ge(i, I0), S.lt(i, S.strLen(s)));
        return this.decide(inR) ? S.app('str_at', [s, i], 'Str') : undef;
    },
    /** patterns for a variable: the uninterpreted applications taking it directly, or undefined when there are none */
    appsOf(t, x) {
        const out = new Map();
        const seen = new Set();
        const walk = (u) => {
            if (seen.has(u)) return;
            seen.add(u);
            if (u.op === 'app' && u.args.includes(x) && u.args.every((a) => a === x || !a.args?.includes(x))) out.set(u, [u]);
            for (const a of u.args ?? []) walk(a);
        };
        walk(t);
        return out.size ? [...out.values()] : undefined;
    },
    objKeys(v) {
        v = this.force(v);
        if (v.k === 'undef' || v.k === 'null') this.throwType('keys of nullish');
        if (v.k === 'obj' && v.kind === 'arr') return mapSeq2(v.f.get('#seq').len);
        if (v.k === 'obj' || v.k === 'rec') {
            const f = v.k === 'obj' ? v.f : v.fields;
            const base = v.k === 'obj' ? (v.f.get('#base') ?? v.base) : v.base;
            const ks = [...f].filter(([k, x]) => !k.startsWith('#') && !k.startsWith('@@') && x.k !== 'absent').map(([k]) => S.str(k));
            if (!base) return litSeq(ks);
            if (base.keys) {
                // base keys without the overridden ones, then the own ones not in the base
                let s = base.keys();
                const known = [...f].filter(([k]) => !k.startsWith('#'));
                if (known.length) throw new Unsupported('keys of a partly known object');
                return s;
            }
            // opaque: an unknown duplicate-free list of exactly the present keys
            const nm = this.freshName('keys');
        const fun = this.closed();
            const n = fun(nm + 'N', [], 'Int');
            const at = (i) => fun(nm, [i], 'Str');
            const pos = (k) => fun(nm + 'P', [k], 'Int');
            this.assume(S.ge(n, I0));
            const b = this.bvar();
            const q = this.bvar('Str', 'q');
            const has = (k) => this.hasProp(v, k);
            this.assume(S.forall([b], S.implies(S.and(S.ge(b, I0), S.lt(b, n)), S.and(has(at(b)), S.eq(pos(at(b)), b))), [[at(b)]]));
            const found = S.implies(has(q), S.and(S.ge(pos(q), I0), S.lt(pos(q), n), S.eq(at(pos(q)), q)));
            this.assume(S.forall([q], found, this.appsOf(has(q), q)));
            return seq(n, at);
        }
        if (isT(v, 'Val')) {
            if (this.decide(this.isNullish(v))) this.throwType('keys of nullish');
            const o = this.obj({}, { base: { get: (k) => lower(S.app('prop', [S.sel('vo', v), k], 'Val')), has: (k) => S.app('hasprop', [S.sel('vo', v), k], 'Bool') } });
            return this.objKeys(o);
        }
        throw new Unsupported('keys of ' + v.k);
    },
    objFromSeq(s) {
        // last entry with the key wins
        const key = (i) => this.toStr(this.seqOf(s.at(i)).at(I0));
        const val = (i) => this.seqOf(s.at(i)).at(I1);
        const nm = this.freshName('fe');
        const fun = this.closed();
        const pos = (k) => fun(nm, [k], 'Int');
        const b = this.bvar();
        const q = this.bvar('Str', 'q');
        this.assume(S.forall([q], S.and(S.ge(pos(q), S.int(-1)), S.lt(pos(q), s.len), S.implies(S.ge(pos(q), I0), S.eq(key(pos(q)), q))), [[pos(q)]]));
        this.assume(S.forall([b], S.implies(S.and(S.ge(b, I0), S.lt(b, s.len)), S.ge(pos(key(b)), b)), [[key(b)]]));
        return this.obj({}, { base: { get: (k) => merge(S.ge(pos(k), I0), () => val(pos(k)), undef), has: (k) => S.ge(pos(k), I0) } });
    },

    // ---- property reads on built-in values -------------------------------------------------------
    arrProp(o, k) {
        const s = this.seqOf(o);
        if (k === 'length') return s.len;
        if (typeof k === 'string' && /^\d+$/.test(k)) return this.index(s, S.int(Number(k)));
        if (typeof k !== 'string') throw new Unsupported('symbolic string index of an array');
        const m = this.method(o, k);
        if (m) return this.native(k, m);
        return undef;
    },
    termProp(t, k, node) {
        switch (t.sort) {
            case 'Str':
                if (k === 'length') return S.strLen(t);
                if (typeof k === 'string' && /^\d+$/.test(k)) return this.strAt(t, S.int(Number(k)));
                break;
            case 'Val': {
                if (this.decide(this.isNullish(t))) this.throwType(`property ${typeof k === 'string' ? k : '[key]'} of nullish${node ? ' at ' + this.where(node) : ''}`);
                if (k === 'length') {
                    if (this.decide(S.is('vstr', t))) return S.strLen(S.sel('vs', t));
                    if (this.decide(this.isArrayTerm(t))) return this.opaqueSeq(t).len;
                }
                if (this.decide(S.is('vobj', t))) return lower(S.app('prop', [S.sel('vo', t), typeof k === 'string' ? S.str(k) : k], 'Val'));
                return undef;
            }
            case 'Obj':
                return lower(S.app('prop', [t, typeof k === 'string' ? S.str(k) : k], 'Val'));
        }
        const m = typeof k === 'string' ? this.method(t, k) : null;
        if (m) return this.native(k, m);
        return undef;
    },
    builtinProp(o, k) {
        if ((o.kind === 'map' || o.kind === 'set') && k === 'size') return o.f.get('#m').keys.len;
        const m = this.method(o, k);
        if (m) return this.native(k, m);
        return undefined;
    },

    // ---- methods ------------------------------------------------------------------------------------
    method(o, name, node) {
        if (o.k === 'obj') {
            if (o.f.has(name)) return null;
            switch (o.kind) {
                case 'arr':
                    return ARR.has(name) ? (a) => this.arrMethod(o, o.f.get('#seq'), name, a, node) : null;
                case 'map':
                case 'set':
                    return MAPM.has(name) ? (a) => this.mapMethod(o, name, a) : null;
                case 'promise':
                    return ['then', 'catch', 'finally'].includes(name) ? (a) => this.promiseMethod(o, name, a) : null;
                case 'date':
                    if (name === 'getTime' || name === 'valueOf') return () => o.f.get('#t');
                    if (name === 'toISOString') return () => S.app('iso', [o.f.get('#t')], 'Str');
                    return null;
                case 'obj':
                    if (name === 'hasOwnProperty') return (a) => this.hasProp(o, this.keyOf(a[0]));
                    return null;
                default:
                    return null;
            }
        }
        if (o.k === 'seq') return ARR.has(name) ? (a) => this.arrMethod(o, o, name, a, node) : null;
        if (o.k === 'fn') {
            if (o.props?.has(name)) return null;
            if (name === 'call') return (a) => this.call(o, a.slice(1), a[0]);
            if (name === 'apply') return (a) => {
                const s = this.seqOf(a[1]);
                if (s.lit) return this.call(o, s.lit, a[0]);
                const args = [];
                args.rest = s;
                return this.call(o, args, a[0]);
            };
            if (name === 'bind') return (a) => this.native(o.name, (b) => this.call(o, [...a.slice(1), ...b], a[0]));
            return null;
        }
        if (o.k === 'regex') {
            if (name === 'test') return (a) => this.regexTest(o, this.toStr(a[0]));
            if (name === 'exec') return (a) => this.strMethod(this.toStr(a[0]), 'match', [o]);
            return null;
        }
        if (o.k === 'nan' || o.k === 'inf') {
            if (name === 'toString') return () => this.toStr(o);
            if (name === 'toFixed') return () => this.toStr(o);
            return null;
        }
        if (isTerm(o)) {
            if (o.sort === 'Str') return STR.has(name) ? (a) => this.strMethod(o, name, a, node) : null;
            if (o.sort === 'Int' || o.sort === 'Real') {
                if (name === 'toString') return (a) => (a.length ? S.app('num2str_r', [S.toReal(o), S.toReal(this.toNum(a[0]))], 'Str') : this.toStr(o));
                if (name === 'toFixed') return (a) => {
                    const d = a.length ? S.constNum(this.toNum(a[0])) : 0;
                    const c = S.constNum(o);
                    if (c !== undefined && d !== undefined) return S.str(c.toFixed(d));
                    return S.app('toFixed_' + d, [S.toReal(o)], 'Str');
                };
                if (name === 'toLocaleString') return () => S.app('num_locale', [S.toReal(o)], 'Str');
                return null;
            }
            if (o.sort === 'Bool') {
                if (name === 'toString') return () => this.toStr(o);
                return null;
            }
            if (o.sort === 'Val') {
                if (name === 'getTime')
                    return () => {
                        if (!this.decide(S.and(S.is('vobj', o), S.app('instof_Date', [S.sel('vo', o)], 'Bool')))) throw new Unsupported('getTime of an opaque value');
                        return S.app('date_time', [S.sel('vo', o)], 'Int');
                    };
                if (!STR.has(name) && !ARR.has(name)) return null;
                return (a) => {
                    if (this.decide(this.isNullish(o))) this.throwType(`call of ${name} on nullish${node ? ' at ' + this.where(node) : ''}`);
                    if (name === 'toString') return this.toStr(o);
                    if (STR.has(name) && this.decide(S.is('vstr', o))) return this.strMethod(S.sel('vs', o), name, a, node);
                    if (ARR.has(name) && this.decide(this.isArrayTerm(o))) return this.arrMethod(o, this.opaqueSeq(o), name, a, node);
                    if (name === 'concat' || this.decide(S.is('vobj', o))) {
                        if (this.opaqueMethod) return this.opaqueMethod(o, name, a);
                        throw new Unsupported(`method ${name} of an opaque object`);
                    }
                    return this.throwType(`${name} is not a function`);
                };
            }
        }
        return null;
    },
    regexTest(r, s) {
        if (r.sym) return S.app('re_test', [r.sym, s], 'Bool');
        if (s.op === 'str') return S.bool(new RegExp(r.re.source, r.re.flags.replace('g', '')).test(s.x));
        if (s.op === 'ite') return S.ite(s.args[0], this.regexTest(r, s.args[1]), this.regexTest(r, s.args[2]));
        const sm = this.structuredMatch(r.re, s);
        if (sm !== undefined) return S.bool(sm !== null);
        if (this.regexHook) {
            const t = this.regexHook(r, s);
            if (t) return t;
        }
        if (this.strings === 'smt') {
            const t = this.inRe(s, r.re);
            if (t) return t;
        }
        this.assumed.add('regular expression tests are uninterpreted predicates of the string');
        return S.app('re_' + r.re.source + '/' + r.re.flags.replace('g', ''), [s], 'Bool');
    },
    /** the structure of a string: literal characters, decimal numbers and texts of a declared class; null when not known */
    tokens(s) {
        if (s.op === 'str') return [...s.x].flatMap((ch) => [...Array(ch.length).keys()].map((i) => ({ c: ch.charCodeAt(i) })));
        if (s.op === 'app' && s.x === 'str_cat') {
            const a = this.tokens(s.args[0]);
            const b = a && this.tokens(s.args[1]);
            return b ? [...a, ...b] : null;
        }
        if (s.op === 'app' && s.x === 'i2s' && this.proves(S.ge0(s.args[0]))) return [{ r: [[48, 57]], t: s }];
        const c = this.textClass?.get(s);
        return c ? [{ r: c, t: s }] : null;
    },
    textOf(tokens) {
        return tokens.map((t) => t.t ?? S.str(String.fromCharCode(t.c))).reduce((a, b) => S.strCat(a, b), S.str(''));
    },
    /** the text is a non-empty run of characters of the class (a regular expression such as /[0-9a-z]/) */
    textOfClass(s, re) {
        (this.textClass ??= new Map()).set(s, R.parse(re.source).n.l[0].r);
        this.assume(S.not(S.eq(s, S.str(''))));
        return s;
    },
    /** a match on a string of known structure: null, an array of strings, or undefined when it is not decided */
    structuredMatch(re, s) {
        if (s.op === 'str' || s.op === 'ite') return undefined;
        const tk = this.tokens(s);
        const x = tk && R.parse(re.source, re.flags);
        if (!x) return undefined;
        let m;
        try {
            m = R.matchTokens(x, tk);
        } catch (e) {
            if (e instanceof R.Undetermined) return undefined;
            throw e;
        }
        if (!m) return null;
        const out = [this.textOf(tk.slice(m.from, m.to))];
        for (let g = 1; g <= x.groups; g++) {
            if (m.groups[g] === 'unknown') return undefined;
            out.push(m.groups[g] ? this.textOf(tk.slice(...m.groups[g])) : undef);
        }
        return out;
    },
    /** the pattern is found in the string, in the theory of strings; null when the pattern is not supported */
    inRe(s, re) {
        const x = R.parse(re.source, re.flags);
        const l = x && R.found(x);
        return l ? S.app('in_re:' + l, [s], 'Bool') : null;
    },
    /** the groups of a pattern known to be found in s: some decomposition of s along the pattern */
    reGroups(s, re) {
        const x = R.parse(re.source, re.flags);
        if (!x) return null;
        const alts = R.alternatives(x.n);
        if (alts.length !== 1 && x.groups) return null;
        const key = `/${re.source}/${re.flags}`;
        let k = 0;
        const G = (i) => S.app(`re_g${i}_${key}`, [s], 'Val');
        const facts = [];
        const none = (n) => R.groupsOf(n).map((i) => S.is('undef', G(i)));
        // returns [term, conditions]
        const go = (n) => {
            if (n.t === 'group') {
                const [t, c] = go(n.n);
                return [t, [...c, S.eq(G(n.idx), lift(t))]];
            }
            if (n.t === 'seq') {
                let t = S.str('');
                const cs = [];
                for (const y of n.l) {
                    const [u, c] = go(y);
                    t = S.strCat(t, u);
                    cs.push(...c);
                }
                return [t, cs];
            }
            const p = S.app(`re_p${k++}_${key}`, [s], 'Str');
            const l = R.lang(n);
            if (l === null) throw new Unsupported('regular expression ' + key);
            const self = S.app('in_re:' + l, [p], 'Bool');
            if (!R.hasGroup(n)) return [p, [self]];
            if (n.t === 'rep' && n.min === 0 && n.max === 1) {
                const [t, c] = go(n.n);
                return [p, [self, S.or(S.and(S.eq(p, S.str('')), ...none(n)), S.and(S.eq(p, t), ...c))]];
            }
            return [p, [self, ...R.groupsOf(n).map((i) => S.or(S.is('undef', G(i)), S.is('vstr', G(i))))]];
        };
        const a = alts[0];
        const body = go({ t: 'seq', l: a.l });
        let t = body[0];
        if (!a.start) t = S.strCat(S.app(`re_pre_${key}`, [s], 'Str'), t);
        if (!a.end) t = S.strCat(t, S.app(`re_post_${key}`, [s], 'Str'));
        facts.push(S.eq(s, t), ...body[1]);
        for (const f of facts) this.assumeOnce(f);
        const out = [body[0]];
        for (let g = 1; g <= x.groups; g++) out.push(lower(G(g)));
        return out;
    },
    strMethod(s, name, a, node) {
        const str = (i) => this.toStr(a[i]);
        const isC = s.op === 'str';
        const allC = () => isC && a.every((x) => isTerm(x) && (x.op === 'str' || x.op === 'num'));
        const js = () => a.map((x) => (x.op === 'str' ? x.x : S.constNum(x)));
        switch (name) {
            case 'toString':
            case 'valueOf':
            case 'normalize':
                return s;
            case 'toLowerCase':
                return this.strFun('str_lower', s);
            case 'toUpperCase':
                return this.strFun('str_upper', s);
            case 'trim':
                return this.strFun('str_trim', s);
            case 'trimEnd':
                return this.strFun('str_trimEnd', s);
            case 'trimStart':
                return this.strFun('str_trimStart', s);
            case 'includes':
                if (allC()) return S.bool(s.x.includes(...js()));
                return this.strRel('str_contains', s, str(0));
            case 'startsWith':
                if (allC()) return S.bool(s.x.startsWith(...js()));
                return this.strRel('str_prefix', str(0), s);
            case 'endsWith':
                if (allC()) return S.bool(s.x.endsWith(...js()));
                return this.strRel('str_suffix', str(0), s);
            case 'slice':
            case 'substring':
            case 'substr':
            case 'at':
            case 'charAt':
            case 'charCodeAt':
            case 'codePointAt':
            case 'indexOf':
            case 'lastIndexOf':
            case 'padStart':
            case 'padEnd':
            case 'repeat':
            case 'localeCompare': {
                if (allC()) {
                    const r = s.x[name](...js());
                    return typeof r === 'string' ? S.str(r) : r === undefined ? undef : Number.isNaN(r) ? NAN : S.num(r);
                }
                if (name === 'localeCompare') return this.localeCompare(s, str(0), a);
                if (name === 'indexOf' && this.strings === 'smt') return S.app('str_indexof', [s, str(0), I0], 'Int');
                if (this.strings === 'smt') {
                    const r = this.smtString(s, name, a);
                    if (r) return r;
                }
                const args = a.map((x) => lift(this.force(x)));
                const sort = name === 'charCodeAt' || name === 'indexOf' || name === 'lastIndexOf' || name === 'codePointAt' ? 'Int' : 'Str';
                const r = S.app(`str_${name}_${a.length}`, [s, ...args], sort);
                if (name === 'charCodeAt') this.assumeOnce(S.and(S.ge(r, I0), S.le(r, S.int(65535))));
                if (name === 'indexOf') this.assumeOnce(S.ge(r, S.int(-1)));
                return r;
            }
            case 'concat':
                return a.reduce((x, y) => S.strCat(x, this.toStr(y)), s);
            case 'split': {
                const sep = this.force(a[0]);
                if (isC && isTerm(sep) && sep.op === 'str') return this.arr(s.x.split(sep.x).map((x) => S.str(x)));
                if (isC && sep.k === 'regex' && sep.re) return this.arr(s.x.split(sep.re).map((x) => S.str(x)));
                const key = sep.k === 'regex' ? S.str('re:' + sep.src) : this.toStr(sep);
                const o = S.app('str_split', [s, key], 'Obj');
                const n = S.app('arrlen', [o], 'Int');
                this.assumeOnce(S.ge(n, sep.k === 'regex' || (sep.op === 'str' && sep.x !== '') ? I1 : I0));
                const at = (i) => S.sel('vs', S.app('arrat', [o, i], 'Val'));
                return this.arr(seq(n, at));
            }
            case 'replace':
            case 'replaceAll': {
                const pat = this.force(a[0]);
                const rep = this.force(a[1]);
                if (isC && isTerm(rep) && rep.op === 'str') {
                    if (pat.k === 'regex' && pat.re) return S.str(s.x[name](pat.re, rep.x));
                    if (isTerm(pat) && pat.op === 'str') return S.str(s.x[name](pat.x, rep.x));
                }
                const pk = pat.k === 'regex' ? S.str('re:' + pat.src) : this.toStr(pat);
                const rk = rep.k === 'fn' ? S.str('fn:' + (rep.node ? rep.node.getText() : rep.name)) : this.toStr(rep);
                return S.app('str_' + name + '3', [s, pk, rk], 'Str');
            }
            case 'match': {
                const pat = this.force(a[0]);
                if (pat.k !== 'regex') throw new Unsupported('match with a string');
                if (isC && pat.re) {
                    const m = s.x.match(pat.re);
                    return m ? this.arr([...m].map((x) => (x === undefined ? undef : S.str(x)))) : nul;
                }
                if (pat.sym) throw new Unsupported('match with a symbolic pattern');
                if (!pat.re.global) {
                    const sm = this.structuredMatch(pat.re, s);
                    if (sm !== undefined) return sm ? this.arr(sm) : nul;
                }
                if (!this.decide(this.regexTest(pat, s))) return nul;
                if (pat.re.global) {
                    const o = S.app('re_matches_' + pat.src, [s], 'Obj');
                    const n = S.app('arrlen', [o], 'Int');
                    this.assumeOnce(S.ge(n, I1));
                    return this.arr(seq(n, (i) => S.sel('vs', S.app('arrat', [o, i], 'Val'))));
                }
                if (this.strings === 'smt' && this.inRe(s, pat.re)) {
                    const gs = this.reGroups(s, pat.re);
                    if (gs) return this.arr(gs);
                }
                const groups = new RegExp(pat.re.source + '|').exec('').length;
                const out = [];
                for (let g = 0; g < groups; g++) out.push(g === 0 ? S.app(`re_g0_${pat.src}`, [s], 'Str') : lower(S.app(`re_g${g}_${pat.src}`, [s], 'Val')));
                for (let g = 1; g < groups; g++) this.assumeOnce(S.or(S.is('undef', lift(out[g])), S.is('vstr', lift(out[g]))));
                const arr = this.arr(out);
                return arr;
            }
            case 'matchAll':
                if (isC) {
                    const pat = this.force(a[0]);
                    return this.arr([...s.x.matchAll(pat.re)].map((m) => this.arr([...m].map((x) => (x === undefined ? undef : S.str(x))))));
                }
                return this.anyMatches(s, this.force(a[0]));
        }
        throw new Unsupported('string method ' + name);
    },
    /** all matches in an unknown text: any number of them, with any groups, a function of text and pattern */
    anyMatches(s, pat) {
        if (!pat.re.global) this.throwType('matchAll must be called with a global RegExp');
        const f = (what, args, sort) => S.app(`all_${what}_${pat.src}`, [s, ...args], sort);
        const n = f('n', [], 'Int');
        this.assumeOnce(S.ge(n, I0));
        const groups = new RegExp(pat.re.source + '|').exec('').length;
        return this.arr(
            seq(n, (i) => {
                const m = new Map();
                for (let g = 0; g < groups; g++) m.set(String(g), g === 0 ? f('g0', [i], 'Str') : lower(S.ite(f(`has${g}`, [i], 'Bool'), S.ctor('vstr', f('g' + g, [i], 'Str')), S.UNDEF)));
                m.set('index', f('at', [i], 'Int'));
                m.set('length', S.int(groups));
                return rec(m);
            }),
        );
    },
    /** string methods in the theory of strings (undefined: not modelled there) */
    smtString(s, name, a) {
        const len = S.strLen(s);
        const sub = (i, n) => S.app('str_substr', [s, i, n], 'Str');
        const clamp = (x, lo, hi) => S.ite(S.lt(x, lo), lo, S.ite(S.gt(x, hi), hi, x));
        const int = (i, d) => (a.length > i && a[i].k !== 'undef' ? this.toInt(a[i]) : d);
        switch (name) {
            case 'charAt':
                return S.app('str_at', [s, int(0, I0)], 'Str');
            case 'at': {
                const i = int(0, I0);
                const j = S.ite(S.lt(i, I0), S.add(len, i), i);
                return this.decide(S.and(S.ge(j, I0), S.lt(j, len))) ? S.app('str_at', [s, j], 'Str') : undef;
            }
            case 'slice': {
                const rel = (x) => S.ite(S.lt(x, I0), clamp(S.add(len, x), I0, len), clamp(x, I0, len));
                const f = rel(int(0, I0));
                const t = rel(int(1, len));
                return S.ite(S.lt(f, t), sub(f, S.sub(t, f)), S.str(''));
            }
            case 'substring': {
                const f = clamp(int(0, I0), I0, len);
                const t = clamp(int(1, len), I0, len);
                return S.ite(S.lt(f, t), sub(f, S.sub(t, f)), sub(t, S.sub(f, t)));
            }
        }
        return undefined;
    },
    strRel(op, a, b) {
        const ite = (t) => t.op === 'ite';
        if (ite(a)) return S.ite(a.args[0], this.strRel(op, a.args[1], b), this.strRel(op, a.args[2], b));
        if (ite(b)) return S.ite(b.args[0], this.strRel(op, a, b.args[1]), this.strRel(op, a, b.args[2]));
        if (a === b) return S.TRUE;
        if (a.op === 'str' && b.op === 'str') {
            if (op === 'str_contains') return S.bool(a.x.includes(b.x));
            if (op === 'str_prefix') return S.bool(b.x.startsWith(a.x));
            if (op === 'str_suffix') return S.bool(b.x.endsWith(a.x));
        }
        const empty = op === 'str_contains' ? b : a;
        if (empty.op === 'str' && empty.x === '') return S.TRUE;
        const t = S.app(op, [a, b], 'Bool');
        if (this.strings !== 'smt' && !this.lemmas.has(op)) {
            this.lemmas.add(op);
            const x = S.bvar('x!r', 'Str');
            this.assume(S.forall([x], S.app(op, [x, x], 'Bool'), [[S.app(op, [x, x], 'Bool')]]));
            const e = S.app(op, op === 'str_contains' ? [x, S.str('')] : [S.str(''), x], 'Bool');
            this.assume(S.forall([x], e, [[e]]));
        }
        return t;
    },
    localeCompare(a, b, args) {
        const o = args.length > 1 ? 'x' : '';
        const c = (x, y) => S.app('localeCompare' + o, [x, y], 'Int');
        if (!this.lemmas.has('localeCompare' + o)) {
            this.lemmas.add('localeCompare' + o);
            this.assumed.add('String.localeCompare is a consistent total preorder');
            const x = S.bvar('x!l', 'Str');
            const y = S.bvar('y!l', 'Str');
            const z = S.bvar('z!l', 'Str');
            this.assume(S.forall([x], S.eq(c(x, x), I0), [[c(x, x)]]));
            this.assume(S.forall([x, y], S.and(S.eq(S.gt(c(x, y), I0), S.lt(c(y, x), I0)), S.eq(S.eq(c(x, y), I0), S.eq(c(y, x), I0))), [[c(x, y)]]));
            this.assume(S.forall([x, y, z], S.implies(S.and(S.le(c(x, y), I0), S.le(c(y, z), I0)), S.le(c(x, z), I0)), [[c(x, y), c(y, z)]]));
        }
        return c(a, b);
    },
    promiseMethod(p, name, a) {
        if (this.thenHook) {
            const r = this.thenHook(p, name, a);
            if (r !== undefined) return r;
        }
        const st = p.f.get('#state').x;
        if (this.tasks) {
            // reactions run once the promise has settled, never at once
            const next = this.pendingPromise();
            const react = () => this.fulfil(next, this.react(p, name, a));
            if (st === 'pending') (p.reactions ??= []).push(react);
            else this.tasks.push(react);
            return next;
        }
        if (st === 'pending') {
            (p.then ??= []).push({ name, a });
            throw new Unsupported('then on a pending promise without a contract');
        }
        this.assumed.add('continuations of settled promises run before any other registered work');
        return this.react(p, name, a);
    },
    react(p, name, a) {
        const st = p.f.get('#state').x;
        const v = p.f.get('#value');
        const wrap = (f, args) => {
            try {
                const r = this.force(this.call(f, args));
                return r.k === 'obj' && r.kind === 'promise' ? r : this.resolved(r);
            } catch (e) {
                if (!(e instanceof JsThrow)) throw e;
                return this.rejected(e.v);
            }
        };
        const fn = (x) => x && this.force(x).k === 'fn';
        if (name === 'finally') {
            this.call(a[0], []);
            return p;
        }
        if (st === 'resolved') return name === 'then' && fn(a[0]) ? wrap(a[0], [v]) : p;
        if (name === 'catch' && fn(a[0])) return wrap(a[0], [v]);
        if (name === 'then' && fn(a[1])) return wrap(a[1], [v]);
        return p;
    },

    // ---- sequences ------------------------------------------------------------------------------------
    sliceSeq(s, from, to) {
        const f = S.constNum(from);
        const t = S.constNum(to);
        if (s.lit && f !== undefined && t !== undefined) return litSeq(s.lit.slice(f, Math.max(f, t)));
        if (f === 0 && to === s.len) return s;
        if (s.cat && f !== undefined && to === s.len && s.cat[0].lit && s.cat[0].lit.length <= f)
            return this.sliceSeq(s.cat[1], S.int(f - s.cat[0].lit.length), s.cat[1].len);
        // dropping a literal tail
        if (s.cat && f === 0 && s.cat[1].lit) {
            const d = S.constNum(S.sub(s.len, to));
            if (d !== undefined && d >= 0 && d <= s.cat[1].lit.length) return catSeq(s.cat[0], litSeq(s.cat[1].lit.slice(0, s.cat[1].lit.length - d)));
        }
        const len = S.max(S.sub(to, from), I0);
        return seq(this.known(S.ge(S.sub(to, from), I0)) ? S.sub(to, from) : len, (i) => s.at(S.add(i, from)));
    },
    /** JS relative index */
    relIndex(v, len, dflt) {
        v = this.force(v);
        if (v.k === 'undef') return dflt;
        const n = this.toNum(v);
        if (n.k === 'nan') return I0;
        if (n.k === 'inf') return n.pos ? len : I0;
        const i = S.asInt(n) ?? S.ite(S.ge0(n), this.floorTerm(n), S.neg(this.floorTerm(S.neg(n))));
        const c = S.constNum(i);
        if (c === 0) return I0;
        if (i === len) return len;
        if (this.known(S.and(S.ge(i, I0), S.le(i, len)))) return i;
        return S.ite(S.lt(i, I0), S.max(S.add(len, i), I0), S.min(i, len));
    },
    /** position of the first i with cond(i), or -1 */
    firstIndex(len, cond, last = false) {
        const w = this.fresh(last ? 'last' : 'first', 'Int');
        const b = this.bvar();
        const none = S.and(S.eq(w, S.int(-1)), S.forall([b], S.implies(S.and(S.ge(b, I0), S.lt(b, len)), S.not(cond(b))), patternOf(cond(b), b)));
        const b2 = this.bvar();
        const before = last ? S.and(S.gt(b2, w), S.lt(b2, len)) : S.and(S.ge(b2, I0), S.lt(b2, w));
        const some = S.and(S.ge(w, I0), S.lt(w, len), cond(w), S.forall([b2], S.implies(before, S.not(cond(b2))), patternOf(cond(b2), b2)));
        this.assume(S.or(none, some));
        this.assume(S.and(S.ge(w, S.int(-1)), S.lt(w, len)));
        this.assume(S.implies(S.ge(w, I0), cond(w)));
        return w;
    },
    arrMethod(o, s, name, a, node) {
        const cb = (x, i) => this.call(a[0], [x, i, o]);
        const mutable = o.k === 'obj' && o.kind === 'arr';
        const put = (ns) => {
            if (!mutable) throw new Unsupported(`${name} on an immutable sequence`);
            this.write(o, '#seq', ns);
        };
        switch (name) {
            case 'push': {
                let ns = catSeq(s, litSeq([...a]));
                if (a.rest) ns = catSeq(ns, a.rest);
                put(ns);
                return ns.len;
            }
            case 'pop': {
                if (s.lit) {
                    if (!s.lit.length) return undef;
                    put(litSeq(s.lit.slice(0, -1)));
                    return s.lit[s.lit.length - 1];
                }
                if (!this.decide(S.gt(s.len, I0))) return undef;
                const r = s.at(S.sub(s.len, I1));
                put(this.sliceSeq(s, I0, S.sub(s.len, I1)));
                return r;
            }
            case 'shift': {
                if (s.lit) {
                    if (!s.lit.length) return undef;
                    put(litSeq(s.lit.slice(1)));
                    return s.lit[0];
                }
                if (!this.decide(S.gt(s.len, I0))) return undef;
                const r = s.at(I0);
                put(this.sliceSeq(s, I1, s.len));
                return r;
            }
            case 'unshift': {
                const ns = catSeq(litSeq([...a]), s);
                put(ns);
                return ns.len;
            }
            case 'slice':
                return this.arr(this.sliceSeq(s, this.relIndex(a[0] ?? undef, s.len, I0), this.relIndex(a[1] ?? undef, s.len, s.len)));
            case 'concat': {
                let r = s;
                for (const x of a) {
                    const v = this.force(x);
                    const ia = this.isArrayTerm(v);
                    r = this.decide(ia) ? catSeq(r, this.seqOf(v)) : catSeq(r, litSeq([v]));
                }
                return this.arr(r);
            }
            case 'at':
            {
                const i = this.toInt(a[0]);
                return this.index(s, S.ite(S.lt(i, I0), S.add(s.len, i), i));
            }
            case 'reverse':
            case 'toReversed': {
                const ns = s.lit ? litSeq([...s.lit].reverse()) : seq(s.len, (i) => s.at(S.sub(S.sub(s.len, I1), i)));
                if (name === 'toReversed') return this.arr(ns);
                put(ns);
                return o;
            }
            case 'splice':
            case 'toSpliced': {
                const st = this.relIndex(a[0] ?? undef, s.len, I0);
                let dc;
                if (a.length < 2) dc = S.sub(s.len, st);
                else {
                    const n = this.toInt(a[1]);
                    const max = S.sub(s.len, st);
                    dc = this.known(S.and(S.ge(n, I0), S.le(n, max))) ? n : S.min(S.max(n, I0), max);
                }
                const mid = litSeq(a.slice(2));
                const removed = this.sliceSeq(s, st, S.add(st, dc));
                const head = this.sliceSeq(s, I0, st);
                const tail = this.sliceSeq(s, S.add(st, dc), s.len);
                const ns = catSeq(catSeq(head, mid), tail);
                if (name === 'toSpliced') return this.arr(ns);
                put(ns);
                return this.arr(removed);
            }
            case 'fill': {
                const ns = s.lit ? litSeq(s.lit.map(() => a[0])) : seq(s.len, () => a[0]);
                put(ns);
                return o;
            }
            case 'with': {
                const c = this.arr(s);
                this.setIndex(c, this.toInt(a[0]), a[1]);
                return c;
            }
            case 'keys':
                return this.arr(s.lit ? litSeq(s.lit.map((_, i) => S.int(i))) : seq(s.len, (i) => i));
            case 'entries':
                return this.arr(s.lit ? litSeq(s.lit.map((x, i) => litSeq([S.int(i), x]))) : seq(s.len, (i) => litSeq([i, s.at(i)])));
            case 'values':
                return this.arr(s);
            case 'join': {
                const sep = a.length ? this.toStr(a[0]) : S.str(',');
                if (s.lit) {
                    let r = S.str('');
                    s.lit.forEach((x, i) => {
                        if (i) r = S.strCat(r, sep);
                        r = S.strCat(r, this.decide(this.isNullish(x)) ? S.str('') : this.toStr(this.force(x)));
                    });
                    return r;
                }
                return this.joinSeq(s, sep);
            }
            case 'includes': {
                const x = a[0] ?? undef;
                const same = (y) => S.or(this.eq(y, x), S.and(this.isNaNTerm(y), this.isNaNTerm(x)));
                if (s.lit) return S.or(...s.lit.map(same));
                if (s.filter && false) return null;
                return S.ge(this.firstIndex(s.len, (i) => same(s.at(i))), I0);
            }
            case 'indexOf':
                if (s.lit) return s.lit.reduceRight((r, y, i) => S.ite(this.eq(y, a[0]), S.int(i), r), S.int(-1));
                return this.firstIndex(s.len, (i) => this.eq(s.at(i), a[0]));
            case 'lastIndexOf':
                if (s.lit) return s.lit.reduce((r, y, i) => S.ite(this.eq(y, a[0]), S.int(i), r), S.int(-1));
                return this.firstIndex(s.len, (i) => this.eq(s.at(i), a[0]), true);
            case 'find':
            case 'findIndex':
            case 'findLast':
            case 'findLastIndex':
            case 'some':
            case 'every': {
                const isEvery = name === 'every';
                const lastM = name.startsWith('findLast');
                if (s.lit) {
                    const n = s.lit.length;
                    for (let q = 0; q < n; q++) {
                        const i = lastM ? n - 1 - q : q;
                        const t = this.decide(this.truthy(cb(s.lit[i], S.int(i))));
                        if (t !== isEvery) {
                            if (name === 'some') return S.TRUE;
                            if (name === 'every') return S.FALSE;
                            return name.endsWith('Index') ? S.int(i) : s.lit[i];
                        }
                    }
                    return name === 'some' ? S.FALSE : isEvery ? S.TRUE : name.endsWith('Index') ? S.int(-1) : undef;
                }
                const p = this.pureAt(s.len, (i) => this.truthyT(cb(s.at(i), i)));
                if (!p) return this.effectfulFind(o, s, name, cb);
                if (!p.v) return name === 'some' ? S.FALSE : isEvery ? S.TRUE : name.endsWith('Index') ? S.int(-1) : undef;
                const w = this.firstIndex(s.len, (i) => (isEvery ? S.not(p.at(i)) : p.at(i)), lastM);
                if (name === 'some') return S.ge(w, I0);
                if (isEvery) return S.lt(w, I0);
                if (name.endsWith('Index')) return w;
                return merge(S.ge(w, I0), () => s.at(w), undef);
            }
            case 'forEach': {
                if (s.lit) {
                    for (let i = 0; i < s.lit.length; i++) cb(s.lit[i], S.int(i));
                    return undef;
                }
                this.iterate(s, (x, i) => {
                    cb(x, i);
                    return 'cont';
                });
                return undef;
            }
            case 'map': {
                if (s.lit) return this.arr(s.lit.map((x, i) => cb(x, S.int(i))));
                const p = this.pureAt(s.len, (i) => cb(s.at(i), i));
                if (p) return this.arr(seq(s.len, p.at));
                const out = this.arr([]);
                this.iterate(s, (x, i) => {
                    this.arrMethod(out, out.f.get('#seq'), 'push', [cb(x, i)]);
                    return 'cont';
                });
                return out;
            }
            case 'filter': {
                if (s.lit) {
                    const out = [];
                    s.lit.forEach((x, i) => {
                        if (this.decide(this.truthy(cb(x, S.int(i))))) out.push(x);
                    });
                    return this.arr(out);
                }
                const p = this.pureAt(s.len, (i) => this.truthyT(cb(s.at(i), i)));
                if (p) return this.arr(this.keptPart(s, p.at) ?? this.filterSeq(s, p.at));
                const out = this.arr([]);
                this.iterate(s, (x, i) => {
                    if (this.decide(this.truthy(cb(x, i)))) this.arrMethod(out, out.f.get('#seq'), 'push', [x]);
                    return 'cont';
                });
                return out;
            }
            case 'flatMap':
            case 'flat': {
                const m = name === 'flatMap' ? this.seqOf(this.arrMethod(o, s, 'map', a)) : s;
                if (m.lit) {
                    let r = litSeq([]);
                    for (const x of m.lit) r = this.decide(this.isArrayTerm(x)) ? catSeq(r, this.seqOf(x)) : catSeq(r, litSeq([x]));
                    return this.arr(r);
                }
                return this.arr(this.flattenSeq(m));
            }
            case 'reduce': {
                const cell = this.env(null);
                let start = 0;
                if (a.length > 1) cell.f.set('acc', a[1]);
                else {
                    if (!this.decide(S.gt(s.len, I0))) this.throwType('reduce of empty array');
                    cell.f.set('acc', s.at(I0));
                    start = 1;
                }
                const rest = start ? this.sliceSeq(s, I1, s.len) : s;
                this.iterate(rest, (x, i) => {
                    this.write(cell, 'acc', this.call(a[0], [cell.f.get('acc'), x, start ? S.add(i, I1) : i, o]));
                    return 'cont';
                });
                return cell.f.get('acc');
            }
            case 'sort':
            case 'toSorted': {
                const ns = this.sortSeq(s, a[0] ? this.force(a[0]) : undef);
                if (name === 'toSorted') return this.arr(ns);
                put(ns);
                return o;
            }
            case 'toString':
                return this.arrMethod(o, s, 'join', []);
        }
        throw new Unsupported('array method ' + name);
    },
    isNaNTerm(v) {
        if (v.k === 'nan') return S.TRUE;
        if (v.k === 'union') return S.ite(v.c, this.isNaNTerm(v.a), this.isNaNTerm(v.b));
        return isT(v, 'Val') ? S.is('vnan', v) : S.FALSE;
    },
    truthyT(v) {
        return this.truthy(v);
    },
    effectfulFind(o, s, name, cb) {
        const cell = this.env(null);
        cell.f.set('r', name === 'some' ? S.FALSE : name === 'every' ? S.TRUE : name === 'find' ? undef : S.int(-1));
        this.iterate(s, (x, i) => {
            const t = this.decide(this.truthy(cb(x, i)));
            if (t !== (name === 'every')) {
                this.write(cell, 'r', name === 'some' ? S.TRUE : name === 'every' ? S.FALSE : name === 'find' ? x : i);
                return 'exit';
            }
            return 'cont';
        });
        return cell.f.get('r');
    },
    joinSeq(s, sep) {
        // a function of the element list: equal lists give equal strings by construction of the term
        const nm = this.freshName('join');
        const fun = this.closed();
        this.ghost.joins ??= [];
        const r = fun(nm, [sep], 'Str');
        this.ghost.joins.push({ s, sep, r });
        this.assume(S.implies(S.eq(s.len, I0), S.eq(r, S.str(''))));
        return r;
    },
    /** a sequence of sequences, concatenated: positions given by two index functions */
    flattenSeq(m) {
        // blocks of at most one element: those there are
        const one = this.bvar('Int', 'i');
        const size = this.seqOf(m.at(one)).len;
        if (size.op !== 'num' && this.known(S.or(S.eq(size, I0), S.eq(size, I1)))) {
            const there = (i) => S.eq(this.seqOf(m.at(i)).len, I1);
            return this.filterSeq(m, there, (i) => {
                const v = this.seqOf(m.at(i)).at(I0);
                if (v.k === 'union') return v.c === there(i) ? v.a : S.not(v.c) === there(i) ? v.b : v;
                if (!isTerm(v) || v.op !== 'ite') return v;
                return v.args[0] === there(i) ? lower(v.args[1]) : S.not(v.args[0]) === there(i) ? lower(v.args[2]) : v;
            });
        }
        // blocks of the same sizes are laid out in the same way
        const lay = S.bvar('lay!', 'Int');
        const key = `${m.len.id}:${this.seqOf(m.at(lay)).len.id}`;
        this.ghost.flats ??= new Map();
        const known = this.ghost.flats.get(key);
        if (known && this.facts.some((f) => f.t === known.mark)) {
            const { io, ii, off, n } = known;
            const r = seq(n, (k) => this.seqOf(m.at(io(k))).at(ii(k)));
            r.flat = { m, io, ii, off };
            return r;
        }
        const nm = this.freshName('flat');
        const fun = this.closed();
        const n = fun(nm + 'N', [], 'Int');
        const io = (j) => fun(nm + 'O', [j], 'Int');
        const ii = (j) => fun(nm + 'I', [j], 'Int');
        const at = (i) => this.seqOf(m.at(i));
        const off = (i) => fun(nm + 'S', [i], 'Int'); // start offset of block i
        const j = this.bvar('Int', 'j');
        const i = this.bvar('Int', 'i');
        const L = (x) => at(x).len;
        this.assume(S.ge(n, I0));
        const mark = S.and(S.eq(off(I0), I0), S.eq(off(m.len), n));
        this.assume(mark);
        this.assume(S.forall([i], S.implies(S.and(S.ge(i, I0), S.lt(i, m.len)), S.eq(off(S.add(i, I1)), S.add(off(i), L(i)))), [[off(i)]]));
        this.assume(S.forall([j], S.implies(S.and(S.ge(j, I0), S.lt(j, n)), S.and(S.ge(io(j), I0), S.lt(io(j), m.len), S.ge(ii(j), I0), S.lt(ii(j), L(io(j))), S.eq(j, S.add(off(io(j)), ii(j))))), [[io(j)]]));
        const x = this.bvar('Int', 'x');
        this.assume(
            S.forall([i, x], S.implies(S.and(S.ge(i, I0), S.lt(i, m.len), S.ge(x, I0), S.lt(x, L(i))), S.and(S.ge(S.add(off(i), x), I0), S.lt(S.add(off(i), x), n), S.eq(io(S.add(off(i), x)), i), S.eq(ii(S.add(off(i), x)), x)))),
        );
        const r = seq(n, (k) => at(io(k)).at(ii(k)));
        r.flat = { m, io, ii, off };
        if (!this.binders?.length) this.ghost.flats.set(key, { io, ii, off, n, mark });
        return r;
    },
    /** stable sort: a permutation, ordered by the comparator (whose consistency becomes an obligation) */
    sortSeq(s, cmp) {
        if (s.lit && s.lit.length <= 1) return s;
        if (s.lit && cmp.k === 'undef' && s.lit.every((x) => isTerm(x) && x.op === 'str')) return litSeq([...s.lit].sort((x, y) => (x.x < y.x ? -1 : x.x > y.x ? 1 : 0)));
        if (s.lit && cmp.k !== 'undef' && s.lit.length <= 6) {
            // insertion sort, one decision per comparison (stable)
            const out = [];
            for (const x of s.lit) {
                let p = out.length;
                while (p > 0) {
                    const c = this.toNum(this.call(cmp, [out[p - 1], x]));
                    if (c.k === 'nan') break;
                    if (c.k === 'inf' ? !c.pos : !this.decide(S.gt0(c))) break;
                    p--;
                }
                out.splice(p, 0, x);
            }
            return litSeq(out);
        }
        const call = (x, y) => {
            if (cmp.k === 'undef') return S.ite(this.compare('<', this.toStr(x), this.toStr(y)), S.int(-1), S.ite(this.compare('<', this.toStr(y), this.toStr(x)), I1, I0));
            const r = this.toNum(this.call(cmp, [x, y]));
            if (r.k === 'nan') return I0;
            if (r.k === 'inf') return S.int(r.pos ? 1 : -1);
            return r;
        };
        const bi = this.bvar('Int', 'i');
        const bj = this.bvar('Int', 'j');
        const rI = S.and(S.ge(bi, I0), S.lt(bi, s.len));
        const rJ = S.and(S.ge(bj, I0), S.lt(bj, s.len));
        this.binders.push(bi);
        const mark = this.facts.length;
        this.facts.push({ t: rI, pc: false });
        let paths;
        try {
            paths = this.underBinder(bj, rJ, () => call(s.at(bi), s.at(bj)));
        } finally {
            this.binders.pop();
            this.facts.splice(mark, 1);
        }
        for (const p of paths) {
            if (p.writes.size || p.aux) throw new Unsupported('comparator with effects');
            if (p.thrown)
                this.obligations.push({ contract: this.contract, label: `no exception in comparator (${p.thrown.message})`, facts: p.facts, goal: S.FALSE, inputs: [...this.curInputs] });
        }
        const ok = paths.filter((p) => !p.thrown);
        for (const p of ok) for (const ax of p.ax) this.assume(S.forall([bi, bj], S.implies(S.and(rI, rJ, p.pc), ax)));
        const cv = this.mergePaths(ok);
        if (S.constNum(cv) === 0) return s;
        const c = (i, j) => S.subst(cv, new Map([[bi, i], [bj, j]]));
        const nm = this.freshName('srt');
        const fun = this.closed();
        const p = (i) => fun(nm + 'p', [i], 'Int');
        const q = (i) => fun(nm + 'q', [i], 'Int');
        const i = this.bvar('Int', 'i');
        const j = this.bvar('Int', 'j');
        const k = this.bvar('Int', 'k');
        const inR = (x) => S.and(S.ge(x, I0), S.lt(x, s.len));
        this.assume(S.forall([i], S.implies(inR(i), S.and(inR(p(i)), S.eq(q(p(i)), i))), [[p(i)]]));
        this.assume(S.forall([i], S.implies(inR(i), S.and(inR(q(i)), S.eq(p(q(i)), i))), s.filter ? [[q(i)], [s.filter.idx(i)]] : [[q(i)]]));
        // the comparator must be a consistent preorder on the elements, else the result order is unspecified
        const cons = S.and(
            S.forall([i, j], S.implies(S.and(inR(i), inR(j)), S.eq(S.gt0(c(i, j)), S.gt0(S.neg(c(j, i)))))),
            S.forall([i, j, k], S.implies(S.and(inR(i), inR(j), inR(k), S.not(S.gt0(c(i, j))), S.not(S.gt0(c(j, k)))), S.not(S.gt0(c(i, k))))),
        );
        const r = seq(s.len, (x) => s.at(p(x)));
        r.sorted = { src: s, p, q, c, consistent: cons };
        if (this.sortConsistency !== 'skip') this.obligation('comparator is a consistent preorder on the sorted elements', cons, { sort: true });
        const ordered = (S.forall([i, j], S.implies(S.and(S.ge(i, I0), S.lt(i, j), S.lt(j, s.len)), S.and(S.not(S.gt0(c(p(i), p(j)))), S.implies(S.eq(c(p(i), p(j)), S.int(0)), S.lt(p(i), p(j))))), [[p(i), p(j)]]));
        // with the obligation skipped the order is known only for a consistent comparator
        this.assume(this.sortConsistency === 'skip' ? S.implies(cons, ordered) : ordered);
        return r;
    },

    // ---- maps and sets -----------------------------------------------------------------------------------
    mapSet(o, k, v) {
        const m = o.f.get('#m');
        k = this.force(k);
        const kl = lift(k);
        const present = m.has(kl);
        let keys;
        const isIn = this.decide(present);
        if (isIn) keys = m.keys;
        else keys = catSeq(m.keys, litSeq([k]));
        this.write(o, '#m', {
            k: 'mapstate',
            has: (q) => S.or(S.eq(q, kl), m.has(q)),
            get: (q) => merge(S.eq(q, kl), v, () => m.get(q)),
            keys,
            over: { prev: m, key: k, v, isIn },
        });
    },
    mapDelete(o, k) {
        const m = o.f.get('#m');
        k = this.force(k);
        const kl = lift(k);
        if (!this.decide(m.has(kl))) return S.FALSE;
        let keys;
        if (m.keys.lit) {
            const out = [];
            let hit = false;
            for (const x of m.keys.lit) {
                if (!hit && this.decide(S.eq(lift(x), kl))) hit = true;
                else out.push(x);
            }
            keys = litSeq(out);
        } else keys = this.filterSeq(m.keys, (i) => S.not(S.eq(lift(m.keys.at(i)), kl)));
        this.write(o, '#m', {
            k: 'mapstate',
            has: (q) => S.and(S.not(S.eq(q, kl)), m.has(q)),
            get: (q) => merge(S.eq(q, kl), undef, () => m.get(q)),
            keys,
        });
        return S.TRUE;
    },
    setFromSeq(s) {
        const nm = this.freshName('set');
        const fun = this.closed();
        const has = (q) => fun(nm, [q], 'Bool');
        const pos = (q) => fun(nm + 'P', [q], 'Int');
        const b = this.bvar();
        const q = this.bvar('Val', 'q');
        const el = (i) => lift(s.at(i));
        this.assume(S.forall([b], S.implies(S.and(S.ge(b, I0), S.lt(b, s.len)), S.and(has(el(b)), S.le(pos(el(b)), b))), patternOf(el(b), b)));
        this.assume(S.forall([q], S.implies(has(q), S.and(S.ge(pos(q), I0), S.lt(pos(q), s.len), S.eq(el(pos(q)), q))), [[has(q)]]));
        const keys = this.filterSeq(s, (i) => S.eq(pos(el(i)), i));
        return { k: 'mapstate', has, get: () => S.TRUE, keys };
    },
    mapFromSeq(s) {
        const nm = this.freshName('map');
        const fun = this.closed();
        const has = (q) => fun(nm, [q], 'Bool');
        const pos = (q) => fun(nm + 'P', [q], 'Int');
        const first = (q) => fun(nm + 'F', [q], 'Int');
        const b = this.bvar();
        const q = this.bvar('Val', 'q');
        const el = (i) => lift(this.seqOf(s.at(i)).at(I0));
        this.assume(S.forall([b], S.implies(S.and(S.ge(b, I0), S.lt(b, s.len)), S.and(has(el(b)), S.ge(pos(el(b)), b), S.le(first(el(b)), b))), patternOf(el(b), b)));
        this.assume(
            S.forall(
                [q],
                S.implies(has(q), S.and(S.ge(pos(q), I0), S.lt(pos(q), s.len), S.eq(el(pos(q)), q), S.ge(first(q), I0), S.lt(first(q), s.len), S.eq(el(first(q)), q))),
                [[has(q)]],
            ),
        );
        const keys0 = seq(s.len, (i) => this.seqOf(s.at(i)).at(I0));
        const keys = this.filterSeq(keys0, (i) => S.eq(first(el(i)), i));
        return { k: 'mapstate', has, get: (k) => merge(has(k), () => this.seqOf(s.at(pos(k))).at(I1), undef), keys };
    },
    /** how often each key occurs in a sequence, in order of first occurrence */
    tallyOf(s) {
        const set = this.setFromSeq(s);
        const nm = this.freshName('tally');
        const fun = this.closed();
        const of = (q) => fun(nm, [q], 'Int');
        // the definition, for one key at a time
        (this.ghost.tallies ??= []).push((q) => this.assume(S.eq(of(lift(q)), this.filterSeq(s, (i) => S.eq(lift(s.at(i)), lift(q))).len)));
        return { k: 'mapstate', has: set.has, get: of, keys: set.keys };
    },
    /** unknown map/set state with Val keys, for contracts */
    symMap(kind, name, valAt) {
        const o = this.alloc(kind);
        const has = (q) => S.app(name + '_has', [q], 'Bool');
        const n = S.app(name + '_n', [], 'Int');
        const at = (i) => S.app(name + '_key', [i], 'Val');
        const pos = (q) => S.app(name + '_pos', [q], 'Int');
        const b = this.bvar();
        const q = this.bvar('Val', 'q');
        this.assume(S.ge(n, I0));
        this.assume(S.forall([b], S.implies(S.and(S.ge(b, I0), S.lt(b, n)), S.and(has(at(b)), S.eq(pos(at(b)), b))), [[at(b)]]));
        this.assume(S.forall([q], S.implies(has(q), S.and(S.ge(pos(q), I0), S.lt(pos(q), n), S.eq(at(pos(q)), q))), [[has(q)]]));
        o.f.set('#m', { k: 'mapstate', has, get: (k) => (kind === 'set' ? S.TRUE : merge(has(k), () => valAt(k), undef)), keys: seq(n, (i) => at(i)) });
        return o;
    },
    mapMethod(o, name, a) {
        const m = o.f.get('#m');
        const isSet = o.kind === 'set';
        switch (name) {
            case 'has':
                return m.has(lift(this.force(a[0] ?? undef)));
            case 'get': {
                const k = lift(this.force(a[0] ?? undef));
                if (m.keys.lit) {
                    // concrete key list: find the entry
                    if (!this.decide(m.has(k))) return undef;
                    return m.get(k);
                }
                return merge(m.has(k), () => m.get(k), undef);
            }
            case 'set':
                this.mapSet(o, a[0], a[1] ?? undef);
                return o;
            case 'add':
                this.mapSet(o, a[0], S.TRUE);
                return o;
            case 'delete':
                return this.mapDelete(o, a[0]);
            case 'clear':
                this.write(o, '#m', emptyMap());
                return undef;
            case 'keys':
                return this.arr(m.keys);
            case 'values':
                if (isSet) return this.arr(m.keys);
                return this.arr(mapSeq(m.keys, (k) => m.get(lift(k))));
            case 'entries':
                if (isSet) return this.arr(mapSeq(m.keys, (k) => litSeq([k, k])));
                return this.arr(mapSeq(m.keys, (k) => litSeq([k, m.get(lift(k))])));
            case 'forEach': {
                this.iterate(m.keys, (k) => {
                    this.call(a[0], [isSet ? k : m.get(lift(k)), k, o]);
                    return 'cont';
                });
                return undef;
            }
        }
        throw new Unsupported('map method ' + name);
    },
    setSeq(o) {
        return o.f.get('#m').keys;
    },
    mapEntriesSeq(o) {
        const m = o.f.get('#m');
        return mapSeq(m.keys, (k) => litSeq([k, m.get(lift(k))]));
    },

    // ---- deep equality (radash.isEqual) -------------------------------------------------------------------
    deepEqual(a, b) {
        if (a.k === 'union') return S.ite(a.c, this.deepEqual(a.a, b), this.deepEqual(a.b, b));
        if (b.k === 'union') return S.ite(b.c, this.deepEqual(a, b.a), this.deepEqual(a, b.b));
        const sq = (v) => (v.k === 'seq' ? v : v.k === 'obj' && v.kind === 'arr' ? v.f.get('#seq') : null);
        const sa = sq(a);
        const sb = sq(b);
        if (sa && sb) {
            if (sa.lit && sb.lit) return sa.lit.length === sb.lit.length ? S.and(...sa.lit.map((x, i) => this.deepEqual(x, sb.lit[i]))) : S.FALSE;
            const p = this.firstIndex(sa.len, (i) => S.not(this.deepEqual(sa.at(i), sb.at(i))));
            return S.and(S.eq(sa.len, sb.len), S.lt(p, I0));
        }
        if (a.k === 'fn' || b.k === 'fn') return S.bool(a === b);
        const fl = (v) => (v.k === 'rec' && !v.base ? v.fields : v.k === 'obj' && v.kind === 'obj' && !v.cls && !v.base && !v.f.has('#base') ? v.f : null);
        const fa = fl(a);
        const fb = fl(b);
        if (a.k === 'obj' && a === b) return S.TRUE;
        if (fa && fb) {
            const ka = [...fa].filter(([, v]) => v.k !== 'absent').map(([k]) => k);
            const kb = [...fb].filter(([, v]) => v.k !== 'absent').map(([k]) => k);
            if (ka.length !== kb.length || ka.some((k) => !kb.includes(k))) return S.FALSE;
            return S.and(...ka.map((k) => this.deepEqual(fa.get(k), fb.get(k))));
        }
        const prim = (v) => v.k === 'undef' || v.k === 'null' || v.k === 'nan' || v.k === 'inf' || (isTerm(v) && v.sort !== 'Val' && v.sort !== 'Obj');
        if (prim(a) && prim(b)) return S.or(this.eq(a, b), S.bool(a.k === 'nan' && b.k === 'nan'));
        if (prim(a) || prim(b)) {
            const o = prim(a) ? b : a;
            if (!isTerm(o)) return S.FALSE;
            return S.eq(lift(a), lift(b));
        }
        if ((sa || fa || sb || fb) && !(isTerm(a) || isTerm(b))) return S.FALSE;
        this.assumed.add('deep equality of opaque values is an equivalence relation that coincides with === on primitives');
        const la = lift(a);
        const lb = lift(b);
        const d = (x, y) => S.app('deepEq', [x, y], 'Bool');
        if (!this.lemmas.has('deepEq')) {
            this.lemmas.add('deepEq');
            const x = S.bvar('x!e', 'Val');
            const y = S.bvar('y!e', 'Val');
            const z = S.bvar('z!e', 'Val');
            this.assume(S.forall([x], d(x, x), [[d(x, x)]]));
            this.assume(S.forall([x, y], S.eq(d(x, y), d(y, x)), [[d(x, y)]]));
            this.assume(S.forall([x, y, z], S.implies(S.and(d(x, y), d(y, z)), d(x, z)), [[d(x, y), d(y, z)]]));
            this.assume(S.forall([x, y], S.implies(S.not(S.and(S.is('vobj', x), S.is('vobj', y))), S.eq(d(x, y), S.eq(x, y))), [[d(x, y)]]));
        }
        if (la === lb) return S.TRUE;
        return la.id < lb.id ? d(la, lb) : d(lb, la);
    },

    // ---- watchers ---------------------------------------------------------------------------------------------
    snapshot(v) {
        // arrays and plain objects are copied so that in-place mutation is visible to deep watchers
        return this.freeze(v, -1);
    },
    /** forget pending changes: every watcher has seen the current state */
    settle() {
        for (const w of this.watchers) if (w.note) w.note();
    },
    /** run watchers whose source changed, until nothing changes */
    flush(rounds = 5) {
        for (let r = 0; r < rounds; r++) {
            let any = false;
            for (const w of [...this.watchers]) {
                if (w.cell.f.get('stopped') === S.TRUE) continue;
                if (w.effect) {
                    const c = w.cache;
                    if (c.deps.every(([m, v]) => m.ver === v)) continue;
                    any = true;
                    w.run();
                    continue;
                }
                const nv = w.read();
                const old = w.cell.f.get('old');
                const ch = this.watchChanged(w, old, nv);
                if (ch === S.FALSE) continue;
                if (this.decide(ch)) {
                    any = true;
                    w.note(nv);
                    if (w.once) this.write(w.cell, 'stopped', S.TRUE);
                    this.call(w.cb, [nv, old, this.native('onCleanup', () => undef)]);
                }
            }
            if (!any) return;
        }
        throw new Unsupported('watchers do not settle');
    },
    /** as Vue decides it: identity of the value, any inner change as well for deep watchers */
    watchChanged(w, old, nv) {
        const one = (a, b) => {
            if (a === b) return S.FALSE;
            if (a.k === 'union' || b.k === 'union') {
                a = this.force(a);
                b = this.force(b);
                if (a === b) return S.FALSE;
            }
            if (a.k === 'obj' && b.k === 'obj') return S.TRUE;
            if (['rec', 'seq'].includes(a.k) || ['rec', 'seq'].includes(b.k)) return this.changed(a, b);
            try {
                return S.not(S.eq(lift(a), lift(b)));
            } catch (e) {
                if (!(e instanceof CannotLift)) throw e;
                return this.changed(a, b);
            }
        };
        let ch;
        if (w.multi) ch = S.or(...this.seqOf(old).lit.map((x, i) => one(x, this.seqOf(nv).lit[i])));
        else ch = one(old, nv);
        if (ch !== S.TRUE && w.deep) ch = S.or(ch, this.changed(w.cell.f.get('snap'), this.snapshot(nv)));
        return ch;
    },
    changed(a, b) {
        if (a === b) return S.FALSE;
        try {
            return S.not(this.deepEqual(a, b));
        } catch (e) {
            if (!(e instanceof Unsupported)) throw e;
            return S.TRUE;
        }
    },
});

function findDiv(t) {
    if (t.op === 'div') return t;
    for (const a of t.args) {
        const r = findDiv(a);
        if (r) return r;
    }
    return null;
}
function mapSeq2(n) {
    return seq(n, (i) => S.app('i2s', [i], 'Str'));
}
/** triggers: the smallest applications having v directly as an argument */
export function patternOf(t, v) {
    const out = [];
    const go = (x) => {
        if (!S.freeVars(x).has(v)) return;
        if (x.op === 'forall' || x.op === 'exists') return;
        if (x.op === 'app' && x.args.includes(v)) out.push(x);
        for (const a of x.args) go(a);
    };
    go(t);
    return [...new Set(out)].slice(0, 3).map((x) => [x]);
}
const kebab = (s) =>
    s
        .replace(/([\p{Ll}\d])(\p{Lu})/gu, '$1-$2')
        .replace(/(\p{Lu})([\p{Lu}][\p{Ll}])/gu, '$1-$2')
        .replace(/[^\p{L}\d]+/giu, '-')
        .replace(/^-|-$/g, '')
        .toLowerCase();
const ARR = new Set('push pop shift unshift slice concat at reverse toReversed splice toSpliced fill with keys entries values join includes indexOf lastIndexOf find findIndex findLast findLastIndex some every forEach map filter flatMap flat reduce sort toSorted toString'.split(' '));
const MAPM = new Set('has get set add delete clear keys values entries forEach'.split(' '));
const STR = new Set('toString valueOf normalize toLowerCase toUpperCase trim trimEnd trimStart includes startsWith endsWith slice substring substr at charAt charCodeAt codePointAt indexOf lastIndexOf padStart padEnd repeat localeCompare concat split replace replaceAll match matchAll'.split(' '));
