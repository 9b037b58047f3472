// Meta-level values of the symbolic executor.  Leaves are SMT terms; objects, arrays, closures live in a heap
// whose cells are written only through Engine.write, so that every effect is journaled.
import * as S from './smt.mjs';

export const undef = { k: 'undef' };
export const nul = { k: 'null' };
export const NAN = { k: 'nan' };
export const inf = (pos) => (pos ? INF : NINF);
const INF = { k: 'inf', pos: true };
const NINF = { k: 'inf', pos: false };
export const ABSENT = { k: 'absent' };

export const isTerm = (v) => v.k === 't';
export const rec = (fields, base = null) => ({ k: 'rec', fields, base });
export const union = (c, a, b) => (c === S.TRUE ? a : c === S.FALSE ? b : { k: 'union', c, a, b });

// ---- tracked object slots ---------------------------------------------------------------------------
/** who reads: the innermost computed value being evaluated */
export const reads = { set: null };
/** the slots of a heap object; remembers readers and counts changes, so that computed values are cached as Vue does */
export class Slots extends Map {
    get(k) {
        reads.set?.add(this);
        return super.get(k);
    }
    has(k) {
        reads.set?.add(this);
        return super.has(k);
    }
    keys() {
        reads.set?.add(this);
        return super.keys();
    }
    values() {
        reads.set?.add(this);
        return super.values();
    }
    entries() {
        reads.set?.add(this);
        return super.entries();
    }
    [Symbol.iterator]() {
        reads.set?.add(this);
        return super[Symbol.iterator]();
    }
    set(k, v) {
        if (super.get(k) !== v || !super.has(k)) this.ver = (this.ver ?? 0) + 1;
        return super.set(k, v);
    }
    delete(k) {
        this.ver = (this.ver ?? 0) + 1;
        return super.delete(k);
    }
}

// ---- sequences ------------------------------------------------------------------------------
/** {k:'seq', len: Int term, at(i: Int term) -> value, lit?: value[]} - immutable */
export function litSeq(items) {
    return {
        k: 'seq',
        lit: items,
        len: S.int(items.length),
        at(i) {
            const c = S.constNum(i);
            if (c !== undefined) return items[c] ?? undef;
            let r = items.length ? items[items.length - 1] : undef;
            for (let j = items.length - 2; j >= 0; j--) r = merge(S.eq(i, S.int(j)), items[j], r);
            return r;
        },
    };
}
export const seq = (len, at, extra = {}) => ({ k: 'seq', len, at, ...extra });
export function catSeq(a, b) {
    if (a.lit && b.lit) return litSeq([...a.lit, ...b.lit]);
    if (a.lit && !a.lit.length) return b;
    if (b.lit && !b.lit.length) return a;
    // right-nested literal tails are joined
    if (a.cat && a.cat[1].lit && b.lit) return catSeq(a.cat[0], litSeq([...a.cat[1].lit, ...b.lit]));
    return {
        k: 'seq',
        len: S.add(a.len, b.len),
        cat: [a, b],
        at(i) {
            return merge(S.lt(i, a.len), () => a.at(i), () => b.at(S.sub(i, a.len)));
        },
    };
}

// ---- lifting and merging ----------------------------------------------------------------------
export class CannotLift extends Error {}
let objNames = new Map();
export function heapObjTerm(v) {
    const n = 'ho_' + v.id;
    if (!S.HEAPOBJ.has(n)) S.HEAPOBJ.add(n);
    objNames.set(n, v);
    return S.app(n, [], 'Obj');
}
export const heapObjOf = (t) =>
    t.op === 'ctor' && t.x === 'vobj' && t.args[0].op === 'app' && t.args[0].args.length === 0
        ? objNames.get(t.args[0].x)
        : undefined;
export const resetHeapNames = () => {
    objNames = new Map();
};

export function lift(v) {
    switch (v.k) {
        case 'undef':
            return S.UNDEF;
        case 'null':
            return S.NUL;
        case 'nan':
            return S.ctor('vnan');
        case 'inf':
            return S.ctor('vinf', S.bool(v.pos));
        case 't':
            switch (v.sort) {
                case 'Val':
                    return v;
                case 'Bool':
                    return S.ctor('vbool', v);
                case 'Int':
                case 'Real':
                    return S.ctor('vnum', v);
                case 'Str':
                    return S.ctor('vstr', v);
                case 'Obj':
                    return S.ctor('vobj', v);
            }
            break;
        case 'obj':
            return S.ctor('vobj', heapObjTerm(v));
        case 'union':
            return S.ite(v.c, lift(v.a), lift(v.b));
    }
    throw new CannotLift('cannot lift ' + v.k);
}

/** a back to a precise meta value when the constructor is syntactically known */
export function lower(t) {
    if (!isTerm(t) || t.sort !== 'Val') return t;
    if (t.op === 'ctor') {
        switch (t.x) {
            case 'undef':
                return undef;
            case 'nul':
                return nul;
            case 'vnan':
                return NAN;
            case 'vbool':
            case 'vstr':
                return t.args[0];
            case 'vnum':
                return S.asInt(t.args[0]) ?? t.args[0];
            case 'vinf':
                if (S.isConst(t.args[0])) return inf(t.args[0] === S.TRUE);
                return t;
            case 'vobj':
                return heapObjOf(t) ?? t;
        }
    }
    if (t.op === 'ite') {
        // one kind of value whichever way the choice goes
        const a = lower(t.args[1]);
        const b = lower(t.args[2]);
        if (isTerm(a) && isTerm(b) && a.sort !== 'Val' && b.sort !== 'Val') {
            if (a.sort === b.sort) return S.ite(t.args[0], a, b);
            if (S.isNum(a) && S.isNum(b)) return S.ite(t.args[0], S.toReal(a), S.toReal(b));
        }
    }
    return t;
}

export function merge(c, a, b) {
    const fa = () => (typeof a === 'function' ? a() : a);
    const fb = () => (typeof b === 'function' ? b() : b);
    if (c === S.TRUE) return fa();
    if (c === S.FALSE) return fb();
    a = fa();
    b = fb();
    if (a === b) return a;
    if (a.k === 't' && b.k === 't') {
        if (a.sort === b.sort) return lower(S.ite(c, a, b));
        if (S.isNum(a) && S.isNum(b)) return S.ite(c, a, b);
    }
    if ((a.k === 'obj' && b.k === 'obj' && a.id === b.id) || (a.k === b.k && a.k === 'fn' && a === b)) return a;
    if (a.k === 'rec' && b.k === 'rec' && !a.base && !b.base) {
        const keys = new Set([...a.fields.keys(), ...b.fields.keys()]);
        const f = new Map();
        let ok = true;
        for (const k of keys) {
            if (!a.fields.has(k) || !b.fields.has(k)) ok = false;
        }
        if (ok) {
            for (const k of keys) f.set(k, merge(c, a.fields.get(k), b.fields.get(k)));
            return rec(f);
        }
        return union(c, a, b);
    }
    if (a.k === 'seq' && b.k === 'seq')
        return seq(S.ite(c, a.len, b.len), (i) => merge(c, () => a.at(i), () => b.at(i)));
    const prim = (v) => v.k === 't' || v.k === 'undef' || v.k === 'null' || v.k === 'nan' || v.k === 'inf';
    if (prim(a) && prim(b)) return lower(S.ite(c, lift(a), lift(b)));
    return union(c, a, b);
}

export function substV(v, map) {
    switch (v.k) {
        case 't':
            return lower(S.subst(v, map));
        case 'rec': {
            const f = new Map();
            for (const [k, x] of v.fields) f.set(k, substV(x, map));
            const base = v.base && {
                get: (k) => substV(v.base.get(k), map),
                has: (k) => S.subst(v.base.has(k), map),
            };
            return { k: 'rec', fields: f, base, cls: v.cls };
        }
        case 'seq':
            if (v.lit) return litSeq(v.lit.map((x) => substV(x, map)));
            return seq(S.subst(v.len, map), (i) => substV(v.at(i), map));
        case 'union':
            return union(S.subst(v.c, map), substV(v.a, map), substV(v.b, map));
        case 'fn':
            if (v.native || !v.env?.inBinder) return v;
            return { ...v, substs: [...(v.substs ?? []), map] };
        default:
            return v;
    }
}
