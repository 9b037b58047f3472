// Terms of the verification conditions: hash-consed, simplified on construction, printed as SMT-LIB 2.
// Sorts: Int, Real, Bool, Str, Val, Obj.  Integers and reals are mathematical (stated as an assumption).

let nextId = 1;
const table = new Map();

export class Term {
    constructor(op, args, sort, x) {
        this.k = 't';
        this.op = op;
        this.args = args;
        this.sort = sort;
        this.x = x;
        this.id = nextId++;
        this.fv = undefined;
    }
}

function mk(op, args, sort, x) {
    const key = op + '|' + sort + '|' + (x === undefined ? '' : String(x)) + '|' + args.map((a) => a.id).join(',');
    let t = table.get(key);
    if (!t) {
        t = new Term(op, args, sort, x);
        table.set(key, t);
    }
    return t;
}

// ---- rationals ----------------------------------------------------------------------------
const gcd = (a, b) => {
    a = a < 0n ? -a : a;
    b = b < 0n ? -b : b;
    while (b) [a, b] = [b, a % b];
    return a;
};
export class Rat {
    constructor(n, d = 1n) {
        if (d < 0n) {
            n = -n;
            d = -d;
        }
        const g = gcd(n, d) || 1n;
        this.n = n / g;
        this.d = d / g;
    }
    add(o) {
        return new Rat(this.n * o.d + o.n * this.d, this.d * o.d);
    }
    mul(o) {
        return new Rat(this.n * o.n, this.d * o.d);
    }
    neg() {
        return new Rat(-this.n, this.d);
    }
    inv() {
        return new Rat(this.d, this.n);
    }
    get zero() {
        return this.n === 0n;
    }
    get sign() {
        return this.n > 0n ? 1 : this.n < 0n ? -1 : 0;
    }
    eq(o) {
        return this.n === o.n && this.d === o.d;
    }
    toString() {
        return this.d === 1n ? `${this.n}` : `${this.n}/${this.d}`;
    }
    static of(v) {
        if (v instanceof Rat) return v;
        if (typeof v === 'bigint') return new Rat(v);
        if (Number.isInteger(v)) return new Rat(BigInt(v));
        let s = String(v);
        let e = 0;
        const m = /^(-?[\d.]+)e([+-]?\d+)$/i.exec(s);
        if (m) {
            s = m[1];
            e = Number(m[2]);
        }
        const [a, b = ''] = s.split('.');
        let n = BigInt(a + b);
        let d = 10n ** BigInt(b.length);
        if (e > 0) n *= 10n ** BigInt(e);
        if (e < 0) d *= 10n ** BigInt(-e);
        return new Rat(n, d);
    }
}
const R0 = new Rat(0n);
const R1 = new Rat(1n);

// ---- leaves -------------------------------------------------------------------------------
export const TRUE = mk('true', [], 'Bool');
export const FALSE = mk('false', [], 'Bool');
export const bool = (b) => (b ? TRUE : FALSE);
export const int = (v) => mk('num', [], 'Int', Rat.of(v));
export const real = (v) => mk('num', [], 'Real', Rat.of(v));
export const num = (v) => (Number.isInteger(v) ? int(v) : real(v));
export const str = (s) => mk('str', [], 'Str', s);
export const bvar = (name, sort) => mk('bvar', [], sort, name);
export const app = (name, args, sort) => mk('app', args, sort, name);
export const isConst = (t) => t.op === 'num' || t.op === 'str' || t === TRUE || t === FALSE;
export const isNum = (t) => t.k === 't' && (t.sort === 'Int' || t.sort === 'Real');
export const constNum = (t) => (t.op === 'num' ? Number(t.x.n) / Number(t.x.d) : undefined);

// ---- free bound variables / substitution ---------------------------------------------------
const EMPTY = new Set();
export function freeVars(t) {
    if (t.fv !== undefined) return t.fv;
    let s;
    if (t.op === 'bvar') s = new Set([t]);
    else if (t.op === 'forall' || t.op === 'exists') {
        s = new Set(freeVars(t.args[0]));
        for (const v of t.vars) s.delete(v);
    } else {
        s = EMPTY;
        for (const a of t.args) {
            const f = freeVars(a);
            if (f.size) {
                if (s === EMPTY) s = new Set(f);
                else for (const v of f) s.add(v);
            }
        }
    }
    t.fv = s.size ? s : EMPTY;
    return t.fv;
}

export function subst(t, map, memo = new Map()) {
    const fv = freeVars(t);
    if (!fv.size) return t;
    let hit = false;
    for (const v of fv) if (map.has(v)) hit = true;
    if (!hit) return t;
    if (t.op === 'bvar') return map.get(t) ?? t;
    const m = memo.get(t);
    if (m) return m;
    let r;
    if (t.op === 'forall' || t.op === 'exists') {
        const body = subst(t.args[0], map, memo);
        const pats = (t.pats || []).map((p) => p.map((x) => subst(x, map, memo)));
        r = quant(t.op, t.vars, body, pats);
    } else {
        r = rebuild(
            t,
            t.args.map((a) => subst(a, map, memo)),
        );
    }
    memo.set(t, r);
    return r;
}

/** replace arbitrary ground subterms (used to freeze state functions) */
export function rebuild(t, args) {
    switch (t.op) {
        case 'app':
            return t.x === 'str_cat' ? strCat(...args) : app(t.x, args, t.sort);
        case 'and':
            return and(...args);
        case 'or':
            return or(...args);
        case 'not':
            return not(args[0]);
        case 'ite':
            return ite(args[0], args[1], args[2]);
        case 'eq':
            return eq(args[0], args[1]);
        case 'ge0':
            return ge0(args[0]);
        case 'gt0':
            return gt0(args[0]);
        case 'lin': {
            let l = { c: t.x.c, m: new Map() };
            t.args.forEach((_, i) => {
                l = linAdd(l, linScale(toLin(args[i]), t.x.k[i]));
            });
            return fromLin(l, t.sort);
        }
        case 'mul':
            return mul(args[0], args[1]);
        case 'div':
            return div(args[0], args[1]);
        case 'idiv':
            return idiv(args[0], args[1]);
        case 'imod':
            return imod(args[0], args[1]);
        case 'toreal':
            return toReal(args[0]);
        case 'floor':
            return floor(args[0]);
        case 'ctor':
            return ctor(t.x, ...args);
        case 'sel':
            return sel(t.x, args[0]);
        case 'is':
            return is(t.x, args[0]);
        default:
            return mk(t.op, args, t.sort, t.x);
    }
}

// ---- booleans -----------------------------------------------------------------------------
export function not(a) {
    if (a === TRUE) return FALSE;
    if (a === FALSE) return TRUE;
    if (a.op === 'not') return a.args[0];
    if (a.op === 'ge0' && a.args[0].sort === 'Int') return ge0(sub(int(-1), a.args[0]));
    if (a.op === 'ge0') return gt0(neg(a.args[0]));
    if (a.op === 'gt0') return ge0(neg(a.args[0]));
    return mk('not', [a], 'Bool');
}
export function and(...xs) {
    const out = new Set();
    const go = (x) => {
        if (x === TRUE) return true;
        if (x === FALSE) return false;
        if (x.op === 'and') return x.args.every(go);
        out.add(x);
        return true;
    };
    for (const x of xs) if (!go(x)) return FALSE;
    for (const x of out) if (out.has(not(x))) return FALSE;
    const a = [...out];
    if (!a.length) return TRUE;
    if (a.length === 1) return a[0];
    return mk('and', a, 'Bool');
}
export function or(...xs) {
    const out = new Set();
    const go = (x) => {
        if (x === FALSE) return true;
        if (x === TRUE) return false;
        if (x.op === 'or') return x.args.every(go);
        out.add(x);
        return true;
    };
    for (const x of xs) if (!go(x)) return TRUE;
    for (const x of out) if (out.has(not(x))) return TRUE;
    const a = [...out];
    if (!a.length) return FALSE;
    if (a.length === 1) return a[0];
    return mk('or', a, 'Bool');
}
export const implies = (a, b) => or(not(a), b);
export const iff = (a, b) => eq(a, b);
export function ite(c, a, b) {
    if (c === TRUE) return a;
    if (c === FALSE) return b;
    if (a === b) return a;
    if (a.sort !== b.sort) {
        if (isNum(a) && isNum(b)) {
            a = toReal(a);
            b = toReal(b);
        } else throw new Error(`ite sorts ${a.sort} ${b.sort}`);
    }
    if (a.sort === 'Bool') {
        if (a === TRUE) return or(c, b);
        if (a === FALSE) return and(not(c), b);
        if (b === TRUE) return or(not(c), a);
        if (b === FALSE) return and(c, a);
        if (b === c) return and(c, a);
        if (a === c) return or(c, b);
    }
    if (c.op === 'not') return ite(c.args[0], b, a);
    if (b.op === 'ite' && b.args[0] === c) return ite(c, a, b.args[2]);
    if (a.op === 'ite' && a.args[0] === c) return ite(c, a.args[1], b);
    if (b.op === 'ite' && b.args[0] === not(c)) return ite(c, a, b.args[1]);
    if (a.op === 'ite' && a.args[0] === not(c)) return ite(c, a.args[2], b);
    return mk('ite', [c, a, b], a.sort);
}

// ---- equality -----------------------------------------------------------------------------
/** a value of a known sort as a value of any sort */
const BOX = { Bool: 'vbool', Int: 'vnum', Real: 'vnum', Str: 'vstr', Obj: 'vobj' };
const box = (t) => (BOX[t.sort] ? ctor(BOX[t.sort], t) : t);
export function eq(a, b) {
    if (a === b) return TRUE;
    if (isNum(a) && isNum(b)) {
        if (a.sort !== b.sort) {
            a = toReal(a);
            b = toReal(b);
        }
        // an ite with a constant leaf: decide per branch
        if (b.op === 'num' && a.op === 'ite' && (a.args[1].op === 'num' || a.args[2].op === 'num'))
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b));
        if (a.op === 'num' && b.op === 'ite' && (b.args[1].op === 'num' || b.args[2].op === 'num'))
            return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a));
        const d = linSub(toLin(a), toLin(b));
        if (!d.m.size) return bool(d.c.zero);
        // canonical sign
        const first = [...d.m.keys()].sort((x, y) => x.id - y.id)[0];
        const l = d.m.get(first).sign < 0 ? linScale(d, new Rat(-1n)) : d;
        return mk('eq', [fromLin(l, a.sort), fromLin({ c: R0, m: new Map() }, a.sort)], 'Bool');
    }
    if (a.sort !== b.sort && (a.sort === 'Val' || b.sort === 'Val')) {
        a = box(a);
        b = box(b);
        if (a === b) return TRUE;
    }
    if (a.sort !== b.sort) throw new Error(`eq sorts ${a.sort} ${b.sort}`);
    if (a.sort === 'Bool') {
        if (a === TRUE) return b;
        if (b === TRUE) return a;
        if (a === FALSE) return not(b);
        if (b === FALSE) return not(a);
        if (a === not(b)) return FALSE;
    }
    if (isConst(a) && isConst(b)) return bool(a === b);
    if (a.op === 'ctor' && b.op === 'ctor') {
        if (a.x !== b.x) return FALSE;
        return and(...a.args.map((x, i) => eq(x, b.args[i])));
    }
    if (a.op === 'ctor' && b.op === 'app' && a.args.length === 0) return is(a.x, b);
    if (b.op === 'ctor' && b.args.length === 0 && a.op !== 'ite') return is(b.x, a);
    if (a.op === 'ctor' && a.args.length === 0 && b.op !== 'ite') return is(a.x, b);
    const lit = (t) => isConst(t) || t.op === 'ctor' || (t.op === 'app' && HEAPOBJ.has(t.x));
    if (a.op === 'ite' && lit(b)) return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b));
    if (b.op === 'ite' && lit(a)) return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a));
    if (a.op === 'app' && b.op === 'app' && HEAPOBJ.has(a.x) && HEAPOBJ.has(b.x)) return bool(a.x === b.x);
    // identifiers have one length, so texts ending in them agree part by part
    const nid = (t) => t.op === 'app' && /^nanoid_\d+$/.test(t.x);
    const tagged = (t) => (t.op === 'ite' ? tagged(t.args[1]) && tagged(t.args[2]) : t.op === 'app' && t.x === 'str_cat' && nid(t.args[1]));
    if (a.sort === 'Str' && tagged(a) && tagged(b)) {
        if (a.op === 'ite') return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b));
        if (b.op === 'ite') return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]));
        return and(eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]));
    }
    if (a.id > b.id) [a, b] = [b, a];
    const cat = (t) => t.op === 'app' && t.x === 'str_cat';
    // a fixed text and one with fixed parts: they differ when those parts cannot fit
    const [fix, made] = a.op === 'str' ? [a, b] : [b, a];
    if (fix.op === 'str' && cat(made)) {
        const parts = (t) => (cat(t) ? [...parts(t.args[0]), ...parts(t.args[1])] : [t]);
        const ps = parts(made);
        const size = ps.reduce((n, t) => n + (t.op === 'str' ? t.x.length : 0), 0);
        if (size > fix.x.length) return FALSE;
        if (ps[0].op === 'str' && !fix.x.startsWith(ps[0].x)) return FALSE;
        const last = ps[ps.length - 1];
        if (last.op === 'str' && !fix.x.endsWith(last.x)) return FALSE;
        if (fix.x === '') return and(...ps.filter((t) => t.op !== 'str').map((t) => eq(t, fix)));
    }
    // texts ending in a separator and a natural number agree part by part
    if (cat(a) && cat(b) && a.args[1].x === 'i2s' && b.args[1].x === 'i2s' && cat(a.args[0]) && cat(b.args[0])) {
        const [l, m] = [a.args[0].args[1], b.args[0].args[1]];
        const [i, j] = [a.args[1].args[0], b.args[1].args[0]];
        if (l === m && l.op === 'str' && /[^0-9]$/.test(l.x))
            return ite(and(ge(i, int(0)), ge(j, int(0))), and(eq(i, j), eq(a.args[0].args[0], b.args[0].args[0])), mk('eq', [a, b], 'Bool'));
    }
    return mk('eq', [a, b], 'Bool');
}
/** names of Obj constants known to denote pairwise different heap objects */
export const HEAPOBJ = new Set();

// ---- linear arithmetic ----------------------------------------------------------------------
// lin: x = {c: Rat, k: Rat[]}, args = atoms
function toLin(t) {
    if (t.op === 'num') return { c: t.x, m: new Map() };
    if (t.op === 'lin') return { c: t.x.c, m: new Map(t.args.map((a, i) => [a, t.x.k[i]])) };
    return { c: R0, m: new Map([[t, R1]]) };
}
function linAdd(a, b) {
    const m = new Map(a.m);
    for (const [k, v] of b.m) {
        const n = (m.get(k) ?? R0).add(v);
        if (n.zero) m.delete(k);
        else m.set(k, n);
    }
    return { c: a.c.add(b.c), m };
}
function linScale(a, r) {
    if (r.zero) return { c: R0, m: new Map() };
    return { c: a.c.mul(r), m: new Map([...a.m].map(([k, v]) => [k, v.mul(r)])) };
}
const linSub = (a, b) => linAdd(a, linScale(b, new Rat(-1n)));
class LinX {
    constructor(c, k) {
        this.c = c;
        this.k = k;
    }
    toString() {
        return this.c + ';' + this.k.join(',');
    }
}
function fromLin(l, sort) {
    if (!l.m.size) return mk('num', [], sort, l.c);
    const ks = [...l.m.keys()].sort((x, y) => x.id - y.id);
    if (ks.length === 1 && l.c.zero && l.m.get(ks[0]).eq(R1)) return ks[0];
    return mk(
        'lin',
        ks,
        sort,
        new LinX(
            l.c,
            ks.map((k) => l.m.get(k)),
        ),
    );
}
function same(a, b) {
    if (a.sort === b.sort) return [a, b];
    return [toReal(a), toReal(b)];
}
export function toReal(a) {
    if (a.sort === 'Real') return a;
    if (a.op === 'num') return real(a.x);
    if (a.op === 'ite') return ite(a.args[0], toReal(a.args[1]), toReal(a.args[2]));
    if (a.op === 'lin') {
        let l = { c: a.x.c, m: new Map() };
        a.args.forEach((t, i) => {
            l = linAdd(l, linScale(toLin(toReal(t)), a.x.k[i]));
        });
        return fromLin(l, 'Real');
    }
    return mk('toreal', [a], 'Real');
}
/** a term of sort Int equal to t when t is syntactically integral, else undefined */
export function asInt(t) {
    if (t.sort === 'Int') return t;
    if (t.op === 'toreal') return t.args[0];
    if (t.op === 'num') return t.x.d === 1n ? int(t.x) : undefined;
    if (t.op === 'lin') {
        let l = { c: t.x.c, m: new Map() };
        if (t.x.c.d !== 1n) return undefined;
        for (let i = 0; i < t.args.length; i++) {
            const a = asInt(t.args[i]);
            if (!a || t.x.k[i].d !== 1n) return undefined;
            l = linAdd(l, linScale(toLin(a), t.x.k[i]));
        }
        return fromLin(l, 'Int');
    }
    if (t.op === 'ite') {
        const a = asInt(t.args[1]);
        const b = asInt(t.args[2]);
        return a && b ? ite(t.args[0], a, b) : undefined;
    }
    if (t.op === 'mul') {
        const a = asInt(t.args[0]);
        const b = asInt(t.args[1]);
        return a && b ? mul(a, b) : undefined;
    }
    return undefined;
}
export function add(a, b) {
    [a, b] = same(a, b);
    return fromLin(linAdd(toLin(a), toLin(b)), a.sort);
}
export const neg = (a) => fromLin(linScale(toLin(a), new Rat(-1n)), a.sort);
export function sub(a, b) {
    [a, b] = same(a, b);
    return fromLin(linSub(toLin(a), toLin(b)), a.sort);
}
export function mul(a, b) {
    [a, b] = same(a, b);
    if (a.op === 'num') return fromLin(linScale(toLin(b), a.x), a.sort);
    if (b.op === 'num') return fromLin(linScale(toLin(a), b.x), a.sort);
    // distribute one level over sums, so that equal polynomials become equal terms
    if (a.op === 'lin') {
        let l = linScale(toLin(b), a.x.c);
        a.args.forEach((t, i) => {
            l = linAdd(l, linScale(toLin(mul(t, b)), a.x.k[i]));
        });
        return fromLin(l, a.sort);
    }
    if (b.op === 'lin') return mul(b, a);
    if (a.id > b.id) [a, b] = [b, a];
    return mk('mul', [a, b], a.sort);
}
export function div(a, b) {
    a = toReal(a);
    b = toReal(b);
    if (b.op === 'num' && !b.x.zero) return mul(a, real(b.x.inv()));
    return mk('div', [a, b], 'Real');
}
export function floor(a) {
    const i = asInt(a);
    if (i) return i;
    if (a.op === 'num') {
        const { n, d } = a.x;
        let q = n / d;
        if (n % d !== 0n && n < 0n) q -= 1n;
        return int(q);
    }
    if (a.op === 'ite') return ite(a.args[0], floor(a.args[1]), floor(a.args[2]));
    if (a.op === 'lin') {
        // common denominator: floor(N/D) = N div D
        let d = a.x.c.d;
        for (const k of a.x.k) d = (d * k.d) / gcd(d, k.d);
        const scaled = mul(a, real(new Rat(d)));
        const n = asInt(scaled);
        if (n && d > 1n) return idiv(n, int(d));
        // pull the integral part out of the sum
        let ip = { c: R0, m: new Map() };
        let rp = { c: R0, m: new Map() };
        if (a.x.c.d === 1n) ip.c = a.x.c;
        else rp.c = a.x.c;
        a.args.forEach((t, i) => {
            const it = asInt(t);
            if (it && a.x.k[i].d === 1n) ip = linAdd(ip, linScale(toLin(it), a.x.k[i]));
            else rp = linAdd(rp, linScale(toLin(t), a.x.k[i]));
        });
        if (ip.m.size || !ip.c.zero) return add(fromLin(ip, 'Int'), mk('floor', [fromLin(rp, 'Real')], 'Int'));
    }
    return mk('floor', [a], 'Int');
}
export function idiv(a, b) {
    if (a.op === 'num' && b.op === 'num' && b.x.n > 0n) {
        const n = a.x.n;
        const d = b.x.n;
        let q = n / d;
        if (n % d !== 0n && n < 0n) q -= 1n;
        return int(q);
    }
    return mk('idiv', [a, b], 'Int');
}
export function imod(a, b) {
    if (a.op === 'num' && b.op === 'num' && b.x.n > 0n) {
        let r = a.x.n % b.x.n;
        if (r < 0n) r += b.x.n;
        return int(r);
    }
    return mk('imod', [a, b], 'Int');
}
export function ge0(a) {
    if (a.op === 'num') return bool(a.x.sign >= 0);
    if (a.op === 'ite' && (a.args[1].op === 'num' || a.args[2].op === 'num'))
        return ite(a.args[0], ge0(a.args[1]), ge0(a.args[2]));
    if (a.op === 'lin' && a.sort === 'Int') {
        // divide by the gcd of the coefficients
        let g = 0n;
        for (const k of a.x.k) g = gcd(g, k.n);
        if (g > 1n) {
            let c = a.x.c.n;
            let q = c / g;
            if (c % g !== 0n && c < 0n) q -= 1n;
            return mk(
                'ge0',
                [
                    fromLin(
                        { c: new Rat(q), m: new Map(a.args.map((t, i) => [t, new Rat(a.x.k[i].n / g)])) },
                        'Int',
                    ),
                ],
                'Bool',
            );
        }
    }
    return mk('ge0', [a], 'Bool');
}
export function gt0(a) {
    if (a.op === 'num') return bool(a.x.sign > 0);
    if (a.sort === 'Int') return ge0(sub(a, int(1)));
    if (a.op === 'ite' && (a.args[1].op === 'num' || a.args[2].op === 'num'))
        return ite(a.args[0], gt0(a.args[1]), gt0(a.args[2]));
    return mk('gt0', [a], 'Bool');
}
export const le = (a, b) => ge0(sub(b, a));
export const lt = (a, b) => gt0(sub(b, a));
export const ge = (a, b) => le(b, a);
export const gt = (a, b) => lt(b, a);
export const min = (a, b) => ite(le(a, b), a, b);
export const max = (a, b) => ite(ge(a, b), a, b);

// ---- quantifiers ----------------------------------------------------------------------------
/** x with every occurrence of v under function symbols of the form (x - t) or (t - x): shift so that v appears bare */
function shiftFor(body, v, vars) {
    let found = null;
    let bad = false;
    const seen = new Set();
    const go = (t) => {
        if (bad || seen.has(t) || !freeVars(t).has(v)) return;
        seen.add(t);
        if (t.op === 'app' || t.op === 'ctor') {
            for (let a of t.args) {
                if (a.sort === 'Real') a = asInt(a) ?? a;
                if (!freeVars(a).has(v) || a.sort === 'Bool' || a.sort === 'Val' || a.sort === 'Str' || a.sort === 'Obj') continue;
                if (a === v || a.op !== 'lin' || a.sort !== 'Int') {
                    if (a === v || a.op === 'app') {
                        if (a === v) bad = true;
                        continue;
                    }
                    bad = true;
                    return;
                }
                const i = a.args.indexOf(v);
                if (i < 0) continue;
                const k = a.x.k[i];
                const rest = sub(a, fromLin({ c: R0, m: new Map([[v, k]]) }, 'Int'));
                if (!(k.eq(R1) || k.eq(new Rat(-1n))) || vars.some((w) => freeVars(rest).has(w))) {
                    bad = true;
                    return;
                }
                const f = { k, rest };
                if (!found) found = f;
                else if (!found.k.eq(k) || found.rest !== rest) {
                    bad = true;
                    return;
                }
            }
        }
        for (const a of t.args) go(a);
    };
    go(body);
    return bad ? null : found;
}
function quant(op, vars, body, pats = []) {
    if (body === TRUE || body === FALSE) return body;
    for (const v of vars) {
        if (v.sort !== 'Int') continue;
        const f = shiftFor(body, v, vars);
        if (!f) continue;
        // k*v + rest = v'  =>  v = k*(v' - rest)
        const m = new Map([[v, f.k.eq(R1) ? sub(v, f.rest) : sub(f.rest, v)]]);
        body = subst(body, m);
        pats = pats.map((p) => p.map((x) => subst(x, m)));
    }
    if (body === TRUE || body === FALSE) return body;
    const fv = freeVars(body);
    const vs = vars.filter((v) => fv.has(v));
    if (!vs.length) return body;
    pats = pats.filter((p) => p.length && vs.every((v) => p.some((x) => freeVars(x).has(v))));
    const t = mk(
        op,
        [body],
        'Bool',
        vs.map((v) => v.x).join(',') + '@' + pats.map((p) => p.map((x) => x.id).join('+')).join('|'),
    );
    if (!t.vars) {
        t.vars = vs;
        t.pats = pats;
    }
    return t;
}
export const forall = (vars, body, pats) => quant('forall', vars, body, pats);
export const exists = (vars, body, pats) => quant('exists', vars, body, pats);

// ---- the universal value datatype -----------------------------------------------------------
const CT = {
    undef: [],
    nul: [],
    vbool: [['vb', 'Bool']],
    vnum: [['vn', 'Real']],
    vstr: [['vs', 'Str']],
    vobj: [['vo', 'Obj']],
    vnan: [],
    vinf: [['vip', 'Bool']],
};
export function ctor(name, ...args) {
    if (name === 'vnum') args = [toReal(args[0])];
    // vbool(vb(x)) when is(vbool,x) is not known: keep
    return mk('ctor', args, 'Val', name);
}
export const UNDEF = ctor('undef');
export const NUL = ctor('nul');
const SELSORT = { vb: 'Bool', vn: 'Real', vs: 'Str', vo: 'Obj', vip: 'Bool' };
const SELCT = { vb: 'vbool', vn: 'vnum', vs: 'vstr', vo: 'vobj', vip: 'vinf' };
export function sel(name, v) {
    if (v.op === 'ctor' && v.x === SELCT[name]) return v.args[0];
    if (v.op === 'ite') {
        const a = v.args[1];
        const b = v.args[2];
        const wrong = (t) => t.op === 'ctor' && t.x !== SELCT[name];
        if (wrong(a)) return sel(name, b);
        if (wrong(b)) return sel(name, a);
        return ite(v.args[0], sel(name, a), sel(name, b));
    }
    return mk('sel', [v], SELSORT[name], name);
}
export function is(name, v) {
    if (v.op === 'ctor') return bool(v.x === name);
    if (v.op === 'ite') return ite(v.args[0], is(name, v.args[1]), is(name, v.args[2]));
    return mk('is', [v], 'Bool', name);
}

// ---- printing -------------------------------------------------------------------------------
const q = (s) => (/^[A-Za-z_][A-Za-z0-9_]*$/.test(s) ? s : `|${s.replace(/[|\\]/g, '_')}|`);
export class Printer {
    /** strings: 'abs' (uninterpreted sort with distinct literals) or 'smt' (theory of strings) */
    constructor(strings = 'abs') {
        this.strings = strings;
        this.decls = new Map();
        this.lits = new Map();
        this.memo = new Map();
        this.uses = new Set();
    }
    num(r, sort) {
        const a = r.n < 0n ? -r.n : r.n;
        let s = sort === 'Int' ? `${a}` : r.d === 1n ? `${a}.0` : `(/ ${a}.0 ${r.d}.0)`;
        return r.n < 0n ? `(- ${s})` : s;
    }
    strlit(s) {
        if (this.strings === 'smt') {
            let o = '';
            for (const ch of s) {
                const c = ch.codePointAt(0);
                if (ch === '"') o += '""';
                else if (c < 32 || c > 126 || ch === '\\') o += `\\u{${c.toString(16)}}`;
                else o += ch;
            }
            return `"${o}"`;
        }
        if (!this.lits.has(s)) this.lits.set(s, `lit${this.lits.size}`);
        return this.lits.get(s);
    }
    lin(t) {
        const pos = [];
        const ng = [];
        t.args.forEach((a, i) => {
            const k = t.x.k[i];
            const p = this.p(a);
            const ab = new Rat(k.n < 0n ? -k.n : k.n, k.d);
            const s = ab.eq(R1) ? p : `(* ${this.num(ab, t.sort)} ${p})`;
            (k.sign > 0 ? pos : ng).push(s);
        });
        if (t.x.c.sign > 0) pos.push(this.num(t.x.c, t.sort));
        if (t.x.c.sign < 0) ng.push(this.num(t.x.c.neg(), t.sort));
        const sum = (l) => (l.length === 0 ? this.num(R0, t.sort) : l.length === 1 ? l[0] : `(+ ${l.join(' ')})`);
        return [sum(pos), ng.length ? sum(ng) : null];
    }
    p(t) {
        let s = this.memo.get(t);
        if (s === undefined) {
            s = this.p0(t);
            this.memo.set(t, s);
        }
        return s;
    }
    cmp(op, t) {
        if (t.op === 'lin') {
            const [a, b] = this.lin(t);
            return `(${op} ${a} ${b ?? this.num(R0, t.sort)})`;
        }
        return `(${op} ${this.p(t)} ${this.num(R0, t.sort)})`;
    }
    p0(t) {
        switch (t.op) {
            case 'true':
            case 'false':
                return t.op;
            case 'num':
                return this.num(t.x, t.sort);
            case 'str':
                return this.strlit(t.x);
            case 'bvar':
                return q(t.x);
            case 'app': {
                if (t.x.startsWith('in_re:')) return `(str.in_re ${this.p(t.args[0])} ${t.x.slice(6)})`;
                const bi = BUILTIN[t.x];
                if (bi && this.strings === 'smt') return `(${bi} ${t.args.map((a) => this.p(a)).join(' ')})`;
                if (!this.decls.has(t.x))
                    this.decls.set(t.x, { args: t.args.map((a) => a.sort), sort: t.sort });
                else {
                    const d = this.decls.get(t.x);
                    if (d.sort !== t.sort || d.args.length !== t.args.length || d.args.some((s, i) => s !== t.args[i].sort))
                        throw new Error(`inconsistent use of ${t.x}: ${d.args}->${d.sort} / ${t.args.map((a) => a.sort)}->${t.sort}`);
                }
                return t.args.length ? `(${q(t.x)} ${t.args.map((a) => this.p(a)).join(' ')})` : q(t.x);
            }
            case 'not':
                return `(not ${this.p(t.args[0])})`;
            case 'and':
            case 'or':
                return `(${t.op} ${t.args.map((a) => this.p(a)).join(' ')})`;
            case 'ite':
                return `(ite ${t.args.map((a) => this.p(a)).join(' ')})`;
            case 'eq':
                if (isNum(t.args[0])) return this.cmp('=', t.args[0]);
                return `(= ${this.p(t.args[0])} ${this.p(t.args[1])})`;
            case 'ge0':
                return this.cmp('>=', t.args[0]);
            case 'gt0':
                return this.cmp('>', t.args[0]);
            case 'lin': {
                const [a, b] = this.lin(t);
                return b ? `(- ${a} ${b})` : a;
            }
            case 'mul':
                return `(* ${this.p(t.args[0])} ${this.p(t.args[1])})`;
            case 'div':
                return `(/ ${this.p(t.args[0])} ${this.p(t.args[1])})`;
            case 'idiv':
                return `(div ${this.p(t.args[0])} ${this.p(t.args[1])})`;
            case 'imod':
                return `(mod ${this.p(t.args[0])} ${this.p(t.args[1])})`;
            case 'toreal':
                return `(to_real ${this.p(t.args[0])})`;
            case 'floor':
                return `(to_int ${this.p(t.args[0])})`;
            case 'ctor':
                return t.args.length ? `(${t.x} ${t.args.map((a) => this.p(a)).join(' ')})` : t.x;
            case 'sel':
                return `(${t.x} ${this.p(t.args[0])})`;
            case 'is':
                return `((_ is ${t.x}) ${this.p(t.args[0])})`;
            case 'forall':
            case 'exists': {
                const vs = t.vars.map((v) => `(${q(v.x)} ${this.sort(v.sort)})`).join(' ');
                const body = this.p(t.args[0]);
                const pats = (t.pats || []).map((p) => `:pattern (${p.map((x) => this.p(x)).join(' ')})`).join(' ');
                return `(${t.op} (${vs}) ${pats ? `(! ${body} ${pats})` : body})`;
            }
        }
        throw new Error('print ' + t.op);
    }
    sort(s) {
        return s === 'Str' && this.strings === 'smt' ? 'String' : s;
    }
    /** complete script for: facts |- goal (asserts facts and not goal) */
    script(facts, goal, { models = false } = {}) {
        const body = [];
        for (const f of facts) body.push(`(assert ${this.p(f)})`);
        if (goal) body.push(`(assert (not ${this.p(goal)}))`);
        const free = new Set();
        for (const f of goal ? [...facts, goal] : facts) for (const v of freeVars(f)) free.add(v);
        this.free = free;
        return this.prelude() + body.join('\n') + '\n(check-sat)\n' + (models ? '(get-model)\n' : '');
    }
    prelude() {
        const out = ['(set-logic ALL)'];
        if (this.strings === 'smt') out.push('; theory of strings');
        const S = this.sort('Str');
        out.push('(declare-sort Obj 0)');
        if (this.strings !== 'smt') out.push('(declare-sort Str 0)');
        out.push(
            `(declare-datatypes ((Val 0)) (((undef) (nul) (vbool (vb Bool)) (vnum (vn Real)) (vstr (vs ${S})) (vobj (vo Obj)) (vnan) (vinf (vip Bool)))))`,
        );
        for (const [n, d] of this.decls)
            out.push(`(declare-fun ${q(n)} (${d.args.map((s) => this.sort(s)).join(' ')}) ${this.sort(d.sort)})`);
        for (const v of this.free ?? []) out.push(`(declare-fun ${q(v.x)} () ${this.sort(v.sort)})`);
        for (const [, n] of this.lits) out.push(`(declare-fun ${n} () Str)`);
        if (this.lits.size > 1) out.push(`(assert (distinct ${[...this.lits.values()].join(' ')}))`);
        if (this.strings !== 'smt') {
            // what is known about abstract strings
            if (this.decls.has('str_len')) {
                for (const [s, n] of this.lits) out.push(`(assert (= (str_len ${n}) ${s.length}))`);
                out.push('(assert (forall ((s Str)) (! (>= (str_len s) 0) :pattern ((str_len s)))))');
                if (this.lits.has('')) {
                    const e = this.lits.get('');
                    out.push(`(assert (forall ((s Str)) (! (=> (= (str_len s) 0) (= s ${e})) :pattern ((str_len s)))))`);
                }
                if (this.decls.has('str_cat'))
                    out.push(
                        '(assert (forall ((a Str) (b Str)) (! (= (str_len (str_cat a b)) (+ (str_len a) (str_len b))) :pattern ((str_cat a b)))))',
                    );
            }
        }
        if (this.decls.has('i2s')) {
            // decimal rendering is injective
            if (this.strings !== 'smt') {
                out.push('(declare-fun s2i_inv (Str) Int)');
                out.push('(assert (forall ((i Int)) (! (= (s2i_inv (i2s i)) i) :pattern ((i2s i)))))');
            }
        }
        const hs = [...this.decls.keys()].filter((n) => HEAPOBJ.has(n));
        if (hs.length > 1) out.push(`(assert (distinct ${hs.map(q).join(' ')}))`);
        return out.join('\n') + '\n';
    }
}
const BUILTIN = {
    str_len: 'str.len',
    str_cat: 'str.++',
    str_prefix: 'str.prefixof',
    str_suffix: 'str.suffixof',
    str_contains: 'str.contains',
    str_at: 'str.at',
    str_substr: 'str.substr',
    str_indexof: 'str.indexof',
    str_lt: 'str.<',
    str_le: 'str.<=',
    str_replace: 'str.replace',
    str_replace_all: 'str.replace_all',
    str_from_int: 'str.from_int',
    str_to_int: 'str.to_int',
    str_code: 'str.to_code',
};
export const strLen = (s) => (s.op === 'str' ? int(s.x.length) : app('str_len', [s], 'Int'));
export function strCat(a, b) {
    if (a.op === 'str' && a.x === '') return b;
    if (b.op === 'str' && b.x === '') return a;
    if (a.op === 'str' && b.op === 'str') return str(a.x + b.x);
    // nested to the left, neighbouring literals joined
    const cat = (t) => t.op === 'app' && t.x === 'str_cat';
    if (cat(b)) return strCat(strCat(a, b.args[0]), b.args[1]);
    if (cat(a) && b.op === 'str' && a.args[1].op === 'str') return strCat(a.args[0], str(a.args[1].x + b.x));
    return app('str_cat', [a, b], 'Str');
}
