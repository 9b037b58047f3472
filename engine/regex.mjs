// JavaScript regular expressions as SMT-LIB regular languages (used when strings are those of the theory of strings).
// Supported: literals, classes, \d \w \s and their complements, '.', groups, alternation, quantifiers, '^' at the start
// and '$' at the end of an alternative, flags g and i.  Anything else: null (the caller keeps the test uninterpreted).

export function parse(source, flags = '') {
    if (/[^gi]/.test(flags)) return null;
    const icase = flags.includes('i');
    let p = 0;
    let groups = 0;
    const fail = () => {
        throw new SyntaxError('regex');
    };
    const set = (ranges, neg = false) => ({ t: 'set', r: normal(icase ? ranges.flatMap(both) : ranges, neg) });
    function both([a, b]) {
        const out = [[a, b]];
        const sh = (lo, hi, d) => {
            const x = Math.max(a, lo);
            const y = Math.min(b, hi);
            if (x <= y) out.push([x + d, y + d]);
        };
        sh(65, 90, 32);
        sh(97, 122, -32);
        if (b > 127) fail(); // case folding outside ASCII is not modelled
        return out;
    }
    function alt() {
        const list = [seq()];
        while (source[p] === '|') {
            p++;
            list.push(seq());
        }
        return list.length === 1 ? list[0] : { t: 'alt', l: list };
    }
    function seq() {
        const l = [];
        while (p < source.length && source[p] !== '|' && source[p] !== ')') {
            let a = atom();
            const c = source[p];
            let q = null;
            if (c === '*') q = [0, Infinity];
            else if (c === '+') q = [1, Infinity];
            else if (c === '?') q = [0, 1];
            else if (c === '{') {
                const m = /^\{(\d+)(,(\d*))?\}/.exec(source.slice(p));
                if (!m) fail();
                q = [Number(m[1]), m[2] === undefined ? Number(m[1]) : m[3] === '' ? Infinity : Number(m[3])];
                p += m[0].length - 1;
            }
            if (q) {
                if (a.t === 'start' || a.t === 'end') fail();
                p++;
                const lazy = source[p] === '?'; // the same language
                if (lazy) p++;
                a = { t: 'rep', n: a, min: q[0], max: q[1], lazy };
            }
            l.push(a);
        }
        return { t: 'seq', l };
    }
    function atom() {
        const c = source[p++];
        switch (c) {
            case '^':
                return { t: 'start' };
            case '$':
                return { t: 'end' };
            case '.':
                return set([[10, 10], [13, 13], [0x2028, 0x2029]], true);
            case '(': {
                let idx = 0;
                if (source.startsWith('?:', p)) p += 2;
                else if (source[p] === '?') {
                    const m = /^\?<([A-Za-z_$][\w$]*)>/.exec(source.slice(p));
                    if (!m) fail();
                    p += m[0].length;
                    idx = ++groups;
                } else idx = ++groups;
                const n = alt();
                if (source[p++] !== ')') fail();
                return idx ? { t: 'group', n, idx } : n.t === 'alt' ? { t: 'alt', l: n.l } : n;
            }
            case '[':
                return cls();
            case '\\': {
                const e = esc(source[p++]);
                return e.set ? set(e.set, e.neg) : set([[e.c, e.c]]);
            }
            case '*':
            case '+':
            case '?':
            case '{':
            case ')':
                return fail();
            default:
                return set([[c.charCodeAt(0), c.charCodeAt(0)]]);
        }
    }
    function esc(c) {
        const D = [[48, 57]];
        const W = [[48, 57], [65, 90], [95, 95], [97, 122]];
        const SP = [[9, 13], [32, 32], [0xa0, 0xa0], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]];
        switch (c) {
            case 'd':
                return { set: D };
            case 'D':
                return { set: D, neg: true };
            case 'w':
                return { set: W };
            case 'W':
                return { set: W, neg: true };
            case 's':
                return icase ? fail() : { set: SP };
            case 'S':
                return icase ? fail() : { set: SP, neg: true };
            case 'n':
                return { c: 10 };
            case 'r':
                return { c: 13 };
            case 't':
                return { c: 9 };
            case 'f':
                return { c: 12 };
            case 'v':
                return { c: 11 };
            case 'u': {
                const m = /^[0-9a-fA-F]{4}/.exec(source.slice(p));
                if (!m) fail();
                p += 4;
                return { c: parseInt(m[0], 16) };
            }
            case 'x': {
                const m = /^[0-9a-fA-F]{2}/.exec(source.slice(p));
                if (!m) fail();
                p += 2;
                return { c: parseInt(m[0], 16) };
            }
            default:
                if (c === undefined || /[A-Za-z0-9]/.test(c)) fail();
                return { c: c.charCodeAt(0) };
        }
    }
    function cls() {
        let neg = false;
        if (source[p] === '^') {
            neg = true;
            p++;
        }
        const rs = [];
        const one = () => {
            const c = source[p++];
            if (c === undefined) fail();
            if (c !== '\\') return { c: c.charCodeAt(0) };
            if (source[p] === 'b') {
                p++;
                return { c: 8 };
            }
            return esc(source[p++]);
        };
        while (source[p] !== ']') {
            if (p >= source.length) fail();
            const a = one();
            if (a.set) {
                rs.push(...normal(a.set, a.neg));
                continue;
            }
            if (source[p] === '-' && source[p + 1] !== ']') {
                p++;
                const b = one();
                if (b.set || b.c < a.c) fail();
                rs.push([a.c, b.c]);
            } else rs.push([a.c, a.c]);
        }
        p++;
        return set(rs, neg);
    }
    try {
        const n = alt();
        if (p !== source.length) return null;
        return { n, groups };
    } catch (e) {
        if (e instanceof SyntaxError) return null;
        throw e;
    }
}
const MAX = 0xffff;
function normal(rs, neg) {
    const s = [...rs].sort((a, b) => a[0] - b[0]);
    const out = [];
    for (const [a, b] of s) {
        const l = out[out.length - 1];
        if (l && a <= l[1] + 1) l[1] = Math.max(l[1], b);
        else out.push([a, b]);
    }
    if (!neg) return out;
    const c = [];
    let lo = 0;
    for (const [a, b] of out) {
        if (a > lo) c.push([lo, a - 1]);
        lo = b + 1;
    }
    if (lo <= MAX) c.push([lo, MAX]);
    return c;
}
const lit = (c) => (c >= 32 && c <= 126 && c !== 34 && c !== 92 ? `"${String.fromCharCode(c)}"` : c === 34 ? '""""' : `"\\u{${c.toString(16)}}"`);
const EPS = '(str.to_re "")';
const cat = (l) => (l.length === 0 ? EPS : l.length === 1 ? l[0] : `(re.++ ${l.join(' ')})`);

/** the language of a node without anchors; null when an anchor stands where it is not supported */
export function lang(n) {
    switch (n.t) {
        case 'set': {
            if (!n.r.length) return 're.none';
            const l = n.r.map(([a, b]) => (a === b ? `(str.to_re ${lit(a)})` : `(re.range ${lit(a)} ${lit(b)})`));
            return l.length === 1 ? l[0] : `(re.union ${l.join(' ')})`;
        }
        case 'seq': {
            const l = n.l.map(lang);
            return l.includes(null) ? null : cat(l);
        }
        case 'alt': {
            const l = n.l.map(lang);
            return l.includes(null) ? null : `(re.union ${l.join(' ')})`;
        }
        case 'group':
            return lang(n.n);
        case 'rep': {
            const x = lang(n.n);
            if (x === null) return null;
            if (n.max === Infinity) return n.min === 0 ? `(re.* ${x})` : n.min === 1 ? `(re.+ ${x})` : `(re.++ ((_ re.^ ${n.min}) ${x}) (re.* ${x}))`;
            if (n.min === 0 && n.max === 1) return `(re.opt ${x})`;
            return n.min === n.max ? `((_ re.^ ${n.min}) ${x})` : `((_ re.loop ${n.min} ${n.max}) ${x})`;
        }
    }
    return null;
}
/** the alternatives of a pattern with their anchors taken off: [{start, end, l}], or null */
export function alternatives(n) {
    const out = [];
    for (const a of n.t === 'alt' ? n.l : [n]) {
        const l = a.t === 'seq' ? [...a.l] : [a];
        let start = false;
        let end = false;
        while (l.length && l[0].t === 'start') {
            start = true;
            l.shift();
        }
        while (l.length && l[l.length - 1].t === 'end') {
            end = true;
            l.pop();
        }
        out.push({ start, end, l });
    }
    return out;
}
/** the set of strings in which the pattern is found, or null */
export function found(re) {
    const l = [];
    for (const a of alternatives(re.n)) {
        const parts = a.l.map(lang);
        if (parts.includes(null)) return null;
        l.push(cat([...(a.start ? [] : ['re.all']), ...parts, ...(a.end ? [] : ['re.all'])]));
    }
    return l.length === 1 ? l[0] : `(re.union ${l.join(' ')})`;
}
export function hasGroup(n) {
    return n.t === 'group' || (n.l ? n.l.some(hasGroup) : n.n ? hasGroup(n.n) : false);
}
export function groupsOf(n, out = []) {
    if (n.t === 'group') out.push(n.idx);
    if (n.l) for (const x of n.l) groupsOf(x, out);
    if (n.n) groupsOf(n.n, out);
    return out;
}

/**
 * Matching against a string of known structure: a list of tokens, each a literal character {c} or a non-empty run of
 * unknown length {r: ranges, t: term} of characters from a class.  Follows the backtracking order of JavaScript.
 * Returns null (certainly no match), {from, to, groups: [[from, to] | undefined]} in token positions, or undefined when
 * the outcome depends on the unknown text.
 */
export class Undetermined extends Error {}
const meets = (a, b) => a.some(([x, y]) => b.some(([u, v]) => x <= v && u <= y));
const within = (a, b) => a.every(([x, y]) => b.some(([u, v]) => u <= x && y <= v));
export function matchTokens(re, tokens) {
    // a position is [token index, inside a run?]; taint: the consumed text is not known exactly
    const go = (n, pos, st, k) => {
        switch (n.t) {
            case 'start':
                return pos.i === 0 && !pos.inside ? k(pos, st) : null;
            case 'end':
                return pos.i === tokens.length ? k(pos, st) : null;
            case 'set': {
                for (const [p, taint] of one(n, pos)) {
                    const r = k(p, taint ? { ...st, taint: true } : st);
                    if (r) return r;
                }
                return null;
            }
            case 'seq': {
                const step = (j, p, s) => (j === n.l.length ? k(p, s) : go(n.l[j], p, s, (p2, s2) => step(j + 1, p2, s2)));
                return step(0, pos, st);
            }
            case 'alt':
                for (const a of n.l) {
                    const r = go(a, pos, st, k);
                    if (r) return r;
                }
                return null;
            case 'group':
                return go(n.n, pos, st, (p, s) => {
                    const g = [...s.g];
                    g[n.idx] = pos.inside || p.inside ? 'unknown' : [pos.i, p.i];
                    return k(p, { ...s, g });
                });
            case 'rep': {
                if (n.lazy) throw new Undetermined();
                const loop = (c, p, s) => {
                    if (c < n.max) {
                        const r = go(n.n, p, s, (p2, s2) => {
                            if (p2.i === p.i && p2.inside) throw new Undetermined();
                            return p2.i === p.i ? null : loop(c + 1, p2, s2);
                        });
                        if (r) return r;
                    }
                    return c >= n.min ? k(p, s) : null;
                };
                // a run consumed by a repeated class: all of it, or part of it
                if (n.n.t === 'set') {
                    const cls = n.n;
                    const eat = (c, p, s) => {
                        const tk = tokens[p.i];
                        if (c < n.max && tk) {
                            if (tk.c !== undefined) {
                                if (cls.r.some(([a, b]) => a <= tk.c && tk.c <= b)) {
                                    const r = eat(c + 1, { i: p.i + 1 }, s);
                                    if (r) return r;
                                }
                            } else if (meets(tk.r, cls.r)) {
                                const exact = within(tk.r, cls.r) && n.max === Infinity;
                                const known = exact && !p.inside;
                                const r = eat(Math.max(c + 1, n.min), { i: p.i + 1 }, known && n.min <= 1 ? s : { ...s, taint: true });
                                if (r) return r;
                                const r2 = k({ i: p.i, inside: true }, { ...s, taint: true });
                                if (r2) return r2;
                            }
                        }
                        return c >= n.min ? k(p, s) : null;
                    };
                    return eat(0, pos, st);
                }
                return loop(0, pos, st);
            }
        }
        throw new Undetermined();
    };
    const one = (n, p) => {
        const tk = tokens[p.i];
        if (!tk) return [];
        if (tk.c !== undefined) return n.r.some(([a, b]) => a <= tk.c && tk.c <= b) ? [[{ i: p.i + 1 }, false]] : [];
        if (!meets(tk.r, n.r)) return [];
        return [[{ i: p.i, inside: true }, true], [{ i: p.i + 1 }, true]];
    };
    const end = (from) => (p, s) => {
        if (s.taint || p.inside || from.inside) throw new Undetermined();
        return { from: from.i, to: p.i, groups: s.g };
    };
    for (let i = 0; i <= tokens.length; i++) {
        for (const from of tokens[i]?.r ? [{ i }, { i, inside: true }] : [{ i }]) {
            const r = go(re.n, from, { g: [], taint: false }, end(from));
            if (r) return r;
        }
    }
    return null;
}
