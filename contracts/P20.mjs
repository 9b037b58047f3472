// Sizes and texts as the components show them.
import { S, undef, nul, I, rec, lift, lower, Unsupported } from './prelude.mjs';

const SU = 'packages/vlossom/src/utils/string-util.ts';
const SM = 'packages/vlossom/src/composables/string-modifier/string-modifier-composable.ts';
const RS = 'packages/vlossom/src/components/vs-responsive/composables/responsive-composable.ts';
const NUMBER = /^[0-9]+(\.[0-9]+)?$/;
const px = (s) => S.strCat(s, S.str('px'));
const util = (E, f, ...a) => E.call(E.getProp(E.get(SU, 'stringUtil'), f), a);
const smt = { strings: 'smt' };

/** the text of a size, from the statement */
const sized = (E, s) => S.ite(E.inRe(s, NUMBER), px(s), s);
/** a size of any kind; returns [value, is it given, its text] */
function size(E, name) {
    switch (E.choose(name + ' kind', 5)) {
        case 0:
            return [undef, false];
        case 1:
            return [nul, false];
        case 2:
            return [S.str(''), false];
        case 3: {
            const s = E.str(name);
            E.assume(S.not(S.eq(s, S.str(''))));
            return [s, true, s];
        }
        default: {
            const n = E.nat(name + 'N');
            return [n, true, E.toStr(n)];
        }
    }
}
const BP = ['xs', 'sm', 'md', 'lg', 'xl'];
function breakpoints(E) {
    const focus = BP[E.choose('focus', 5)];
    const o = E.obj();
    const given = {};
    for (const b of BP) {
        if (b === focus) given[b] = size(E, b);
        else {
            const s = E.str(b);
            given[b] = E.decide(S.eq(s, S.str(''))) ? [undef, false] : [s, true, s];
        }
        if (!(b !== focus && !given[b][1])) o.f.set(b, given[b][0]);
    }
    return { o, given };
}
const value = (E, x) => E.getProp(x, 'value');
function responsive(E, width, grid) {
    const r = E.call(E.get(RS, 'useResponsive'), [E.ref(width), E.ref(grid)]);
    const styles = value(E, E.getProp(r, 'responsiveStyles'));
    const classes = E.seqOf(value(E, E.getProp(r, 'responsiveClasses')));
    return { style: (k) => E.getProp(styles, k), has: (k) => S.not(E.isUndef(E.getProp(styles, k))), classes, cls: (c) => E.any(I(0), classes.len, (i) => E.same(classes.at(i), S.str(c))) };
}

export const contracts = [
    {
        name: 'a size given as text',
        opts: smt,
        run(E) {
            const s = E.str('size');
            E.ensure('a plain number becomes pixels, other text stays', S.eq(E.toStr(util(E, 'toStringSize', s)), sized(E, s)));
        },
    },
    {
        name: 'a size given as a whole number',
        opts: smt,
        run(E) {
            const n = E.nat('size');
            E.ensure('that number of pixels', S.eq(E.toStr(util(E, 'toStringSize', n)), px(E.toStr(n))));
        },
    },
    {
        name: 'a size given as a fraction',
        opts: smt,
        run(E) {
            const x = E.input('size', 'Real');
            E.assume(S.ge0(x));
            // numbers from 1e-6 to 1e21 are printed without an exponent
            E.assume(E.inRe(E.toStr(x), NUMBER));
            E.ensure('that number of pixels', S.eq(E.toStr(util(E, 'toStringSize', x)), px(E.toStr(x))));
        },
    },
    {
        name: 'a value shown as text',
        run(E) {
            const text = (v) => E.toStr(util(E, 'convertToString', v));
            switch (E.choose('kind', 8)) {
                case 0:
                    E.ensure('text is kept', S.eq(text(E.str('t')), E.str('t')));
                    return;
                case 1:
                    E.ensure('a whole number is readable', S.eq(text(E.int('n')), E.toStr(E.int('n'))));
                    return;
                case 2:
                    E.ensure('a number is readable', S.eq(text(E.input('x', 'Real')), E.toStr(E.input('x', 'Real'))));
                    return;
                case 3:
                    E.ensure('a flag is readable', S.eq(text(E.bool('b')), S.ite(E.bool('b'), S.str('true'), S.str('false'))));
                    return;
                case 4:
                    E.ensure('nothing is readable', S.eq(text(undef), S.str('undefined')));
                    return;
                case 5:
                    E.ensure('null is readable', S.eq(text(nul), S.str('null')));
                    return;
                case 6: {
                    const o = E.val('o');
                    E.assume(S.is('vobj', o));
                    E.assume(S.not(S.app('isfn', [S.sel('vo', o)], 'Bool')));
                    E.ensure('a structure is shown as its structure', S.eq(text(o), json(E, o)));
                    return;
                }
                default: {
                    const a = E.arr([E.val('p'), E.val('q')]);
                    E.ensure('a list is shown as its structure', S.eq(text(a), json(E, a)));
                }
            }
        },
    },
    {
        name: 'a text modifier',
        opts: smt,
        run(E) {
            const s = E.str('text');
            const names = ['capitalize', 'lower', 'upper'];
            const k = E.choose('modifier', 4);
            const m = E.obj();
            // the others are absent or switched off
            names.forEach((n, i) => {
                if (i === k) m.f.set(n, S.TRUE);
                else if (E.choose(n, 2) === 1) m.f.set(n, S.FALSE);
            });
            const r = E.call(E.get(SM, 'useStringModifier'), [E.ref(m)]);
            const got = E.toStr(E.call(E.getProp(r, 'modifyStringValue'), [s]));
            const first = S.app('str_at', [s, I(0)], 'Str');
            const rest = S.app('str_substr', [s, I(1), S.strLen(s)], 'Str');
            E.assume(S.eq(E.strFun('str_upper', S.str('')), S.str('')));
            E.assume(S.implies(S.eq(s, S.str('')), S.eq(E.strFun('str_upper', first), S.str(''))));
            const want = [S.strCat(E.strFun('str_upper', first), rest), E.strFun('str_lower', s), E.strFun('str_upper', s), s][k];
            E.ensure(['only the first letter is raised', 'lower case', 'upper case', 'without a modifier nothing changes'][k], S.eq(got, want));
        },
    },
    {
        name: 'a modifier takes effect as soon as it is set',
        opts: smt,
        run(E) {
            const s = E.str('text');
            const m = E.ref(E.obj());
            const r = E.call(E.get(SM, 'useStringModifier'), [m]);
            const f = () => E.toStr(E.call(E.getProp(r, 'modifyStringValue'), [s]));
            E.ensure('unchanged before', S.eq(f(), s));
            E.setProp(m, 'value', E.obj({ upper: S.TRUE }));
            E.ensure('upper case after', S.eq(f(), E.strFun('str_upper', s)));
        },
    },
    {
        name: 'a file size',
        run(E) {
            concatenation(E);
            const b = E.nat('bytes');
            const units = ['Bytes', 'KB', 'MB', 'GB', 'TB'];
            const got = () => E.toStr(util(E, 'toFileSizeFormat', b));
            for (const u of units) E.assume(S.eq(S.app('str_cat', [S.str(' '), S.str(u)], 'Str'), S.str(' ' + u)));
            if (E.decide(S.eq(b, I(0)))) {
                E.ensure('an empty file', S.eq(got(), S.str('0 Bytes')));
                return;
            }
            const k = E.choose('unit', 5);
            E.assume(S.ge(b, I(1024 ** k)));
            if (k < 4) E.assume(S.lt(b, I(1024 ** (k + 1))));
            else E.assume(S.le(b, I(Number.MAX_SAFE_INTEGER)));
            // the logarithm is increasing and takes powers to multiples
            const ln = S.app('ln', [S.toReal(b)], 'Real');
            for (let j = 0; j <= 6; j++) E.assume(S.eq(S.ge(b, I(1024 ** j)), S.ge(ln, S.mul(S.real(j), S.real(Math.log(1024))))));
            const x = S.div(S.toReal(E.floorTerm(S.add(S.mul(S.div(S.toReal(b), S.real(1024 ** k)), S.real(100)), S.real(0.5)))), S.real(100));
            E.ensure('rounded to two decimals in the largest unit', S.eq(got(), S.strCat(E.toStr(x), S.app('str_cat', [S.str(' '), S.str(units[k])], 'Str'))));
        },
    },
    {
        name: 'a width that is not split',
        opts: smt,
        run(E) {
            const [v, given, text] = size(E, 'width');
            const r = responsive(E, v, undef);
            E.ensure('the width is set exactly when given', E.same(r.style('width'), given ? sized(E, text) : undef));
            for (const b of BP) E.ensure('no split width', S.not(r.has('--vs-width-' + b)));
            E.ensure('no classes', S.eq(r.classes.len, I(0)));
        },
    },
    {
        name: 'a width for each screen size',
        opts: smt,
        run(E) {
            const { o, given } = breakpoints(E);
            const r = responsive(E, o, undef);
            for (const b of BP) {
                const [, is, text] = given[b];
                E.ensure('each width is set exactly when given', E.same(r.style('--vs-width-' + b), is ? sized(E, text) : undef));
                if (b !== 'xs') E.ensure('its class is present exactly when given', S.eq(r.cls('vs-width-' + b), S.bool(is)));
                E.ensure('the grid is left alone', S.and(S.not(r.has('--vs-grid-' + b)), S.not(r.cls('vs-grid-' + b))));
            }
            E.ensure('no unsplit width', S.not(r.has('width')));
            E.ensure('no other class', S.eq(r.classes.len, I(BP.filter((b) => b !== 'xs' && given[b][1]).length)));
        },
    },
    {
        name: 'a grid that is not split',
        opts: smt,
        run(E) {
            const [v, given, text] = size(E, 'grid');
            const r = responsive(E, undef, v);
            E.ensure('the grid is set exactly when given', E.same(r.style('--vs-grid-xs'), given ? text : undef));
            for (const b of BP) E.ensure('nothing else is set', S.and(S.not(r.has('--vs-width-' + b)), b === 'xs' ? S.TRUE : S.not(r.has('--vs-grid-' + b))));
            E.ensure('no width', S.not(r.has('width')));
            E.ensure('no classes', S.eq(r.classes.len, I(0)));
        },
    },
    {
        name: 'a grid for each screen size',
        opts: smt,
        run(E) {
            const { o, given } = breakpoints(E);
            const r = responsive(E, undef, o);
            for (const b of BP) {
                const [, is, text] = given[b];
                E.ensure('each grid is set exactly when given', E.same(r.style('--vs-grid-' + b), is ? text : undef));
                if (b !== 'xs') E.ensure('its class is present exactly when given', S.eq(r.cls('vs-grid-' + b), S.bool(is)));
                E.ensure('the width is left alone', S.and(S.not(r.has('--vs-width-' + b)), S.not(r.cls('vs-width-' + b))));
            }
            E.ensure('no unsplit width', S.not(r.has('width')));
            E.ensure('no other class', S.eq(r.classes.len, I(BP.filter((b) => b !== 'xs' && given[b][1]).length)));
        },
    },
    {
        name: 'width and grid together',
        opts: smt,
        run(E) {
            const [w, wg, wt] = size(E, 'width');
            const [g, gg, gt] = size(E, 'grid');
            const r = responsive(E, w, g);
            E.ensure('the width is set exactly when given', E.same(r.style('width'), wg ? sized(E, wt) : undef));
            E.ensure('the grid is set exactly when given', E.same(r.style('--vs-grid-xs'), gg ? gt : undef));
        },
    },
];
/** concatenation is associative */
function concatenation(E) {
    const [a, b, c] = ['a', 'b', 'c'].map((n) => E.bvar('Str', n));
    const cat = (x, y) => S.app('str_cat', [x, y], 'Str');
    E.assume(S.forall([a, b, c], S.eq(cat(cat(a, b), c), cat(a, cat(b, c))), [[cat(cat(a, b), c)]]));
}
const json = (E, v) => E.toStr(E.call(E.getProp(E.globals.get('JSON'), 'stringify'), [v]));
