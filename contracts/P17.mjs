// Which colour scheme, styles and theme apply.
import { S, undef, nul, I, lift, lower, Unsupported } from './prelude.mjs';

const C = 'packages/vlossom/src/composables/color-scheme/color-scheme-composable.ts';
const SS = 'packages/vlossom/src/composables/style-set/style-set-composable.ts';
const OS = 'packages/vlossom/src/stores/options-store.ts';
const G = 'packages/vlossom/src/stores/global-stores.ts';
const VC = 'packages/vlossom/src/framework/vlossom-class.ts';

function options(E) {
    const s = E.construct(E.get(OS, 'OptionsStore'), []);
    E.stubs.set(`call:${G}#useOptionsStore`, () => s);
    const call = (f, ...x) => E.call(E.getProp(s, f), x);
    return { s, call, get: (f) => E.getProp(E.getProp(s, f), 'value') };
}
/** any dictionary of values */
function dict(E, name) {
    const o = E.obj();
    o.base = { k: 'basefn', get: (k) => S.ite(S.app(name + 'Has', [k], 'Bool'), S.app(name, [k], 'Val'), lift(undef)), has: (k) => S.app(name + 'Has', [k], 'Bool') };
    o.at = (k) => o.base.get(k);
    o.has = (k) => o.base.has(k);
    return o;
}
const value = (E, x) => E.getProp(x, 'value');
const absent = (E, x) => S.or(E.isNullish(x), E.same(x, S.str('')));

export const contracts = [
    {
        name: 'which colour scheme applies',
        run(E) {
            const o = options(E);
            const given = dict(E, 'schemes');
            const q = E.bvar('Str', 'q');
            E.assume(S.forall([q], S.or(S.is('undef', S.app('schemes', [q], 'Val')), S.is('vstr', S.app('schemes', [q], 'Val'))), [[S.app('schemes', [q], 'Val')]]));
            o.call('setColorScheme', given);
            const comp = E.str('component');
            const own = E.choose('own', 2) === 0 ? undef : E.str('own');
            const r = E.call(E.get(C, 'useColorScheme'), [comp, E.ref(own)]);
            const got = value(E, E.getProp(r, 'computedColorScheme'));
            const cls = value(E, E.getProp(r, 'colorSchemeClass'));
            let want = undef;
            if (own !== undef && E.decide(S.eq(own, S.str('none')))) want = undef;
            else
                for (const x of [own, given.at(comp), given.at(S.str('default'))])
                    if (!E.decide(absent(E, x))) {
                        want = x;
                        break;
                    }
            E.ensure('own, then the component default, then the global default', E.same(got, want));
            E.ensure('the class names the scheme', E.same(cls, want === undef ? S.str('vs-cs-default') : S.strCat(S.str('vs-cs-'), want.sort === 'Val' ? S.sel('vs', want) : want)));
        },
    },
    {
        name: 'a changed setting applies at once',
        run(E) {
            const o = options(E);
            const own = E.ref(E.str('own'));
            const comp = E.str('component');
            E.assume(S.not(S.or(S.eq(E.str('own'), S.str('')), S.eq(E.str('own'), S.str('none')), S.eq(E.str('later'), S.str('')), S.eq(E.str('later'), S.str('none')), S.eq(E.str('fallback'), S.str('')))));
            const r = E.call(E.get(C, 'useColorScheme'), [comp, own]);
            const got = () => value(E, E.getProp(r, 'computedColorScheme'));
            E.ensure('its own scheme', E.same(got(), E.str('own')));
            E.setProp(own, 'value', E.str('later'));
            E.ensure('its new scheme', E.same(got(), E.str('later')));
            o.call('setColorScheme', E.obj({ default: E.str('fallback') }));
            E.ensure('still its own', E.same(got(), E.str('later')));
            E.setProp(own, 'value', undef);
            E.ensure('the default once its own is gone', E.same(got(), E.str('fallback')));
            o.call('setColorScheme', E.obj());
            E.ensure('nothing once that is gone', E.same(got(), undef));
        },
    },
    {
        name: 'which style applies to a key',
        run(E) {
            const o = options(E);
            const [base, own, extra] = ['base', 'own', 'extra'].map((n) => dict(E, n));
            const comp = E.str('component');
            const how = E.choose('style set', 3);
            const named = E.str('setName');
            E.assume(S.not(S.eq(named, S.str(''))));
            // plain values; nested parts have their own contract
            const q = E.bvar('Str', 'q');
            for (const n of ['base', 'own', 'extra']) E.assume(S.forall([q], S.not(S.is('vobj', S.app(n, [q], 'Val'))), [[S.app(n, [q], 'Val')]]));
            if (how === 1) {
                const per = E.obj();
                const sets = E.obj();
                per.base = { k: 'basefn', get: (k) => (E.decide(S.eq(k, comp)) ? own : E.obj()), has: () => S.TRUE };
                sets.base = { k: 'basefn', get: (k) => (E.decide(S.eq(k, named)) ? per : E.obj()), has: () => S.TRUE };
                o.call('setStyleSet', sets);
            }
            const set = how === 0 ? undef : how === 1 ? named : own;
            const r = E.call(E.get(SS, 'useStyleSet'), [comp, E.ref(set), E.ref(base), E.ref(extra)]);
            const all = value(E, E.getProp(r, 'componentStyleSet'));
            const inline = value(E, E.getProp(r, 'componentInlineStyle'));
            const vars = value(E, E.getProp(r, 'styleSetVariables'));
            const key = E.str('key');
            const put = (d) => S.and(d.has(key), S.not(E.isUndef(d.at(key))));
            let want = lift(undef);
            if (E.decide(put(extra))) want = extra.at(key);
            else if (how !== 0 && E.decide(own.has(key))) want = own.at(key);
            else if (E.decide(put(base))) want = base.at(key);
            const got = E.getProp(all, key);
            E.ensure('additional, then the style set, then the base style', E.same(got, want));
            const dollar = E.decide(E.call(E.getProp(key, 'startsWith'), [S.str('$')]));
            const shown = !dollar && !E.decide(E.isNullish(want));
            E.ensure('plain keys become inline styles', S.eq(E.hasProp(inline, key), S.bool(shown)));
            if (shown) E.ensure('inline styles have the value', E.same(E.getProp(inline, key), want));
            if (!dollar || E.decide(E.isNullish(want))) return;
            // a text starting with '$' is '$' followed by the rest of it
            const rest = (k) => E.call(E.getProp(k, 'slice'), [I(1)]);
            E.assume(S.forall([q], S.implies(E.call(E.getProp(q, 'startsWith'), [S.str('$')]), S.eq(q, S.strCat(S.str('$'), rest(q)))), [[rest(q)]]));
            // equal texts with equal beginnings have equal ends
            const [p, x, y] = ['p', 'x', 'y'].map((n) => E.bvar('Str', n));
            const cat = (a, b) => S.app('str_cat', [a, b], 'Str');
            E.assume(S.forall([p, x, y], S.implies(S.eq(cat(p, x), cat(p, y)), S.eq(x, y)), [[cat(p, x), cat(p, y)]]));
            const name = E.toStr(S.strCat(S.strCat(S.strCat(S.str('--'), E.strFun('kebabCase', comp)), S.str('-')), rest(key)));
            E.ensure('dollar keys become variables', E.hasProp(vars, name));
            E.ensure('variables have the value', E.same(E.getProp(vars, name), want));
        },
    },
    {
        name: 'nested parts are merged the same way',
        run(E) {
            options(E);
            const part = (n) => {
                const o = {};
                for (const k of ['a', 'b']) if (E.choose(`${n} has ${k}`, 2) === 0) o[k] = E.val(n + k);
                for (const x of Object.values(o)) E.assume(S.not(S.or(S.is('undef', x), S.is('vobj', x))));
                return o;
            };
            const have = ['base', 'own', 'extra'].map((n) => (E.choose(`${n} has the part`, 2) === 0 ? part(n) : null));
            const wrap = (p) => E.obj(p ? { $part: E.obj(p) } : {});
            const r = E.call(E.get(SS, 'useStyleSet'), [E.str('component'), E.ref(wrap(have[1])), E.ref(wrap(have[0])), E.ref(wrap(have[2]))]);
            const all = value(E, E.getProp(r, 'componentStyleSet'));
            const got = E.getProp(all, '$part');
            E.ensure('the part is there when any has it', S.eq(S.not(E.isNullish(got)), S.bool(have.some(Boolean))));
            if (!have.some(Boolean)) return;
            for (const k of ['a', 'b']) E.ensure(`key by key within the part`, E.same(E.getProp(got, k), have[2]?.[k] ?? have[1]?.[k] ?? have[0]?.[k] ?? undef));
            E.ensure('parts are not variables', S.bool([...value(E, E.getProp(r, 'styleSetVariables')).f.keys()].every((k) => k.startsWith('#'))));
        },
    },
    {
        name: 'the global settings are independent of each other',
        run(E) {
            const o = options(E);
            const now = () => ['colorScheme', 'styleSet', 'theme', 'radiusRatio'].map((f) => o.get(f));
            const [cs, ss] = [dict(E, 'cs'), dict(E, 'ss')];
            o.call('setColorScheme', cs);
            o.call('setStyleSet', ss);
            o.call('setTheme', E.str('theme'));
            const r = E.input('ratio', 'Real');
            o.call('setRadiusRatio', r);
            const clamp = (x) => S.ite(S.lt(x, S.real(0)), S.real(0), S.ite(S.gt(x, S.real(1)), S.real(1), x));
            const want = [cs, ss, E.str('theme'), clamp(r)];
            const all = (label, except) =>
                now().forEach((x, i) => {
                    if (i === except) return;
                    E.ensure(label, i < 2 ? S.bool(x === want[i]) : E.same(x, want[i]));
                });
            all('each setting is kept; the ratio stays between zero and one', -1);
            const which = E.choose('changed', 4);
            const r2 = E.input('ratio2', 'Real');
            const d2 = dict(E, 'later');
            o.call(['setColorScheme', 'setStyleSet', 'setTheme', 'setRadiusRatio'][which], [d2, d2, E.str('theme2'), r2][which]);
            want[which] = [d2, d2, E.str('theme2'), clamp(r2)][which];
            all('changing one leaves the others', -1);
        },
    },
    {
        name: 'the theme at the start, and switching it',
        run(E) {
            const o = options(E);
            let dark = null;
            const saved = E.choose('saved', 4);
            const stored = [];
            E.globals.set('document', E.obj({ addEventListener: E.native('addEventListener', () => undef), documentElement: E.obj({ classList: E.obj({ toggle: E.native('toggle', (a) => ((dark = E.same(a[0], S.str('vs-dark')) === S.TRUE ? a[1] : dark), undef)) }) }) }));
            E.globals.set('localStorage', E.obj({ getItem: E.native('getItem', () => [nul, S.str('dark'), S.str('light'), S.str('')][saved]), setItem: E.native('setItem', (a) => (stored.push(a), undef)) }));
            const prefers = E.bool('prefersDark');
            E.globals.set('window', E.obj({ matchMedia: E.native('matchMedia', () => E.obj({ matches: prefers })) }));
            const asked = E.choose('option', 3);
            const ratio = E.choose('ratio given', 2) === 0;
            const opts = { ...(asked ? { theme: S.str(['', 'light', 'dark'][asked]) } : {}), ...(ratio ? { radiusRatio: E.input('ratio', 'Real') } : {}), colorScheme: dict(E, 'cs') };
            const v = E.construct(E.get(VC, 'Vlossom'), [E.obj(opts)]);
            const isDark = saved === 1 ? S.TRUE : saved === 2 ? S.FALSE : S.or(prefers, S.bool(asked === 2));
            const theme = () => E.getProp(v, 'theme');
            const d = E.decide(isDark);
            E.ensure('the saved theme, else dark when preferred or configured', E.same(theme(), S.str(d ? 'dark' : 'light')));
            E.ensure('the page agrees', dark === null ? S.bool(!d) : S.eq(dark, S.bool(d)));
            E.ensure('given settings are taken over', S.bool(E.getProp(v, 'colorScheme') === opts.colorScheme));
            const rr = E.getProp(v, 'radiusRatio');
            E.ensure('the ratio stays between zero and one', S.and(S.ge(rr, S.real(0)), S.le(rr, S.real(1))));
            if (!ratio) E.ensure('the ratio is one by default', E.same(rr, I(1)));
            E.ensure('starting stores nothing', S.bool(stored.length === 0));
            E.call(E.getProp(v, 'toggleTheme'), []);
            E.ensure('switching flips the theme', E.same(theme(), S.str(d ? 'light' : 'dark')));
            E.ensure('switching flips the page', dark === null ? S.FALSE : S.eq(dark, S.bool(!d)));
            E.ensure('switching saves the theme', S.bool(stored.length === 1));
            if (stored[0]) E.ensure('switching saves the theme', E.same(stored[0][1], S.str(d ? 'light' : 'dark')));
            E.call(E.getProp(v, 'toggleTheme'), []);
            E.ensure('switching back', S.and(E.same(theme(), S.str(d ? 'dark' : 'light')), dark === null ? S.FALSE : S.eq(dark, S.bool(d))));
            const to = E.choose('set', 2);
            E.setProp(v, 'theme', S.str(['light', 'dark'][to]));
            E.ensure('setting it', S.and(E.same(theme(), S.str(['light', 'dark'][to])), dark === null ? S.FALSE : S.eq(dark, S.bool(to === 1))));
            E.setProp(v, 'radiusRatio', E.input('ratio2', 'Real'));
            const r2 = E.getProp(v, 'radiusRatio');
            E.ensure('the ratio stays between zero and one', S.and(S.ge(r2, S.real(0)), S.le(r2, S.real(1))));
            void o;
        },
    },
];
