// Options: labels, values and what happens to the selection when they change.
import { S, undef, nul, I, lift, seq, sameList, within } from './prelude.mjs';

const D = 'packages/vlossom/src/composables/';
const rget = (o, k) => S.app('rget', [lift(o), k], 'Val');

/** any label and value keys, possibly unset */
function keys(E) {
    const label = E.choose('label', 2) ? E.str('labelKey') : S.str('');
    const value = E.choose('value', 2) ? E.str('valueKey') : S.str('');
    for (const k of [label, value]) if (k.op !== 'str') E.assume(S.not(S.eq(k, S.str(''))));
    return { label, value };
}
/** the value an option stands for */
const valueOf = (E, o, key) => {
    const named = key.op === 'str' ? S.FALSE : E.rIsObject(o);
    return S.ite(S.and(named, S.not(S.is('undef', rget(o, key)))), rget(o, key), lift(o));
};

export const contracts = [
    {
        name: 'label and value of an option',
        run(E) {
            const k = keys(E);
            const api = E.call(E.get(D + 'option-label-value/option-label-value-composable.ts', 'useOptionLabelValue'), [E.ref(k.label), E.ref(k.value)]);
            const o = E.val('option');
            E.ensure('the value is the named field, or the option itself', E.same(E.call(E.getProp(api, 'getOptionValue'), [o]), valueOf(E, o, k.value)));
            const l = E.call(E.getProp(api, 'getOptionLabel'), [o]);
            if (k.label.op !== 'str' && E.decide(E.rIsObject(o))) {
                const named = rget(o, k.label);
                if (E.decide(S.is('vstr', named))) {
                    const s = S.sel('vs', named);
                    if (E.decide(S.not(S.eq(s, S.str(''))))) E.ensure('a text field is the label', E.same(l, s));
                }
            } else if (E.decide(S.is('vstr', o))) E.ensure('a text option is its own label', E.same(l, o));
            E.ensure('a label is text', S.is('vstr', lift(l)));
        },
    },
    {
        name: 'the presented options',
        run(E) {
            const k = keys(E);
            const n = E.nat('options');
            const arr = E.symArr('option', n);
            const src = E.seqOf(arr);
            E.stubs.set('call:' + D + 'option-label-value/option-label-value-composable.ts#useOptionLabelValue', () =>
                E.obj({
                    getOptionLabel: E.native('getOptionLabel', (a) => S.app('labelOf', [lift(a[0])], 'Str')),
                    getOptionValue: E.native('getOptionValue', (a) => S.app('valueOf', [lift(a[0])], 'Val')),
                }),
            );
            const how = E.choose('disabled', 2);
            const flag = E.bool('flag');
            const off = (o, i) => (how ? S.app('off', [lift(o), i], 'Bool') : flag);
            const given = [];
            const rule = how ? E.native('disabled', (a) => (given.push(a[2]), off(a[0], a[1]))) : flag;
            const api = E.call(E.get(D + 'option-list/option-list-composable.ts', 'useOptionList'), [E.ref(arr), E.ref(k.label), E.ref(k.value), E.ref(rule)]);
            const r = E.seqOf(E.v(E.getProp(api, 'computedOptions')));
            E.ensure('one entry per option', S.eq(r.len, n));
            if (given.length) E.ensure('the rule sees the whole list', S.bool(given.every((x) => E.seqOf(x).len === src.len)));
            const i = E.fresh('i', 'Int');
            if (!E.decide(within(i, n))) return;
            const f = (x) => E.getProp(r.at(i), x);
            E.ensure('its own option', E.same(f('item'), src.at(i)));
            E.ensure('its own label', E.same(f('label'), S.app('labelOf', [lift(src.at(i))], 'Str')));
            E.ensure('its own value', E.same(f('value'), S.app('valueOf', [lift(src.at(i))], 'Val')));
            E.ensure('its own position', E.same(f('index'), i));
            E.ensure('its own disabled state', E.same(f('disabled'), off(src.at(i), i)));
            const j = E.fresh('j', 'Int');
            if (E.decide(S.and(within(j, n), S.not(S.eq(i, j))))) E.ensure('told apart from every other option', S.not(E.eq(f('id'), E.getProp(r.at(j), 'id'))));
        },
    },
    ...['multiple', 'single'].map((mode) => ({
        name: `changed options (${mode})`,
        run(E) {
            const k = keys(E);
            const m = E.nat('options');
            const next = E.symArr('option', m);
            const src = E.seqOf(next);
            const options = E.ref(E.symArr('oldOption', E.nat('oldOptions')));
            const value = mode === 'multiple' ? E.symArr('chosen', E.nat('chosenLen')) : E.val('chosen');
            const input = E.ref(value);
            const was = mode === 'multiple' ? E.seqOf(value) : null;
            E.call(E.get(D + 'input-option/input-option-composable.ts', 'useInputOption'), [input, options, E.ref(k.label), E.ref(k.value), E.ref(S.bool(mode === 'multiple'))]);
            E.settle();
            const equal = E.decide(E.deepEqual(next, E.getProp(options, 'value')));
            E.setProp(options, 'value', next);
            E.flush();
            const now = E.getProp(input, 'value');
            const offered = (v) => E.any(I(0), m, (i) => E.deepEqual(valueOf(E, src.at(i), k.value), v));
            if (mode === 'multiple') {
                const list = E.seqOf(now);
                if (equal) sameList(E, 'equal options change nothing', list, was);
                else sameList(E, 'exactly the entries still offered, in order', list, E.filterSeq(was, (i) => offered(was.at(i))));
            } else if (equal) E.ensure('equal options change nothing', E.same(now, value));
            else E.ensure('kept if still offered, cleared otherwise', E.same(now, S.ite(offered(value), lift(value), S.NUL)));
        },
    })),
];
void undef;
void nul;
void seq;
