// An input's value and what it tells the outside.
import { S, undef, nul, I, lift, lower, Unsupported } from './prelude.mjs';

const IN = 'packages/vlossom/src/composables/input/input-composable.ts';
const FS = 'packages/vlossom/src/stores/form-store.ts';
const D = 'packages/vlossom/src/declaration/index.ts';

/** an input with one rule and one message function, both arbitrary functions of the value */
function input(E, { value = E.val('value'), model = value, mounted = true, form = false, given = {} } = {}) {
    const events = [];
    const emit = E.native('emit', (a) => (events.push({ name: a[0].x, args: a.slice(1) }), undef));
    const iv = E.ref(value);
    const mv = E.ref(model);
    const bad = (v) => S.app('bad', [lift(v)], 'Bool');
    const rule = E.native('rule', (a) => lower(S.ite(bad(a[0]), lift(S.str('wrong')), lift(S.str('')))));
    const calls = [];
    const cb = (n) => E.native(n, (a) => (calls.push([n, ...a]), undef));
    let store = null;
    if (form) {
        store = E.construct(E.get(FS, 'FormStore'), []);
        E.injected.set(E.keyOf(E.get(D, 'FORM_STORE_KEY')), store);
    }
    const api = E.call(E.get(IN, 'useInput'), [
        E.obj({ emit }),
        E.obj({
            inputValue: iv,
            modelValue: mv,
            rules: E.ref(E.arr([rule])),
            callbacks: E.obj({ onChange: cb('onChange'), onBeforeMount: cb('onBeforeMount'), onMounted: cb('onMounted'), onBeforeUnmount: cb('onBeforeUnmount'), onUnmounted: cb('onUnmounted'), onClear: cb('onClear') }),
            ...given,
        }),
    ]);
    const hook = (n) => {
        for (const h of E.hooks[n] ?? []) E.call(h, []);
    };
    const val = (n) => E.v(E.getProp(api, n));
    if (mounted) {
        hook('beforeMount');
        hook('mounted');
        E.flush();
        E.runDeferred();
        E.flush();
    }
    const of = (n) => events.filter((e) => e.name === n);
    return { api, events, of, iv, mv, bad, calls, hook, val, store, now: () => E.v(iv), clear: () => (events.splice(0), calls.splice(0)) };
}
const value = (E, n) => E.val(n);
const same = (E, a, b) => E.deepEqual(a, b);
/** values that are not files or lists of files */
function plain(E, ...vs) {
    for (const v of vs) {
        const is = (p) => E.truthy(E.force(p));
        E.assume(S.not(E.instanceOf(v, E.force(E.globals.get('File')))));
        E.assume(S.not(S.and(S.is('vobj', v), S.app('isarr', [S.sel('vo', v)], 'Bool'))));
        void is;
    }
}

export const contracts = [
    {
        name: 'the value changes inside',
        run(E) {
            const a = value(E, 'value');
            const b = value(E, 'next');
            plain(E, a, b);
            const i = input(E, { value: a });
            i.clear();
            const differs = E.decide(S.not(same(E, a, b)));
            const ruled = i.bad(b);
            E.setProp(i.iv, 'value', b);
            E.flush();
            const n = differs ? 1 : 0;
            E.ensure('told outside exactly once', S.bool(i.of('update:modelValue').length === n));
            E.ensure('a change is reported exactly once', S.bool(i.of('change').length === n));
            E.ensure('the component hears of it exactly once', S.bool(i.calls.filter((c) => c[0] === 'onChange').length === n));
            if (differs) {
                E.ensure('with the new value', S.and(E.same(i.of('update:modelValue')[0].args[0], b), E.same(i.of('change')[0].args[0], b)));
                E.ensure('the new value is checked', S.eq(E.truthy(i.val('valid')), S.not(ruled)));
                E.ensure('it counts as changed', E.truthy(i.val('changed')));
                E.ensure('its rule messages are shown', E.truthy(i.val('showRuleMessages')));
            } else E.ensure('it does not count as changed', S.not(E.truthy(i.val('changed'))));
            E.ensure('the value is the new one', E.same(i.now(), b));
        },
    },
    {
        name: 'the value changes twice in a row',
        run(E) {
            const [a, b, c] = ['value', 'next', 'last'].map((n) => value(E, n));
            plain(E, a, b, c);
            const i = input(E, { value: a });
            i.clear();
            E.setProp(i.iv, 'value', b);
            const between = E.choose('pause', 2) === 1;
            if (between) E.flush();
            E.setProp(i.iv, 'value', c);
            E.flush();
            const seen = i.of('update:modelValue').map((e) => e.args[0]);
            const want = between ? [[a, b], [b, c]] : [[a, c]];
            const told = want.filter(([x, y]) => E.decide(S.not(same(E, x, y)))).map(([, y]) => y);
            E.ensure('every settled change is told once, in order', seen.length === told.length ? S.and(...told.map((x, k) => E.same(x, seen[k]))) : S.FALSE);
        },
    },
    {
        name: 'the value changes outside',
        run(E) {
            const [a, m, b] = ['value', 'model', 'next'].map((n) => value(E, n));
            plain(E, a, m, b);
            const i = input(E, { value: a, model: m });
            i.clear();
            E.setProp(i.mv, 'value', b);
            E.flush();
            E.ensure('it is taken over', same(E, i.now(), E.decide(E.same(m, b)) ? a : b));
            if (E.decide(S.and(S.not(E.same(m, b)), S.not(same(E, a, b))))) {
                E.ensure('with exactly one notice', S.bool(i.of('update:modelValue').length === 1));
                E.ensure('of that value', E.same(i.of('update:modelValue')[0].args[0], b));
                E.ensure('and it is checked', S.eq(E.truthy(i.val('valid')), S.not(i.bad(b))));
            } else E.ensure('an equal value causes nothing', S.bool(i.events.length === 0 && i.calls.length === 0));
        },
    },
    {
        name: 'both sides change at once',
        run(E) {
            const [a, b, m] = ['value', 'inside', 'outside'].map((n) => value(E, n));
            plain(E, a, b, m);
            const i = input(E, { value: a });
            E.assume(S.not(same(E, a, m)));
            i.clear();
            E.setProp(i.iv, 'value', b);
            E.setProp(i.mv, 'value', m);
            E.flush();
            E.ensure('the outside value is not lost', same(E, i.now(), m));
            const told = i.of('update:modelValue');
            E.ensure('the last value told is the one held', told.length ? same(E, told.at(-1).args[0], m) : S.FALSE);
        },
    },
    {
        name: 'files are told apart',
        run(E) {
            const file = (n) => {
                const f = E.obj({ name: E.str('name') });
                f.tags = ['File'];
                return f;
            };
            const [f, g, h] = ['f', 'g', 'h'].map(file);
            const many = E.choose('many', 2) === 1;
            const kind = E.choose('next', 3);
            const a = many ? E.arr([f, g]) : f;
            const b = many ? [E.arr([f, g]), E.arr([f, h]), E.arr([g, f])][kind] : [f, g, h][kind];
            const i = input(E, { value: a });
            i.clear();
            E.setProp(i.iv, 'value', b);
            E.flush();
            E.ensure('other files are a change, the same files are none', S.bool(i.of('update:modelValue').length === (kind === 0 ? 0 : 1)));
        },
    },
    {
        name: 'an added or removed file',
        run(E) {
            const file = () => {
                const f = E.obj({ name: E.str('name') });
                f.tags = ['File'];
                return f;
            };
            const [f, g] = [file(), file()];
            const lists = [[f], [f, g], [g], []];
            const [x, y] = [E.choose('before', 4), E.choose('after', 4)];
            const i = input(E, { value: E.arr(lists[x]) });
            i.clear();
            E.setProp(i.iv, 'value', E.arr(lists[y]));
            E.flush();
            E.ensure('a change exactly when the list differs', S.bool(i.of('update:modelValue').length === (x === y ? 0 : 1)));
        },
    },
    {
        name: 'the value is a list',
        run(E) {
            const a = E.symArr('x', E.nat('n'));
            const b = E.symArr('y', E.nat('m'));
            const file = (v) => E.instanceOf(v, E.force(E.globals.get('File')));
            const sa = E.seqOf(a);
            const sb = E.seqOf(b);
            // lists of anything but files
            for (const x of [sa, sb]) {
                const k = E.bvar('Int', 'k');
                E.assume(S.forall([k], S.implies(S.and(S.ge(k, I(0)), S.lt(k, x.len)), S.not(file(x.at(k)))), [[x.at(k)]]));
            }
            const i = input(E, { value: a });
            i.clear();
            E.setProp(i.iv, 'value', b);
            E.flush();
            const told = i.of('update:modelValue').length;
            E.ensure('told at most once', S.bool(told <= 1));
            const equal = S.and(S.eq(sa.len, sb.len), E.all(I(0), sa.len, (k) => E.deepEqual(sa.at(k), sb.at(k))));
            E.ensure('told exactly when an element or the length differs', S.eq(S.bool(told === 1), S.not(equal)));
        },
    },
    {
        name: 'before the input is ready',
        run(E) {
            const [a, b] = ['value', 'next'].map((n) => value(E, n));
            plain(E, a, b);
            E.assume(S.not(same(E, a, b)));
            const i = input(E, { value: a, mounted: false });
            const when = E.choose('when', 2);
            i.hook('beforeMount');
            if (when === 0) {
                E.setProp(i.iv, 'value', b);
                E.flush();
                i.hook('mounted');
            } else {
                i.hook('mounted');
                E.setProp(i.iv, 'value', b);
                E.flush();
            }
            E.ensure('the value is told', S.bool(i.of('update:modelValue').length === 1));
            E.ensure('but is no change by the user', S.and(S.bool(i.of('change').length === 0), S.not(E.truthy(i.val('changed')))));
            E.ensure('and nothing is shown as wrong', S.not(E.truthy(i.val('showRuleMessages'))));
            E.runDeferred();
            E.flush();
            E.ensure('the value is checked', S.eq(E.truthy(i.val('valid')), S.not(i.bad(b))));
        },
    },
    {
        name: 'lifecycle of the component',
        run(E) {
            const i = input(E, { mounted: false });
            const names = () => i.calls.map((c) => c[0]).join();
            i.hook('beforeMount');
            i.hook('mounted');
            E.ensure('it hears of being mounted', S.bool(names() === 'onBeforeMount,onMounted'));
            E.ensure('its value is checked when mounted', S.eq(E.truthy(i.val('valid')), S.not(i.bad(i.now()))));
            i.hook('beforeUnmount');
            i.hook('unmounted');
            E.ensure('it hears of being unmounted', S.bool(names() === 'onBeforeMount,onMounted,onBeforeUnmount,onUnmounted'));
        },
    },
    {
        name: 'flags and shown state',
        run(E) {
            const flags = ['disabled', 'readonly', 'formDisabled', 'formReadonly'].map((n) => E.bool(n));
            const state = E.ref(E.str('state'));
            const dis = E.ref(flags[0]);
            const ro = E.ref(flags[1]);
            const i = input(E, { form: true, given: { disabled: dis, readonly: ro, state } });
            const inForm = (d, r) => {
                E.call(E.getProp(i.store, 'setDisabled'), [d]);
                E.call(E.getProp(i.store, 'setReadonly'), [r]);
            };
            const see = (d, r, fd, fr) => {
                E.ensure('disabled exactly when it or its form is', S.eq(E.truthy(i.val('computedDisabled')), S.or(d, fd)));
                E.ensure('read-only exactly when it or its form is', S.eq(E.truthy(i.val('computedReadonly')), S.or(r, fr)));
            };
            see(flags[0], flags[1], S.FALSE, S.FALSE);
            inForm(flags[2], flags[3]);
            see(...flags);
            E.setProp(dis, 'value', S.not(flags[0]));
            see(S.not(flags[0]), flags[1], flags[2], flags[3]);
            const wrong = i.bad(i.now());
            E.ensure('not shown as wrong before it is asked', E.same(i.val('computedState'), E.str('state')));
            const ok = E.call(E.getProp(i.api, 'validate'), []);
            E.ensure('the answer is whether it is valid', S.eq(E.truthy(E.force(ok)), S.not(wrong)));
            E.ensure('shown as wrong exactly when it is', E.same(i.val('computedState'), E.decide(wrong) ? S.str('error') : E.str('state')));
            E.ensure('its messages are shown', E.truthy(i.val('showRuleMessages')));
        },
    },
    {
        name: 'asking again shakes only a wrong input',
        run(E) {
            const i = input(E);
            const before = E.truthy(i.val('shake'));
            E.call(E.getProp(i.api, 'validate'), []);
            const wrong = i.bad(i.now());
            E.ensure('shaken exactly when wrong', S.eq(E.truthy(i.val('shake')), S.ite(wrong, S.not(before), before)));
        },
    },
    {
        name: 'clearing',
        run(E) {
            const [a, b, c] = ['value', 'next', 'empty'].map((n) => value(E, n));
            plain(E, a, b, c);
            const iv = {};
            const onClear = E.native('onClear', () => (E.setProp(iv.ref, 'value', c), undef));
            const i = input(E, { value: a, given: { callbacks: E.obj({ onClear }) } });
            iv.ref = i.iv;
            E.setProp(i.iv, 'value', b);
            E.flush();
            i.clear();
            E.call(E.getProp(i.api, 'clear'), []);
            E.flush();
            E.runDeferred();
            E.flush();
            E.ensure('the value is the empty one', E.same(i.now(), c));
            E.ensure('told outside exactly once', S.bool(i.of('update:modelValue').length === (E.decide(same(E, b, c)) ? 0 : 1)));
            E.ensure('it counts as unchanged', S.not(E.truthy(i.val('changed'))));
            E.ensure('nothing is shown as wrong', S.not(E.truthy(i.val('showRuleMessages'))));
            E.ensure('the empty value is checked', S.eq(E.truthy(i.val('valid')), S.not(i.bad(c))));
        },
    },
    {
        name: 'validity and changes are told once',
        run(E) {
            const [a, b] = ['value', 'next'].map((n) => value(E, n));
            plain(E, a, b);
            E.assume(S.not(same(E, a, b)));
            const i = input(E, { value: a });
            i.clear();
            E.setProp(i.iv, 'value', b);
            E.flush();
            const flips = E.decide(S.not(S.eq(i.bad(a), i.bad(b))));
            const v = i.of('update:valid');
            E.ensure('validity is told exactly when it flips', flips ? S.and(S.bool(v.length === 1), S.eq(E.truthy(v[0]?.args[0] ?? undef), S.not(i.bad(b)))) : S.bool(v.length === 0));
            const c = i.of('update:changed');
            E.ensure('being changed is told once', S.and(S.bool(c.length === 1), E.truthy(c[0]?.args[0] ?? undef)));
        },
    },
    {
        name: 'the id of an input',
        run(E) {
            const id = E.ref(E.str('id'));
            const i = input(E, { given: { id } });
            const own = i.val('computedId');
            const given = E.decide(S.not(S.eq(E.str('id'), S.str(''))));
            if (given) E.ensure('the given id', E.same(own, E.str('id')));
            else E.ensure('never empty', S.not(S.eq(E.toStr(own), S.str(''))));
            E.ensure('stays the same', E.same(i.val('computedId'), own));
        },
    },
];
