// Forms: what is registered per input, and what the form makes of it.
import { S, undef, I, lift, within, Unsupported } from './prelude.mjs';

const ST = 'packages/vlossom/src/stores/form-store.ts';
const CO = 'packages/vlossom/src/composables/input-form/input-form-composable.ts';
const VF = 'packages/vlossom/src/components/vs-form/VsForm.vue';

/** a register of flags with any content */
function register(E, name) {
    const o = E.obj();
    o.base = { k: 'basefn', get: (q) => S.ite(S.app(name + 'Has', [q], 'Bool'), lift(S.app(name, [q], 'Bool')), lift(undef)), has: (q) => S.app(name + 'Has', [q], 'Bool') };
    return o;
}
function store(E) {
    const s = E.construct(E.get(ST, 'FormStore'), []);
    fill(E, s);
    return s;
}
/** the register an operation writes to, found by using it */
const written = (E, s, op) => {
    E.call(E.getProp(s, op), [S.str('probe'), S.TRUE]);
    for (const x of s.f.values()) if (x.k === 'obj' && x.kind === 'ref' && x.f.get('value').f?.has('probe')) return x;
    throw new Unsupported('no register of flags found');
};
const fill = (E, s, tag = '') => {
    s.registers ??= ['updateValid', 'updateChanged'].map((op) => written(E, s, op));
    E.setProp(s.registers[0], 'value', register(E, 'valid' + tag));
    E.setProp(s.registers[1], 'value', register(E, 'changed' + tag));
};
/** registered flags of an id: {has, is} */
const entry = (E, s, which, id) => {
    const o = E.v(E.getProp(s, which + 'Obj'));
    return { has: E.hasProp(o, id), is: E.getProp(o, id) };
};
const was = (which, id) => ({ has: S.app(which + 'Has', [id], 'Bool'), is: S.app(which, [id], 'Bool') });
const kept = (E, label, s, id) => {
    for (const w of ['valid', 'changed']) {
        const e = entry(E, s, w, id);
        E.ensure(label, S.eq(e.has, was(w, id).has));
        if (E.decide(was(w, id).has)) E.ensure(label, E.same(e.is, was(w, id).is));
    }
};
const holds = (E, label, s, w, id, v) => {
    const e = entry(E, s, w, id);
    E.ensure(label, e.has);
    E.ensure(label, E.same(e.is, v));
};
const gone = (E, label, s, id) => {
    for (const w of ['valid', 'changed']) E.ensure(label, S.not(entry(E, s, w, id).has));
};

export const contracts = [
    {
        name: 'registering and removing',
        run(E) {
            const s = store(E);
            const [id, other, v] = [E.str('id'), E.str('other'), E.bool('flag')];
            E.assume(S.not(S.eq(id, other)));
            const op = E.choose('op', 3);
            E.call(E.getProp(s, ['updateValid', 'updateChanged', 'removeFromForm'][op]), op === 2 ? [id] : [id, v]);
            kept(E, 'other inputs are untouched', s, other);
            if (op === 2) gone(E, 'a removed input leaves no trace', s, id);
            else {
                const [mine, its] = op ? ['changed', 'valid'] : ['valid', 'changed'];
                holds(E, 'the flag of the input', s, mine, id, v);
                const e = entry(E, s, its, id);
                E.ensure('its other flag is untouched', S.eq(e.has, was(its, id).has));
                if (E.decide(was(its, id).has)) E.ensure('its other flag is untouched', E.same(e.is, was(its, id).is));
            }
        },
    },
    {
        name: 'an input in a form',
        run(E) {
            const s = store(E);
            E.injected.set(E.keyOf(E.get('packages/vlossom/src/declaration/index.ts', 'FORM_STORE_KEY')), s);
            const [id, valid, changed] = [E.ref(E.str('id')), E.ref(E.bool('isValid')), E.ref(E.bool('isChanged'))];
            const calls = { validate: 0, clear: 0 };
            const fn = (n) => E.native(n, () => (calls[n]++, S.TRUE));
            const api = E.call(E.get(CO, 'useInputForm'), [id, valid, changed, fn('validate'), fn('clear')]);
            const mine = E.v(id);
            const other = E.str('other');
            E.assume(S.not(S.eq(mine, other)));
            const consistent = (label) => {
                holds(E, label, s, 'valid', E.v(id), E.v(valid));
                holds(E, label, s, 'changed', E.v(id), E.v(changed));
            };
            const step = E.choose('step', 4);
            if (step === 0) {
                for (const h of E.hooks.mounted) E.call(h, []);
                consistent('a mounted input is registered with its flags');
            } else {
                // registered before with its current flags; everything else arbitrary
                for (const [w, v] of [['valid', valid], ['changed', changed]]) {
                    E.assume(was(w, mine).has);
                    E.assume(S.eq(was(w, mine).is, E.v(v)));
                }
                E.settle();
                if (step === 1) {
                    E.setProp(valid, 'value', E.bool('nowValid'));
                    E.setProp(changed, 'value', E.bool('nowChanged'));
                    const renamed = E.choose('rename', 2);
                    if (renamed) {
                        const next = E.str('newId');
                        E.assume(S.not(S.eq(next, other)));
                        E.setProp(id, 'value', next);
                    }
                    E.flush();
                    consistent('the form knows the current flags');
                    if (renamed && E.decide(S.not(S.eq(E.v(id), mine)))) gone(E, 'the old id leaves no trace', s, mine);
                } else if (step === 2) {
                    for (const h of E.hooks.beforeUnmount) E.call(h, []);
                    for (const h of E.hooks.unmounted) E.call(h, []);
                    gone(E, 'an input that left leaves no trace', s, mine);
                } else {
                    const ask = E.choose('ask', 2);
                    E.call(E.getProp(s, ask ? 'toggleValidateFlag' : 'toggleClearFlag'), []);
                    E.flush();
                    E.ensure('asked once', S.bool(calls[ask ? 'validate' : 'clear'] === 1));
                    E.ensure('asked for nothing else', S.bool(calls[ask ? 'clear' : 'validate'] === 0));
                    consistent('asking changes no flag by itself');
                }
            }
            kept(E, 'other inputs are untouched', s, other);
            const off = E.bool('off');
            E.call(E.getProp(s, 'setDisabled'), [off]);
            E.ensure('a disabled form disables its inputs', E.same(E.v(E.getProp(api, 'formDisabled')), off));
            const ro = E.bool('ro');
            E.call(E.getProp(s, 'setReadonly'), [ro]);
            E.ensure('a read-only form makes its inputs read-only', E.same(E.v(E.getProp(api, 'formReadonly')), ro));
            E.ensure('disabled and read-only are separate', E.same(E.v(E.getProp(api, 'formDisabled')), off));
        },
    },
    {
        name: 'the form',
        run(E) {
            const t = E.mount(VF, { disabled: E.bool('disabled'), readonly: E.bool('readonly') });
            const s = [...E.provided.values()][0];
            E.ensure('starts disabled as told', E.same(E.v(E.getProp(s, 'disabled')), E.getProp(t.props, 'disabled')));
            E.ensure('starts read-only as told', E.same(E.v(E.getProp(s, 'readonly')), E.getProp(t.props, 'readonly')));
            fill(E, s);
            const q = E.bvar('Str', 'q');
            const bad = (x, tag) => S.and(S.app('valid' + tag + 'Has', [x], 'Bool'), S.not(S.app('valid' + tag, [x], 'Bool')));
            const allValid = (tag) => S.forall([q], S.not(bad(q, tag)), [[S.app('valid' + tag + 'Has', [q], 'Bool')]]);
            const someChanged = S.exists([q], S.and(S.app('changedHas', [q], 'Bool'), S.app('changed', [q], 'Bool')));
            E.ensure('valid exactly when every input is', S.eq(t.val('valid'), allValid('')));
            E.ensure('changed exactly when some input is', S.eq(t.val('changed'), someChanged));
            E.settle();
            const step = E.choose('step', 3);
            if (step === 0) {
                const flag = E.v(E.getProp(s, 'validateFlag'));
                // the inputs answer while the form waits: any flags afterwards
                let tag = '';
                E.awaitHook = () => {
                    E.ensure('every input is asked', S.not(E.same(flag, E.v(E.getProp(s, 'validateFlag')))));
                    tag += 'Then';
                    fill(E, s, tag);
                    return undef;
                };
                const p = t.call('validate');
                E.awaitHook = null;
                const r = E.awaitValue(p);
                E.ensure('the inputs are given time to answer', S.bool(tag !== ''));
                E.ensure('answers with the validity', S.eq(E.truthy(r), allValid(tag)));
                const errs = t.events.filter((e) => e.name === 'error');
                E.ensure('an error is reported exactly when invalid', S.eq(S.bool(errs.length === 1), S.not(allValid(tag))));
                E.ensure('at most once', S.bool(errs.length <= 1));
                if (errs.length) {
                    const ids = E.seqOf(errs[0].args[0]);
                    const k = E.fresh('k', 'Int');
                    if (E.decide(within(k, ids.len))) E.ensure('it names only invalid inputs', bad(ids.at(k), tag));
                    const x = E.str('x');
                    if (E.decide(bad(x, tag))) E.ensure('it names every invalid input', E.any(I(0), ids.len, (i) => S.eq(ids.at(i), x)));
                }
            } else if (step === 1) {
                const flag = E.v(E.getProp(s, 'clearFlag'));
                t.call('clear');
                E.ensure('every input is told to clear', S.not(E.same(flag, E.v(E.getProp(s, 'clearFlag')))));
            } else {
                E.setProp(t.props, 'disabled', E.bool('nowDisabled'));
                E.setProp(t.props, 'readonly', E.bool('nowReadonly'));
                E.flush();
                E.ensure('disabled as told', E.same(E.v(E.getProp(s, 'disabled')), E.bool('nowDisabled')));
                E.ensure('read-only as told', E.same(E.v(E.getProp(s, 'readonly')), E.bool('nowReadonly')));
            }
        },
    },
];
