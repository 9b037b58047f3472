// The built-in required, minimum, maximum and length rules of the inputs.
import { S, undef, nul, I, lift, isTerm } from './prelude.mjs';

const C = 'packages/vlossom/src/components/';
const rejected = (E, r) => S.not(E.same(r, S.str('')));
/** any limit: a number, or a text holding one */
function limit(E, name) {
    const v = E.choose(name + 'Kind', 2) ? E.input(name, 'Real') : E.str(name);
    const n = E.call(E.globals.get('Number'), [v]);
    return { v, n };
}
const above = (E, x, l) => E.truthy(E.compare('>', x, l.n));
const below = (E, x, l) => E.truthy(E.compare('<', x, l.n));
function setup(E, file, fn, names, refs) {
    const api = E.call(E.get(C + file, fn), names.map((n) => E.ref(refs[n])));
    return (rule, v) => E.call(E.getProp(api, rule), [v]);
}
const rule = (E, label, r, bad) => {
    E.ensure(label + ': rejects exactly what violates it', S.eq(rejected(E, r), bad));
};

export const contracts = [
    ...['input', 'textarea'].map((which) => ({
        name: which,
        run(E) {
            const [required, max, min] = [E.bool('required'), limit(E, 'max'), limit(E, 'min')];
            const numeric = which === 'input' && E.choose('type', 2) === 1;
            const type = numeric ? S.str('number') : E.str('type');
            if (!numeric) E.assume(S.not(S.eq(type, S.str('number'))));
            const t =
                which === 'input'
                    ? setup(E, 'vs-input/vs-input-rules.ts', 'useVsInputRules', ['required', 'max', 'min', 'type'], { required, max: max.v, min: min.v, type })
                    : setup(E, 'vs-textarea/vs-textarea-rules.ts', 'useVsTextareaRules', ['required', 'max', 'min'], { required, max: max.v, min: min.v });
            const kind = E.choose('value', 3);
            if (kind === 2 && which === 'textarea') return E.ensure('a textarea holds text', S.TRUE);
            if (kind === 0) {
                if (numeric) return E.ensure('a number input holds a number', S.TRUE);
                const v = E.str('text');
                rule(E, 'required', t('requiredCheck', v), S.and(required, S.eq(v, S.str(''))));
                const len = E.getProp(v, 'length');
                rule(E, 'maximum length', t('maxCheck', v), above(E, len, max));
                rule(E, 'minimum length', t('minCheck', v), below(E, len, min));
            } else if (kind === 1) {
                if (!numeric) return E.ensure('a text input holds text', S.TRUE);
                const v = E.input('number', 'Real');
                rule(E, 'required', t('requiredCheck', v), S.FALSE);
                rule(E, 'maximum', t('maxCheck', v), above(E, v, max));
                rule(E, 'minimum', t('minCheck', v), below(E, v, min));
            } else {
                rule(E, 'required', t('requiredCheck', nul), required);
                rule(E, 'maximum of nothing', t('maxCheck', nul), S.FALSE);
                rule(E, 'minimum of nothing', t('minCheck', nul), S.FALSE);
            }
        },
    })),
    {
        name: 'select',
        run(E) {
            const [required, max, min] = [E.bool('required'), limit(E, 'max'), limit(E, 'min')];
            const multiple = E.choose('multiple', 2) === 1;
            const t = setup(E, 'vs-select/vs-select-rules.ts', 'useSelectRules', ['required', 'multiple', 'min', 'max'], { required, multiple: S.bool(multiple), max: max.v, min: min.v });
            if (multiple) {
                const n = E.nat('chosen');
                const v = E.symArr('value', n);
                rule(E, 'required', t('requiredCheck', v), S.and(required, S.eq(n, I(0))));
                rule(E, 'maximum', t('maxCheck', v), above(E, n, max));
                rule(E, 'minimum', t('minCheck', v), below(E, n, min));
                rule(E, 'required without a list', t('requiredCheck', nul), required);
            } else {
                const v = E.val('value');
                const empty = S.or(S.is('undef', v), S.is('nul', v), S.eq(v, lift(S.str(''))));
                rule(E, 'required', t('requiredCheck', v), S.and(required, empty));
                rule(E, 'no maximum', t('maxCheck', v), S.FALSE);
                rule(E, 'no minimum', t('minCheck', v), S.FALSE);
            }
        },
    },
    ...[
        ['checkbox set', 'vs-checkbox/vs-checkbox-set-rules.ts', 'useVsCheckboxSetRules'],
        ['file drop', 'vs-file-drop/vs-file-drop-rules.ts', 'useVsFileDropRules'],
    ].map(([name, file, fn]) => ({
        name,
        run(E) {
            const [required, max, min, multiple] = [E.bool('required'), limit(E, 'max'), limit(E, 'min'), E.bool('multiple')];
            const files = name === 'file drop';
            const t = setup(E, file, fn, files ? ['required', 'max', 'min', 'accept', 'multiple'] : ['required', 'max', 'min'], { required, max: max.v, min: min.v, accept: S.str(''), multiple });
            const n = E.nat('chosen');
            const v = E.symArr('value', n);
            rule(E, 'required', t('requiredCheck', v), S.and(required, S.eq(n, I(0))));
            rule(E, 'maximum', t('maxCheck', v), above(E, n, max));
            rule(E, 'minimum', t('minCheck', v), below(E, n, min));
            if (files) {
                rule(E, 'one file unless several are allowed', t('verifyMultipleFileUpload', v), S.and(S.not(multiple), S.gt(n, I(1))));
                rule(E, 'no accepted types given', t('acceptCheck', v), S.FALSE);
            } else {
                for (const x of [nul, undef]) {
                    rule(E, 'maximum of nothing', t('maxCheck', x), S.FALSE);
                    rule(E, 'minimum of nothing', t('minCheck', x), S.FALSE);
                }
            }
        },
    })),
    {
        name: 'date picker',
        run(E) {
            const required = E.bool('required');
            const [min, max] = ['min', 'max'].map((n) => (E.choose(n + 'Set', 2) ? E.str(n) : undef));
            const t = setup(E, 'vs-date-picker/vs-date-picker-rules.ts', 'useVsDatePickerRules', ['required', 'min', 'max'], { required, min, max });
            const v = E.str('date');
            const empty = S.eq(v, S.str(''));
            const unset = (l) => (l === undef ? S.TRUE : S.eq(l, S.str('')));
            rule(E, 'required', t('requiredCheck', v), S.and(required, empty));
            rule(E, 'earliest', t('minCheck', v), S.and(S.not(empty), S.not(unset(min)), min === undef ? S.FALSE : E.truthy(E.compare('<', v, min))));
            rule(E, 'latest', t('maxCheck', v), S.and(S.not(empty), S.not(unset(max)), max === undef ? S.FALSE : E.truthy(E.compare('>', v, max))));
        },
    },
];
