// Index selection shared by tabs, steps and pagination.
import { S, undef, I } from './prelude.mjs';

const FILE = 'packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts';

/** any list, any disabled setting, any current selection */
function setup(E, { inv = true } = {}) {
    const n = E.nat('length');
    const list = E.ref(E.symArr('item', n));
    const kind = E.choose('disabled', 4);
    const dflag = E.bool('disabledFlag');
    const pred = (i) => S.app('dis', [S.app('item', [i], 'Val'), S.ctor('vnum', i)], 'Bool');
    let disabled;
    let isDis;
    if (kind === 0) (disabled = undef), (isDis = () => S.FALSE);
    else if (kind === 1) (disabled = E.ref(undef)), (isDis = () => S.FALSE);
    else if (kind === 2) (disabled = E.ref(dflag)), (isDis = () => dflag);
    else (disabled = E.ref(E.predicate('dis'))), (isDis = pred);
    const api = E.call(E.get(FILE, 'useIndexSelector'), [list, disabled]);
    const sel = E.int('selected');
    if (inv) E.assume(S.and(S.ge(sel, I(-1)), S.lt(sel, n)));
    E.write(E.getProp(api, 'selectedIndex'), 'value', sel);
    const now = () => E.v(E.getProp(api, 'selectedIndex'));
    const f = (name, ...a) => E.call(E.getProp(api, name), a);
    return { n, list, isDis, api, sel, now, f };
}
const inRange = (x, n) => S.and(S.ge(x, I(0)), S.lt(x, n));
const ok = (x, n) => S.or(S.eq(x, I(-1)), inRange(x, n));

/** a mounted component, any list, any disabled setting, any current selection */
function mounted(E, file, listProp, simple = false) {
    const n = E.nat('length');
    const kind = simple ? 2 : E.choose('disabled', 2);
    const dflag = E.bool('disabledFlag');
    const disabled = kind ? dflag : E.predicate('dis');
    const isDis = kind ? () => dflag : (i) => S.app('dis', [S.app('item', [i], 'Val'), S.ctor('vnum', i)], 'Bool');
    const model = E.int('modelValue');
    const c = E.mount(file, { [listProp]: E.symArr('item', n), disabled, modelValue: model });
    const sel = E.int('selected');
    E.assume(ok(sel, n));
    c.set('selectedIndex', sel);
    E.settle();
    return { n, isDis, sel, c, model, now: () => c.val('selectedIndex') };
}

export const contracts = [
    {
        name: 'select an index',
        run(E) {
            const { n, isDis, sel, now, f } = setup(E);
            const i = E.int('index');
            f('selectIndex', i);
            const r = now();
            E.ensure('selection is empty or an existing item', ok(r, n));
            E.ensure('an enabled existing index becomes the selection', S.implies(S.and(inRange(i, n), S.not(isDis(i))), S.eq(r, i)));
            E.ensure('a disabled index changes nothing', S.implies(S.and(inRange(i, n), isDis(i)), S.eq(r, sel)));
            E.ensure('an index outside the list clears the selection', S.implies(S.not(inRange(i, n)), S.eq(r, I(-1))));
        },
    },
    {
        name: 'follow the bound index',
        run(E) {
            const { n, now, f } = setup(E, { inv: false });
            const i = E.int('index');
            f('syncIndex', i);
            E.ensure('follows an existing index, otherwise empty', S.eq(now(), S.ite(inRange(i, n), i, I(-1))));
        },
    },
    {
        name: 'nearest enabled index',
        run(E) {
            const { n, isDis, sel, now, f } = setup(E);
            const i = E.int('from');
            const fw = f('findActiveIndexForwardFrom', i);
            const bw = f('findActiveIndexBackwardFrom', i);
            E.ensure('the search does not move the selection', S.eq(now(), sel));
            for (const [r, name, between, side] of [
                [fw, 'forward', (j) => S.and(S.ge(j, i), S.lt(j, fw)), (j) => S.ge(j, i)],
                [bw, 'backward', (j) => S.and(S.le(j, i), S.gt(j, bw)), (j) => S.le(j, i)],
            ]) {
                E.ensure(`${name}: result is enabled and on the right side`, S.or(S.eq(r, I(-1)), S.and(inRange(r, n), S.not(isDis(r)), side(r))));
                const j = E.fresh('j', 'Int');
                E.ensure(`${name}: nothing enabled is skipped`, S.implies(S.and(inRange(i, n), inRange(j, n), S.not(S.eq(r, I(-1))), between(j)), isDis(j)));
                E.ensure(`${name}: none found means none enabled`, S.implies(S.and(inRange(i, n), inRange(j, n), S.eq(r, I(-1)), side(j)), isDis(j)));
                E.ensure(`${name}: nothing from outside the list`, S.implies(S.not(inRange(i, n)), S.eq(r, I(-1))));
            }
        },
    },
    {
        name: 'keyboard moves',
        run(E) {
            const { n, isDis, sel, now, f } = setup(E);
            const vertical = E.bool('vertical');
            const key = E.str('key');
            let prevented = 0;
            const ev = E.obj({ key, preventDefault: E.native('preventDefault', () => (prevented++, undef)) });
            f('handleKeydown', ev, vertical);
            const r = now();
            const is = (s) => S.eq(key, S.str(s));
            const prev = S.ite(vertical, is('ArrowUp'), is('ArrowLeft'));
            const next = S.ite(vertical, is('ArrowDown'), is('ArrowRight'));
            const home = is('Home');
            const end = is('End');
            E.ensure('selection is empty or an existing item', ok(r, n));
            E.ensure('a key move never lands on a disabled item', S.implies(S.and(inRange(r, n), isDis(r)), S.eq(r, sel)));
            E.ensure('other keys change nothing', S.implies(S.not(S.or(prev, next, home, end)), S.eq(r, sel)));
            const e = E.fresh('e', 'Int'); // any enabled index
            const en = S.and(inRange(e, n), S.not(isDis(e)));
            E.ensure('next: lands at or before every enabled item further on', S.implies(S.and(next, en, S.gt(e, sel)), S.and(S.gt(r, sel), S.le(r, e))));
            E.ensure('previous: lands at or after every enabled item before', S.implies(S.and(prev, en, S.lt(e, sel)), S.and(S.lt(r, sel), S.ge(r, e))));
            E.ensure('Home: lands at or before every enabled item', S.implies(S.and(home, en), S.and(S.ge(r, I(0)), S.le(r, e))));
            E.ensure('End: lands at or after every enabled item', S.implies(S.and(end, en), S.ge(r, e)));
            const j = E.bvar();
            const noneAfter = S.forall([j], S.implies(S.and(inRange(j, n), S.gt(j, sel)), isDis(j)));
            const noneBefore = S.forall([j], S.implies(S.and(inRange(j, n), S.lt(j, sel)), isDis(j)));
            const onEnabled = S.and(inRange(sel, n), S.not(isDis(sel)));
            E.ensure('next on the last enabled item changes nothing', S.implies(S.and(next, S.not(prev), onEnabled, noneAfter), S.eq(r, sel)));
            E.ensure('previous on the first enabled item changes nothing', S.implies(S.and(prev, onEnabled, noneBefore), S.eq(r, sel)));
        },
    },
    {
        name: 'list changes',
        run(E) {
            const { list, now, sel } = setup(E, { inv: false });
            const m = E.nat('newLength');
            const n = E.seqOf(E.v(list)).len;
            E.assume(S.not(S.eq(m, n)));
            E.setProp(list, 'value', E.symArr('item2', m));
            E.flush();
            E.ensure('after the list changed the selection is empty or an existing item', ok(now(), m));
            E.ensure('a selection that still exists is kept', S.implies(inRange(sel, m), S.eq(now(), sel)));
        },
    },
    {
        name: 'queries agree with the selection',
        run(E) {
            const { n, isDis, sel, f } = setup(E);
            const i = E.int('index');
            E.ensure('isSelected', S.eq(f('isSelected', i), S.eq(i, sel)));
            E.ensure('isPrevious', S.eq(f('isPrevious', i), S.lt(i, sel)));
            E.ensure('isDisabled', S.implies(inRange(i, n), S.eq(E.truthy(f('isDisabled', i)), isDis(i))));
        },
    },
    ...[
        ['tabs', 'packages/vlossom/src/components/vs-tabs/VsTabs.vue', 'tabs', 'selectTab'],
        ['steps', 'packages/vlossom/src/components/vs-steps/VsSteps.vue', 'steps', 'selectStep'],
    ].flatMap(([name, file, listProp, select]) => [
        {
            name: `${name}: moves`,
            run(E) {
                const { n, isDis, sel, c, now } = mounted(E, file, listProp);
                const op = E.choose('op', name === 'tabs' ? 4 : 2);
                const key = E.str('key');
                const vertical = E.bool('asVertical');
                const i = E.int('index');
                let next = S.FALSE;
                let prev = S.FALSE;
                let other = S.TRUE;
                if (op === 0) {
                    const ev = E.obj({ key, preventDefault: E.native('preventDefault', () => undef) });
                    c.call('handleKeydown', ev, vertical);
                    next = S.eq(key, S.ite(vertical, S.str('ArrowDown'), S.str('ArrowRight')));
                    prev = S.eq(key, S.ite(vertical, S.str('ArrowUp'), S.str('ArrowLeft')));
                    other = S.not(S.or(next, prev, S.eq(key, S.str('Home')), S.eq(key, S.str('End'))));
                    E.ensure('other keys change nothing', S.implies(other, S.eq(now(), sel)));
                } else if (op === 1) {
                    c.call(select, i);
                    E.ensure('an enabled existing item is picked', S.implies(S.and(inRange(i, n), S.not(isDis(i))), S.eq(now(), i)));
                } else if (op === 2) c.call('goNext'), (next = S.TRUE);
                else c.call('goPrev'), (prev = S.TRUE);
                const r = now();
                E.ensure('selection is empty or an existing item', ok(r, n));
                E.ensure('a move never lands on a disabled item', S.implies(S.and(inRange(r, n), isDis(r)), S.eq(r, sel)));
                const e = E.fresh('e', 'Int');
                const en = S.and(inRange(e, n), S.not(isDis(e)));
                E.ensure('next: lands at or before every enabled item further on', S.implies(S.and(next, en, S.gt(e, sel)), S.and(S.gt(r, sel), S.le(r, e))));
                E.ensure('previous: lands at or after every enabled item before', S.implies(S.and(prev, en, S.lt(e, sel)), S.and(S.lt(r, sel), S.ge(r, e))));
            },
        },
        {
            name: `${name}: bound index and list changes`,
            run(E) {
                const { n, sel, c, now, model } = mounted(E, file, listProp, true);
                const op = E.choose('change', 2);
                if (op === 0) {
                    const m = E.int('newModel');
                    E.assume(S.not(S.eq(m, model)));
                    E.setProp(c.props, 'modelValue', m);
                    E.flush();
                    E.ensure('follows an existing bound index, otherwise empty', S.eq(now(), S.ite(inRange(m, n), m, I(-1))));
                } else {
                    const m = E.nat('newLength');
                    E.assume(S.not(S.eq(m, n)));
                    E.setProp(c.props, listProp, E.symArr('item2', m));
                    E.flush();
                    E.ensure('selection is empty or an existing item', ok(now(), m));
                    E.ensure('a selection that still exists is kept', S.implies(inRange(sel, m), S.eq(now(), sel)));
                }
            },
        },
    ]),
];
