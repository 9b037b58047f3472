// Alert, confirm and prompt dialogs: what they answer.
import { S, undef, nul, litSeq, Unsupported } from './prelude.mjs';

const D = 'packages/vlossom/src/plugins/';
const G = 'packages/vlossom/src/stores/global-stores.ts';
const KINDS = {
    alert: ['createAlertPlugin', ['ok', 'enter', 'escape', 'dismissed']],
    confirm: ['createConfirmPlugin', ['ok', 'cancel', 'enter', 'escape', 'dismissed']],
    prompt: ['createPromptPlugin', ['ok', 'cancel', 'enter', 'escape', 'dismissed']],
};
const YES = ['ok', 'enter'];

/** every element of a rendered tree */
function* nodes(E, v) {
    v = E.force(v);
    if (v.k !== 'obj') return;
    if (v.kind === 'arr') {
        const s = E.seqOf(v);
        if (!s.lit) throw new Unsupported('a list of elements of unknown length');
        for (const x of s.lit) yield* nodes(E, x);
        return;
    }
    if (!v.f?.has('type') || !v.f.has('children')) return;
    yield v;
    yield* nodes(E, v.f.get('children'));
}
const isComponent = (E, n, name) => {
    const t = E.force(n.f.get('type'));
    return t.k === 'obj' && t.component?.endsWith(`/${name}.vue`);
};
const prop = (E, n, name) => {
    const p = E.force(n.f.get('props'));
    return p.k === 'obj' ? E.getProp(p, name) : undef;
};

function dialog(E, kind, given) {
    const [name] = KINDS[kind];
    const t = { opened: [], closed: [], astray: 0, order: [] };
    const own = E.str('own');
    E.assume(S.not(S.eq(own, S.str(''))));
    // whatever overlay was opened last; it may be this dialog or any other
    const top = E.str('top');
    const modal = E.obj({
        open: E.native('open', (a) => (t.opened.push(a), own)),
        closeWithId: E.native('closeWithId', (a) => (t.closed.push(a), E.resolved(S.TRUE))),
    });
    E.stubs.set(`call:${G}#useOverlayCallbackStore`, () =>
        E.obj({
            getLastOverlayId: E.native('getLastOverlayId', () => top),
            getLastOverlay: E.native('getLastOverlay', () => E.arr(litSeq([top, E.ref(E.obj())]))),
            run: E.native('run', (a) => {
                if (!E.decide(E.same(a[0], own))) return t.astray++, E.resolved(undef);
                const f = E.force(E.getProp(t.callbacks, a[1]));
                return f.k === 'undef' || f === undef ? E.resolved(undef) : E.resolved(E.call(f, a.slice(2)));
            }),
        }),
    );
    E.stubs.set('call:packages/vlossom/src/composables/style-set/style-set-composable.ts#useStyleSet', () =>
        E.obj({ componentStyleSet: E.ref(E.obj({ $buttons: E.obj(), $okButton: E.obj(), $cancelButton: E.obj(), $input: E.obj() })) }),
    );
    const api = E.call(E.get(`${D}${kind}-plugin/${kind}-plugin.ts`, name), [modal]);
    t.promise = E.call(E.getProp(api, 'open'), [E.str('content'), ...(given ? [E.obj(given)] : [])]);
    E.ensure('opens one modal', S.bool(t.opened.length === 1));
    if (!t.opened[0]) return null;
    t.content = E.force(t.opened[0][0]);
    t.options = t.opened[0][1];
    t.callbacks = E.getProp(t.options, 'callbacks');
    const tree = t.content.k === 'fn' || t.content.k === 'native' || typeof t.content.call === 'function' ? E.call(t.content, []) : t.content;
    t.nodes = [...nodes(E, tree)];
    t.buttons = t.nodes.filter((n) => isComponent(E, n, 'VsButton'));
    t.label = (b) => {
        const slot = E.call(E.getProp(b.f.get('children'), 'default'), []);
        return prop(E, [...nodes(E, slot)][0], 'content');
    };
    t.state = () => E.force(t.promise).f.get('#state').x;
    t.value = () => E.force(t.promise).f.get('#value') ?? undef;
    t.own = own;
    t.do = (g) => {
        const ev = E.obj({ preventDefault: E.native('preventDefault', () => undef) });
        const press = (n) => {
            const f = E.force(E.getProp(t.callbacks, n));
            if (f !== undef && f.k !== 'undef') E.call(f, [ev]);
        };
        if (g === 'enter') return press('key-Enter');
        if (g === 'escape') return press('key-Escape');
        if (g === 'dismissed') return press(E.get('packages/vlossom/src/declaration/constants.ts', 'OVERLAY_CLOSE').x);
        const label = t.labels[g];
        const hit = t.buttons.filter((b) => E.decide(E.same(t.label(b), label)));
        E.ensure(`one ${g} button`, S.bool(hit.length === 1));
        if (hit[0]) E.call(prop(E, hit[0], 'onClick'), [ev]);
    };
    return t;
}
const settings = (E, kind, withLabels) => {
    const o = { dimClose: E.bool('dimClose'), escClose: E.bool('escClose'), callbacks: E.obj({ custom: E.val('customHandler') }) };
    if (E.choose('container given', 2) === 0) {
        o.container = E.str('container');
        E.assume(S.not(S.eq(o.container, S.str(''))));
    }
    if (withLabels) {
        o.okText = E.str('okText');
        if (kind !== 'alert') {
            o.cancelText = E.str('cancelText');
            o.swapButtons = E.bool('swapButtons');
            E.assume(S.not(S.eq(o.okText, o.cancelText)));
        }
    }
    return o;
};

export const contracts = Object.entries(KINDS).flatMap(([kind, [, gestures]]) =>
    gestures.map((g) => ({
        name: `${kind}: ${g}`,
        run(E) {
            const withLabels = E.choose('labels given', 2) === 0;
            const bare = !withLabels && E.choose('no settings at all', 2) === 0;
            const given = bare ? null : settings(E, kind, withLabels);
            const initial = kind === 'prompt' && !bare && E.choose('initial value', 2) === 0;
            if (initial) given.input = E.obj({ initialValue: E.val('initial') });
            const t = dialog(E, kind, given);
            if (!t) return;
            t.labels = { ok: withLabels ? given.okText : S.str('OK'), cancel: withLabels ? given.cancelText : S.str('Cancel') };
            E.ensure('unanswered at first', S.bool(t.state() === 'pending'));
            if (given) {
                for (const f of ['dimClose', 'escClose', ...(given.container ? ['container'] : [])]) E.ensure('its settings reach the modal', E.same(E.getProp(t.options, f), given[f]));
                E.ensure('other handlers stay registered', E.same(E.getProp(t.callbacks, 'custom'), E.val('customHandler')));
            }
            let value = undef;
            let valid = S.TRUE;
            let cleared = 0;
            if (kind === 'prompt') {
                const input = t.nodes.filter((n) => isComponent(E, n, 'VsInput'));
                E.ensure('one input', S.bool(input.length === 1));
                if (!input[0]) return;
                value = initial ? E.val('initial') : nul;
                if (initial && E.decide(E.isNullish(value))) value = nul;
                E.ensure('shows the initial value', E.same(prop(E, input[0], 'modelValue'), value));
                valid = E.bool('valid');
                E.setProp(
                    prop(E, input[0], 'ref'),
                    'value',
                    E.obj({ validate: E.native('validate', () => valid), clear: E.native('clear', () => (cleared++, undef)) }),
                );
                if (E.choose('typed', 2) === 0) {
                    value = E.val('typed');
                    E.call(prop(E, input[0], 'onUpdate:modelValue'), [value]);
                }
            }
            t.do(g);
            E.ensure('no other overlay hears of it', S.bool(t.astray === 0));
            const shut = g !== 'dismissed';
            if (kind === 'prompt' && YES.includes(g) && E.decide(S.not(valid))) {
                E.ensure('an invalid prompt stays unanswered', S.bool(t.state() === 'pending'));
                return E.ensure('an invalid prompt stays open', S.bool(t.closed.length === 0));
            }
            const answer = kind === 'alert' ? undef : kind === 'confirm' ? S.bool(YES.includes(g)) : YES.includes(g) ? value : nul;
            E.ensure('answered', S.bool(t.state() === 'resolved'));
            E.ensure('the answer chosen', E.same(t.value(), answer));
            E.ensure('closes once', S.bool(t.closed.length === (shut ? 1 : 0)));
            if (t.closed[0]) {
                E.ensure('closes itself', E.same(t.closed[0][1], t.own));
                E.ensure('in its container', E.same(t.closed[0][0], given?.container ?? S.str('body')));
            }
            // closing it afterwards, or a second gesture, does not change the answer
            t.do(gestures[E.choose('afterwards', gestures.length)]);
            E.ensure('the answer stays', S.and(S.bool(t.state() === 'resolved'), E.same(t.value(), answer)));
        },
    })),
);
