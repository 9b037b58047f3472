// The parts of a page layout.
import { S, undef, nul, I, lift, lower, Unsupported } from './prelude.mjs';

const LS = 'packages/vlossom/src/stores/layout-store.ts';
const D = 'packages/vlossom/src/declaration/index.ts';
const LC = 'packages/vlossom/src/composables/layout-child/layout-child-composable.ts';
const comp = (n) => `packages/vlossom/src/components/vs-${n}/Vs${n[0].toUpperCase()}${n.slice(1)}.vue`;
const SIDES = ['left', 'top', 'right', 'bottom'];
const POS = ['relative', 'absolute', 'fixed', 'sticky', 'static'];

const bar = (E, n) => ({ position: E.str(n + 'Position'), height: E.str(n + 'Height') });
const drawer = (E, n, side) => ({ isOpen: E.bool(n + 'Open'), pushContainer: E.bool(n + 'Push'), placement: S.str(side), size: E.str(n + 'Size') });
/** a layout in an arbitrary state */
function layout(E, n = '', anyPlacement = false) {
    const s = E.construct(E.get(LS, 'LayoutStore'), []);
    const call = (f, x) => E.call(E.getProp(s, f), [x]);
    const st = { header: bar(E, n + 'h'), footer: bar(E, n + 'f') };
    for (const d of SIDES) st[d] = { ...drawer(E, n + d, d), ...(anyPlacement ? { placement: E.str(n + d + 'Placement') } : {}) };
    call('setHeader', E.obj(st.header));
    call('setFooter', E.obj(st.footer));
    call('setDrawers', E.obj(Object.fromEntries(SIDES.map((d) => [d, E.obj(st[d])]))));
    const now = (part) => {
        const v = SIDES.includes(part) ? E.getProp(E.getProp(E.getProp(s, 'drawers'), 'value'), part) : E.getProp(E.getProp(s, part), 'value');
        return (k) => E.getProp(v, k);
    };
    const is = (part, want) => S.and(...Object.keys(want).map((k) => E.same(now(part)(k), want[k])));
    return { s, call, st, is };
}
const PARTS = ['header', 'footer', ...SIDES];
function update(E, l, part) {
    const want = SIDES.includes(part) ? drawer(E, 'new', part) : bar(E, 'new');
    l.call(part === 'header' ? 'setHeader' : part === 'footer' ? 'setFooter' : 'setDrawer', E.obj(want));
    return want;
}
const inject = (E, s, inside) => {
    E.globals.set('document', E.obj({ addEventListener: E.native('addEventListener', () => undef) }));
    E.injected.set(E.keyOf(E.get(D, 'LAYOUT_STORE_KEY')), s);
    if (inside) E.injected.set(E.keyOf(E.get(D, 'LAYOUT_PROVIDED_KEY')), S.TRUE);
};
/** does a bar with this layout cover the page? */
const covers = (b) => S.and(S.or(...['absolute', 'fixed', 'sticky'].map((p) => S.eq(b.position, S.str(p)))), S.not(S.eq(b.height, S.str(''))));
const cat = (...l) => l.reduce((a, b) => S.strCat(a, b));

export const contracts = [
    {
        name: 'a new layout',
        run(E) {
            const s = E.call(E.getProp(E.get(LS, 'LayoutStore'), 'getDefaultLayoutStore'), []);
            const get = (f) => E.getProp(E.getProp(s, f), 'value');
            for (const f of ['header', 'footer']) E.ensure('the bars take no room', E.same(E.getProp(get(f), 'height'), S.str('')));
            for (const d of SIDES) {
                const x = E.getProp(get('drawers'), d);
                E.ensure('the drawers are closed', E.same(E.getProp(x, 'isOpen'), S.FALSE));
                E.ensure('the drawers are on their sides', E.same(E.getProp(x, 'placement'), S.str(d)));
            }
        },
    },
    {
        name: 'one part is updated',
        run(E) {
            const l = layout(E, '', true);
            const part = PARTS[E.choose('part', 6)];
            for (const p of PARTS) E.ensure('the state is the one set', l.is(p, l.st[p]));
            const want = update(E, l, part);
            E.ensure('the part has the values supplied', l.is(part, want));
            for (const p of PARTS) if (p !== part) E.ensure('every other part is as it was', l.is(p, l.st[p]));
        },
    },
    {
        name: 'two parts are updated',
        run(E) {
            const l = layout(E);
            const a = PARTS[E.choose('first', 6)];
            const b = PARTS[E.choose('second', 6)];
            const first = SIDES.includes(a) ? drawer(E, 'one', a) : bar(E, 'one');
            l.call(a === 'header' ? 'setHeader' : a === 'footer' ? 'setFooter' : 'setDrawer', E.obj(first));
            const want = update(E, l, b);
            E.ensure('the later update holds', l.is(b, want));
            if (a !== b) E.ensure('the earlier update of another part still holds', l.is(a, first));
            for (const p of PARTS) if (p !== a && p !== b) E.ensure('every other part is as it was', l.is(p, l.st[p]));
        },
    },
    {
        name: 'all drawers are replaced',
        run(E) {
            const l = layout(E);
            const n = Object.fromEntries(SIDES.map((d) => [d, drawer(E, 'new' + d, d)]));
            l.call('setDrawers', E.obj(Object.fromEntries(SIDES.map((d) => [d, E.obj(n[d])]))));
            for (const d of SIDES) E.ensure('each drawer has the values supplied', l.is(d, n[d]));
            for (const p of ['header', 'footer']) E.ensure('the bars are as they were', l.is(p, l.st[p]));
        },
    },
    {
        name: 'two layouts',
        run(E) {
            const get = (s, f) => E.getProp(E.getProp(s, f), 'value');
            const a = layout(E, 'a');
            const b = layout(E, 'b');
            const part = PARTS[E.choose('part', 6)];
            update(E, a, part);
            for (const p of PARTS) E.ensure('the other layout is as it was', b.is(p, b.st[p]));
            const fresh = E.call(E.getProp(E.get(LS, 'LayoutStore'), 'getDefaultLayoutStore'), []);
            E.ensure('a new layout is not affected', E.same(E.getProp(get(fresh, 'header'), 'height'), S.str('')));
            E.ensure('a new layout is its own', S.bool(fresh !== a.s && fresh !== b.s));
        },
    },
    {
        name: 'being part of a layout',
        run(E) {
            const asked = E.bool('asked');
            const inside = E.choose('inside', 2) === 1;
            if (inside) E.injected.set(E.keyOf(E.get(D, 'LAYOUT_PROVIDED_KEY')), S.TRUE);
            const own = E.ref(asked);
            const r = E.call(E.get(LC, 'useLayoutChild'), [own]);
            const is = () => E.truthy(E.force(E.getProp(E.getProp(r, 'isLayoutChild'), 'value')));
            E.ensure('exactly when asked for and inside a layout', S.eq(is(), S.and(asked, S.bool(inside))));
            E.setProp(own, 'value', S.not(asked));
            E.ensure('follows what is asked', S.eq(is(), S.and(S.not(asked), S.bool(inside))));
            const p = E.provided.get(E.keyOf(E.get(D, 'LAYOUT_PROVIDED_KEY')));
            E.ensure('what it contains is not part of the layout', S.bool(p !== undefined && p === S.FALSE));
        },
    },
    {
        name: 'a layout hands its state down',
        run(E) {
            E.mount(comp('layout'));
            const p = E.provided.get(E.keyOf(E.get(D, 'LAYOUT_STORE_KEY')));
            E.ensure('a layout of its own', S.bool(p !== undefined && p.k === 'obj'));
            E.ensure('its children know they are inside', S.bool(E.provided.get(E.keyOf(E.get(D, 'LAYOUT_PROVIDED_KEY'))) === S.TRUE));
            E.mount(comp('layout'));
            E.ensure('a second layout has another state', S.bool(E.provided.get(E.keyOf(E.get(D, 'LAYOUT_STORE_KEY'))) !== p));
        },
    },
    {
        name: 'the room left for the content',
        run(E) {
            const l = layout(E);
            const inside = E.choose('inside', 2) === 1;
            inject(E, l.s, inside);
            const c = E.mount(comp('container'), { layout: S.TRUE });
            const side = E.choose('side', 4);
            const st = c.val('layoutStyles');
            const got = E.getProp(st, ['paddingLeft', 'paddingTop', 'paddingRight', 'paddingBottom'][side]);
            if (!inside) {
                E.ensure('outside a layout nothing is reserved', E.isUndef(got));
                return;
            }
            const d = l.st[SIDES[side]];
            const pushes = S.and(d.isOpen, d.pushContainer, S.not(S.eq(d.size, S.str(''))));
            const b = side === 1 ? l.st.header : side === 3 ? l.st.footer : null;
            const under = b ? E.decide(covers(b)) : false;
            const pushed = E.decide(pushes);
            E.ensure(
                'exactly the covering bar and the open pushing drawer',
                E.same(got, under && pushed ? cat(S.str('calc('), b.height, S.str(' + '), d.size, S.str(')')) : under ? b.height : pushed ? d.size : undef),
            );
        },
    },
    ...['header', 'footer'].map((which) => ({
        name: `a ${which} reports itself`,
        run(E) {
            const l = layout(E);
            const inside = E.choose('inside', 2) === 1;
            inject(E, l.s, inside);
            const asked = E.bool('asked');
            const height = E.choose('height', 2) === 0 ? undefined : E.str('height');
            const position = [undefined, ...POS][E.choose('position', 6)];
            E.mount(comp(which), { layout: asked, ...(height ? { height } : {}), ...(position ? { position: S.str(position) } : {}) });
            E.flush();
            if (!inside || !E.decide(asked)) {
                E.ensure('outside a layout nothing is reported', l.is(which, l.st[which]));
            } else {
                const h = height && !E.decide(S.eq(height, S.str(''))) ? height : S.str('3rem');
                E.ensure('its position and height', l.is(which, { position: S.str(position ?? 'relative'), height: h }));
            }
            for (const p of PARTS) if (p !== which) E.ensure('every other part is as it was', l.is(p, l.st[p]));
        },
    })),
    {
        name: 'a drawer reports itself',
        run(E) {
            const l = layout(E);
            const inside = E.choose('inside', 2) === 1;
            inject(E, l.s, inside);
            const asked = E.bool('asked');
            const side = SIDES[E.choose('side', 4)];
            const push = E.bool('push');
            const sizes = { xs: '12%', sm: '20%', md: '40%', lg: '60%', xl: '80%' };
            const kind = E.choose('size', 7);
            const named = Object.keys(sizes)[kind];
            const text = E.str('size');
            const d = E.mount(comp('drawer'), { layout: asked, placement: S.str(side), pushContainer: push, ...(named ? { size: S.str(named) } : kind === 5 ? { size: text } : {}) });
            E.flush();
            const reported = inside && E.decide(asked);
            const see = (open, when) => {
                if (!reported) E.ensure('outside a layout nothing is reported', l.is(side, l.st[side]));
                else {
                    E.ensure(`its side, state and push ${when}`, l.is(side, { isOpen: S.bool(open), placement: S.str(side), pushContainer: push }));
                    if (named) E.ensure('a named size', l.is(side, { size: S.str(sizes[named]) }));
                    else if (kind === 6) E.ensure('the default size', l.is(side, { size: S.str(sizes.sm) }));
                    else {
                        // text sizes: as normalised elsewhere
                        const other = S.not(S.or(S.eq(text, S.str('')), ...Object.keys(sizes).map((k) => S.eq(text, S.str(k)))));
                        if (E.decide(other)) E.ensure('the given size', l.is(side, { size: E.call(E.getProp(E.get('packages/vlossom/src/utils/string-util.ts', 'stringUtil'), 'toStringSize'), [text]) }));
                    }
                }
                for (const p of PARTS) if (p !== side) E.ensure('every other part is as it was', l.is(p, l.st[p]));
            };
            see(false, 'while closed');
            d.call('openDrawer');
            E.flush();
            see(true, 'once open');
            d.call('closeDrawer');
            E.flush();
            see(false, 'closed again');
        },
    },
    {
        name: 'where a drawer sits between the bars',
        run(E) {
            const l = layout(E);
            inject(E, l.s, true);
            const side = SIDES[E.choose('side', 4)];
            const d = E.mount(comp('drawer'), { layout: S.TRUE, placement: S.str(side) });
            const st = d.val('layoutStyles');
            const top = E.decide(covers(l.st.header)) ? l.st.header.height : undef;
            const bottom = E.decide(covers(l.st.footer)) ? l.st.footer.height : undef;
            const want = { top: {}, bottom: {}, left: { paddingTop: top, paddingBottom: bottom }, right: { paddingTop: top, paddingBottom: bottom } };
            want.top.top = top;
            want.bottom.bottom = bottom;
            for (const k of ['top', 'bottom', 'paddingTop', 'paddingBottom']) E.ensure('it makes room for the covering bars', E.same(E.getProp(st, k), want[side][k] ?? undef));
        },
    },
];
