import { mount } from './mount.mjs';
export const entry = `export { default as VsContainer } from '@/components/vs-container/VsContainer.vue';
export { default as VsHeader } from '@/components/vs-header/VsHeader.vue';
export { default as VsFooter } from '@/components/vs-footer/VsFooter.vue';
export { default as VsLayout } from '@/components/vs-layout/VsLayout.vue';
export { useLayoutChild } from '@/composables';
export { LayoutStore } from '@/stores';
export { h, createApp, reactive, nextTick, ref } from 'vue';`;
export const needsDom = true;
const SIDES = ['left', 'top', 'right', 'bottom'];
const PARTS = ['header', 'footer', ...SIDES];
export function gen(r) {
    const bar = () => ({ position: r.pick(['relative', 'absolute', 'fixed', 'sticky', 'static']), height: r.pick(['', '3rem', '10px']) });
    const drawer = (placement) => ({ isOpen: r.bool(), pushContainer: r.bool(), placement, size: r.pick(['', '20%', '100px']) });
    const look = r.bool(0.1);
    // replacing all drawers may store one under another side; the padding is only compared when each is on its own
    const mixed = !look && r.bool(0.3);
    return {
        ops: r.list(r.int(1, 8), () => {
            const part = r.pick([...PARTS, 'all']);
            return { store: r.int(0, 1), part, v: part === 'all' ? Object.fromEntries(SIDES.map((d) => [d, drawer(mixed ? r.pick(SIDES) : d)])) : SIDES.includes(part) ? drawer(part) : bar() };
        }),
        look,
        inside: r.bool(0.8),
        asked: r.bool(0.8),
        position: r.pick([undefined, 'fixed', 'relative']),
        height: r.pick([undefined, '', '7px']),
    };
}
export function* shrink(t) {
    for (let i = 0; i < t.ops.length; i++) yield { ...t, ops: t.ops.filter((_, k) => k !== i) };
}
const J = (x) => JSON.stringify(x, (k, v) => (v && typeof v === 'object' && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort()) : v));
export async function run(M, t) {
    const stores = [M.LayoutStore.getDefaultLayoutStore(), new M.LayoutStore()];
    const fresh = () => ({ header: { position: 'relative', height: '' }, footer: { position: 'relative', height: '' }, ...Object.fromEntries(SIDES.map((d) => [d, { isOpen: false, pushContainer: false, placement: d, size: '' }])) });
    const want = [fresh(), fresh()];
    const read = (s) => ({ header: s.header.value, footer: s.footer.value, ...s.drawers.value });
    for (const [i, o] of t.ops.entries()) {
        const s = stores[o.store];
        const v = JSON.parse(JSON.stringify(o.v));
        if (o.part === 'header') s.setHeader(v);
        else if (o.part === 'footer') s.setFooter(v);
        else if (o.part === 'all') s.setDrawers(v);
        else s.setDrawer(v);
        if (o.part === 'all') Object.assign(want[o.store], JSON.parse(J(o.v)));
        else want[o.store][o.part] = JSON.parse(J(o.v));
        for (const k of [0, 1]) if (J(read(stores[k])) !== J(want[k])) return `step ${i}: layout ${k} is ${J(read(stores[k]))}, expected ${J(want[k])}`;
    }
    if (J(read(M.LayoutStore.getDefaultLayoutStore())) !== J(fresh())) return 'a new layout is not empty';
    if (!t.look) return null;
    // seen through the components
    const provide = { 'vlossom:layout-store': stores[0] };
    let probe = null;
    const c = mount(M, { setup: () => ({}), render: () => null });
    c.unmount();
    const Child = { setup: () => ((probe = M.useLayoutChild(M.ref(true)).isLayoutChild.value), () => null) };
    const Outer = { setup: () => ((probe = null), () => M.h(Wrapped)) };
    const Wrapped = { setup: () => (M.useLayoutChild(M.ref(true)), () => M.h(Child)) };
    const deep = mount(M, { render: () => M.h(M.VsLayout, null, { default: () => M.h(Outer) }) });
    deep.unmount();
    if (probe !== false) return 'a part inside another part takes itself for a part of the layout';
    const direct = mount(M, { render: () => M.h(M.VsLayout, null, { default: () => M.h(Child) }) });
    direct.unmount();
    if (probe !== true) return 'a part inside a layout does not notice';
    for (const key of Object.keys(M)) void key;
    const w = want[0];
    const cover = (b) => (['absolute', 'fixed', 'sticky'].includes(b.position) && b.height ? b.height : '');
    const push = (d) => (d.isOpen && d.pushContainer && d.size ? d.size : '');
    const both = (a, b) => (a && b ? `calc(${a} + ${b})` : a || b || undefined);
    const on = t.inside && t.asked;
    const expected = on ? { paddingTop: both(cover(w.header), push(w.top)), paddingBottom: both(cover(w.footer), push(w.bottom)), paddingLeft: both('', push(w.left)), paddingRight: both('', push(w.right)) } : {};
    let styles;
    const spy = { ...M.VsContainer, setup: (p, x) => ((styles = M.VsContainer.setup(p, x)), styles) };
    const inLayout = (Comp, props) => {
        // the layout's own state is replaced by the one under test
        const Sub = { setup: () => {}, provide: () => provide, render: () => M.h(Comp, props) };
        return t.inside ? mount(M, { render: () => M.h(M.VsLayout, null, { default: () => M.h(Sub) }) }) : mount(M, Sub);
    };
    const m = inLayout(spy, { layout: t.asked });
    const got = styles.layoutStyles.value;
    m.unmount();
    if (J(got) !== J(JSON.parse(J(expected)))) return `content room ${J(got)} for ${J(w)} (inside ${t.inside}, asked ${t.asked}), expected ${J(expected)}`;
    const hd = inLayout(M.VsHeader, { layout: t.asked, position: t.position, height: t.height });
    await M.nextTick();
    hd.unmount();
    if (on) want[0].header = { position: t.position || 'relative', height: t.height || '3rem' };
    if (J(read(stores[0])) !== J(want[0])) return `a header left ${J(read(stores[0]))}, expected ${J(want[0])}`;
    const ft = inLayout(M.VsFooter, { layout: t.asked, position: t.position, height: t.height });
    await M.nextTick();
    ft.unmount();
    if (on) want[0].footer = { position: t.position || 'relative', height: t.height || '3rem' };
    if (J(read(stores[0])) !== J(want[0])) return `a footer left ${J(read(stores[0]))}, expected ${J(want[0])}`;
    return null;
}
