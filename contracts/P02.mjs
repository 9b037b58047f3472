// Pagination: the window of page buttons and the moves.
import { S, undef, I } from './prelude.mjs';

const FILE = 'packages/vlossom/src/components/vs-pagination/VsPagination.vue';
const inRange = (x, n) => S.and(S.ge(x, I(0)), S.lt(x, n));

function setup(E) {
    const n = E.int('length');
    const w = E.int('showingLength');
    E.assume(S.and(S.ge(n, I(1)), S.ge(w, I(1))));
    const disabled = E.bool('disabled');
    const model = E.int('modelValue');
    const c = E.mount(FILE, { length: n, showingLength: w, disabled, modelValue: model }, { anyFlags: true });
    return { n, w, disabled, model, c, cur: () => c.val('selectedIndex') };
}
/** arbitrary current page, as any earlier operation leaves it */
function anyPage(E, c, n) {
    const p = E.int('page');
    E.assume(S.and(S.ge(p, I(-1)), S.lt(p, n)));
    c.set('selectedIndex', p);
    E.settle();
    return p;
}

export const contracts = [
    {
        name: 'page window',
        run(E) {
            const { n, w, c } = setup(E);
            const p = anyPage(E, c, n);
            const pages = E.seqOf(c.val('pages'));
            E.ensure('as many buttons as fit', S.eq(pages.len, S.min(n, w)));
            E.forEachIndex('b', I(0), pages.len, (b) => {
                E.ensure('consecutive', S.eq(pages.at(b), S.add(pages.at(I(0)), b)));
                E.ensure('existing page', S.and(S.ge(pages.at(b), I(1)), S.le(pages.at(b), n)));
            });
            const last = pages.at(S.sub(pages.len, I(1)));
            E.ensure('contains the current page', S.implies(S.ge(p, I(0)), S.and(S.le(pages.at(I(0)), S.add(p, I(1))), S.ge(last, S.add(p, I(1))))));
        },
    },
    {
        name: 'moves',
        run(E) {
            const { n, disabled, c, cur } = setup(E);
            const p = anyPage(E, c, n);
            const op = E.choose('op', 6);
            const k = E.int('target');
            let want;
            if (op === 0) c.call('goFirst'), (want = I(0));
            else if (op === 1) c.call('goLast'), (want = S.sub(n, I(1)));
            else if (op === 2) c.call('goPrev'), (want = S.sub(p, I(1)));
            else if (op === 3) c.call('goNext'), (want = S.add(p, I(1)));
            else c.call(op === 4 ? 'setPage' : 'selectIndex', k), (want = k);
            const r = cur();
            E.ensure('no page or an existing page is current', S.or(S.eq(r, I(-1)), inRange(r, n)));
            E.ensure('an existing target is reached when enabled', S.implies(S.and(S.not(disabled), inRange(want, n)), S.eq(r, want)));
            E.ensure('a disabled pagination never moves to another page', S.implies(disabled, S.or(S.eq(r, p), S.eq(r, I(-1)))));
            E.ensure('never a page other than the target', S.or(S.eq(r, want), S.eq(r, p), S.eq(r, I(-1))));
            const changed = E.decide(S.not(S.eq(r, p)));
            E.flush();
            const n0 = c.events.length;
            E.ensure('a page change is announced exactly once under both names', S.bool(changed ? n0 === 2 && c.events.some((e) => e.name === 'change') && c.events.some((e) => e.name === 'update:modelValue') : n0 === 0));
            for (const e of c.events) E.ensure('the announced page is the current page', S.eq(e.args[0], r));
        },
    },
    {
        name: 'bound page',
        run(E) {
            const { n, model, c, cur } = setup(E);
            E.ensure('starts on the bound page when it exists', S.eq(cur(), S.ite(inRange(model, n), model, I(-1))));
            anyPage(E, c, n);
            const m2 = E.int('newModel');
            E.assume(S.not(S.eq(m2, model)));
            E.setProp(c.props, 'modelValue', m2);
            E.flush();
            E.ensure('follows the bound page', S.eq(cur(), S.ite(inRange(m2, n), m2, I(-1))));
        },
    },
    {
        name: 'page count changes',
        run(E) {
            const { n, c, cur } = setup(E);
            const p = anyPage(E, c, n);
            const m = E.int('newLength');
            E.assume(S.and(S.ge(m, I(1)), S.not(S.eq(m, n))));
            E.setProp(c.props, 'length', m);
            E.flush();
            E.ensure('the current page still exists, or none is current', S.or(S.eq(cur(), I(-1)), inRange(cur(), m)));
            E.ensure('a page that still exists stays current', S.implies(inRange(p, m), S.eq(cur(), p)));
        },
    },
    {
        name: 'edges',
        run(E) {
            const { n, disabled, c } = setup(E);
            const p = anyPage(E, c, n);
            E.ensure('at the first page the backward buttons are off', S.implies(S.not(disabled), S.eq(c.val('isFirstEdge'), S.eq(p, I(0)))));
            E.ensure('at the last page the forward buttons are off', S.implies(S.not(disabled), S.eq(c.val('isLastEdge'), S.eq(p, S.sub(n, I(1))))));
        },
    },
];
