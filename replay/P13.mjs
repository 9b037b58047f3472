export const entry = `export { OverlayCallbackStore } from '@/stores/overlay-callback-store';
export { useOverlayCallback } from '@/composables';
export { useOverlayCallbackStore } from '@/stores';
export { OVERLAY_CLOSE, OVERLAY_OPEN } from '@/declaration';
export { ref, nextTick, effectScope } from 'vue';`;
export const needsDom = true;
// what a handler does to the stack besides being called
const ACTS = ['none', 'none', 'none', 'push', 'removeOther', 'popOther'];
export function gen(r) {
    return {
        ids: r.int(0, 3),
        stack: r.list(r.bool(0.1) ? r.int(6, 24) : r.int(0, 5), () => ({ close: r.pick(ACTS), close2: r.pick(ACTS), hasClose: r.bool(0.8), hasClose2: r.bool(0.5), key: r.bool() })),
        ops: r.list(r.int(1, 5), () => ({ op: r.pick(['pop', 'remove', 'remove', 'key', 'run', 'push', 'absent', 'clear', 'component']), k: r.int(0, r.bool() ? 5 : 24), key: r.pick(['Escape', 'Enter', 'KeyA']), flag: r.pick(['trusted', 'defaultPrevented', 'repeat', 'isComposing', 'ctrlKey', 'shiftKey']) })),
    };
}
export function* shrink(t) {
    for (let i = 0; i < t.ops.length; i++) yield { ...t, ops: t.ops.filter((_, k) => k !== i) };
    for (let i = 0; i < t.stack.length; i++) yield { ...t, stack: t.stack.filter((_, k) => k !== i) };
    for (let i = 0; i < t.stack.length; i++) for (const f of ['close', 'close2']) if (t.stack[i][f] !== 'none') yield { ...t, stack: t.stack.map((x, k) => (k === i ? { ...x, [f]: 'none' } : x)) };
}
const J = JSON.stringify;
export async function run(M, t) {
    const listeners = [];
    const add = document.addEventListener;
    document.addEventListener = (n, f) => listeners.push([n, f]);
    let s;
    try {
        s = new M.OverlayCallbackStore();
    } finally {
        document.addEventListener = add;
    }
    const log = [];
    let model = [];
    let fresh = 0;
    let quiet = false;
    const ids = () => s.overlays.value.map((o) => o[0]);
    const act = (what, self) => !quiet && nestedAct && nestedAct(what, self);
    function handlers(id, c) {
        const h = {};
        if (c.hasClose) h.close = (...a) => (log.push(`${id} close ${a}`), act(c.close, id));
        if (c.hasClose2) h[M.OVERLAY_CLOSE] = (...a) => (log.push(`${id} closing ${a}`), act(c.close2, id));
        if (c.key) h['key-Escape'] = h['key-Enter'] = (e) => (log.push(`${id} ${e.code}`), undefined);
        h.open = () => log.push(`${id} open`);
        h.ask = (a) => (log.push(`${id} ask ${a}`), id + a);
        return h;
    }
    function open(id, c) {
        model.push({ id, c });
        s.push(id, M.ref(handlers(id, c)));
    }
    // ids that begin, end or contain one another are still different
    const idOf = [(i) => 'o' + i, (i) => 'o'.repeat(t.stack.length - i), (i) => 'o'.repeat(i + 1), (i) => (i % 2 ? 'O' : 'o') + (i >> 1)][t.ids];
    t.stack.forEach((c, i) => open(idOf(i), c));
    for (const [i, o] of t.ops.entries()) {
        log.length = 0;
        const before = ids();
        if (J(before) !== J(model.map((m) => m.id))) return `step ${i}: open overlays are ${J(before)}, expected ${J(model.map((m) => m.id))}`;
        const x = model[o.k % (model.length || 1)];
        const top = model[model.length - 1];
        if ((o.op === 'pop' && top) || (o.op === 'remove' && x)) {
            const target = o.op === 'pop' ? top : x;
            const r = simulate(target);
            if (r) return `step ${i} (${o.op} ${target.id}): ${r}`;
        } else if (o.op === 'absent') {
            s.remove('nowhere', 1);
            if (log.length || J(ids()) !== J(before)) return `step ${i}: removing an unknown overlay ran ${J(log)} and left ${J(ids())}`;
        } else if (o.op === 'key') {
            listeners.filter((l) => l[0] === 'keydown').forEach((l) => l[1]({ code: o.key, key: o.key, [o.flag]: true }));
            const want = top && top.c.key && o.key !== 'KeyA' ? [`${top.id} ${o.key}`] : [];
            if (J(log) !== J(want) || J(ids()) !== J(before)) return `step ${i}: key ${o.key} on ${J(before)} ran ${J(log)}, expected ${J(want)}`;
        } else if (o.op === 'run' && x) {
            const r = await s.run(x.id, 'ask', 7);
            if (r !== x.id + 7 || J(log) !== J([`${x.id} ask 7`])) return `step ${i}: running a handler of ${x.id} gave ${r} and ran ${J(log)}`;
        } else if (o.op === 'push') {
            const id = 'p' + i;
            open(id, { key: true });
            if (J(log) !== J([`${id} open`]) || s.getLastOverlayId() !== id) return `step ${i}: opening ${id} ran ${J(log)}, top is ${s.getLastOverlayId()}`;
        } else if (o.op === 'clear') {
            quiet = true;
            const want = [...model].reverse().flatMap((m) => [...(m.c.hasClose2 ? [`${m.id} closing 5`] : []), ...(m.c.hasClose ? [`${m.id} close 5`] : [])]);
            s.clear(5);
            quiet = false;
            model = [];
            if (J(log) !== J(want) || ids().length) return `step ${i}: clearing ran ${J(log)}, expected ${J(want)}, left ${J(ids())}`;
        } else if (o.op === 'component') {
            const g = M.useOverlayCallbackStore();
            const scope = M.effectScope();
            const n0 = g.overlays.value.length;
            const api = scope.run(() => M.useOverlayCallback(M.ref(o.k ? 'c' + o.k : ''), M.ref({})));
            api.activate();
            await M.nextTick();
            const on = g.overlays.value.map((q) => q[0]);
            if (on.length !== n0 + 1 || on[n0] !== api.overlayId.value || !on[n0]) return `step ${i}: an activated overlay is registered as ${J(on)}`;
            api.deactivate();
            await M.nextTick();
            scope.stop();
            if (g.overlays.value.length !== n0) return `step ${i}: a deactivated overlay is still registered`;
        }
    }
    const end = ids();
    if (J(end) !== J(model.map((m) => m.id))) return `in the end the open overlays are ${J(end)}, expected ${J(model.map((m) => m.id))}`;
    return null;

    /** closes one overlay for real and checks the outcome */
    function simulate(target) {
        // expected effect of the handlers, in order, on the model; nested closes run no further nested changes
        const spec = () => {
            let st = model.map((m) => m);
            const runs = [];
            const extra = { n: fresh };
            const doClose = (m, depth, ...a) => {
                for (const [has, what, word] of [['hasClose2', 'close2', 'closing'], ['hasClose', 'close', 'close']]) {
                    if (!m.c[has] || !st.includes(m)) continue;
                    runs.push(`${m.id} ${word} ${a}`);
                    if (depth) continue;
                    if (m.c[what] === 'push') st.push({ id: 'extra' + extra.n++, c: {} });
                    else if (m.c[what] === 'removeOther') {
                        const x = st.filter((q) => q !== m)[0];
                        if (x) doClose(x, 1);
                    } else if (m.c[what] === 'popOther' && st[st.length - 1] !== m) doClose(st[st.length - 1], 1);
                }
                st = st.filter((q) => q !== m);
            };
            doClose(target, 0, 3);
            return { st, runs };
        };
        const want = spec();
        let depth = 0;
        const realAct = (what, self) => {
            if (self !== target.id || depth) return;
            depth++;
            if (what === 'push') {
                const id = 'extra' + fresh++;
                s.push(id, M.ref(handlers(id, {})));
            } else if (what === 'removeOther') {
                const x = ids().filter((q) => q !== self)[0];
                if (x) s.remove(x);
            } else if (what === 'popOther') {
                if (s.getLastOverlayId() !== self) s.pop();
            }
            depth--;
        };
        nestedAct = realAct;
        if (target === model[model.length - 1] && t.ops.length % 2) s.pop(3);
        else s.remove(target.id, 3);
        nestedAct = null;
        const runs = log.filter((l) => !l.endsWith(' open'));
        model = want.st;
        if (J(ids()) !== J(model.map((m) => m.id))) return `left ${J(ids())} open, expected ${J(model.map((m) => m.id))}`;
        if (J(runs) !== J(want.runs)) return `ran ${J(runs)}, expected ${J(want.runs)}`;
        return null;
    }
}
let nestedAct = null;
