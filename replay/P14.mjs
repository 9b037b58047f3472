export const entry = `export { createModalPlugin } from '@/plugins/modal-plugin';
export { useModalContainerStore, useOverlayCallbackStore } from '@/stores';
export { ref, nextTick } from 'vue';`;
export const needsDom = true;
const NAMES = ['body', '#a', '#b'];
// only `false` keeps the modal open
const ANSWERS = { no: false, undefined: undefined, null: null, zero: 0, empty: '' };
const OPS = ['open', 'open', 'close', 'closeId', 'clear', 'closeMissing'];
export function gen(r) {
    return {
        start: r.list(r.bool(0.1) ? r.int(6, 24) : r.int(0, 5), () => ({ c: r.pick(NAMES), guard: r.pick(['none', 'none', 'yes', 'no', 'undefined', 'null', 'zero', 'empty', 'late']), id: r.bool() })),
        ops: r.list(r.int(1, 4), () => ({ op: r.pick(OPS), c: r.pick([...NAMES, undefined, '#missing']), k: r.int(0, r.bool(0.8) ? 4 : 24), guard: r.pick(['none', 'yes', 'no']), during: r.bool(0.5) ? { op: r.pick(['open', 'closeId', 'clear']), c: r.pick(NAMES), k: r.int(0, 4) } : null })),
    };
}
export function* shrink(t) {
    for (let i = 0; i < t.ops.length; i++) yield { ...t, ops: t.ops.filter((_, k) => k !== i) };
    for (let i = 0; i < t.start.length; i++) yield { ...t, start: t.start.filter((_, k) => k !== i) };
    for (let i = 0; i < t.ops.length; i++) if (t.ops[i].during) yield { ...t, ops: t.ops.map((x, k) => (k === i ? { ...x, during: null } : x)) };
}
const J = JSON.stringify;
export async function run(M, t) {
    document.body.innerHTML = '<div id="a"></div><div id="b"></div>';
    const [modals, overlays] = [M.useModalContainerStore(), M.useOverlayCallbackStore()];
    modals.clear();
    overlays.clear();
    const closedLog = [];
    const plugin = M.createModalPlugin();
    const model = new Map();
    const order = [];
    const guards = new Map();
    let during = null;
    const list = (c) => model.get(c) || [];
    const asked = [];
    function open(c, guard, own) {
        const opts = { container: c, size: 'sm' };
        if (own) opts.id = `own-${guards.size}`;
        let id = '';
        if (guard !== 'none')
            opts.beforeClose = async () => {
                asked.push(id);
                if (during) during();
                if (guard === 'late') for (let i = 0; i < 5; i++) await null;
                return guard in ANSWERS ? ANSWERS[guard] : true;
            };
        id = plugin.open('text', opts);
        if (!document.querySelector(c || 'body')) return id === '' ? null : `opening in the missing ${c} answered ${J(id)}`;
        if (own && id !== opts.id) return `asked for id ${opts.id}, got ${id}`;
        if (!id || guards.has(id)) return `no new id: ${J(id)}`;
        guards.set(id, guard);
        overlays.push(id, M.ref({ close: () => void closedLog.push(id) }));
        model.set(c || 'body', [...list(c || 'body'), id]);
        order.push(id);
        return null;
    }
    const drop = (c, id) => {
        model.set(c, list(c).filter((x) => x !== id));
        if (order.includes(id)) order.splice(order.indexOf(id), 1);
    };
    function compare(what) {
        for (const c of [...NAMES, '#missing']) {
            const now = modals.get(c).map((m) => m.id);
            if (J(now) !== J(list(c))) return `${what}: container ${c} has ${J(now)}, expected ${J(list(c))}`;
            if (modals.has(c) !== list(c).length > 0) return `${what}: container ${c} left behind`;
        }
        const now = overlays.overlays.value.map((o) => o[0]);
        if (J(now) !== J(order)) return `${what}: overlays ${J(now)}, expected ${J(order)}`;
        return null;
    }
    for (const m of t.start) {
        const bad = open(m.c, m.guard, m.id);
        if (bad) return bad;
    }
    for (const o of t.ops) {
        const c = o.c ?? 'body';
        const what = `${o.op} ${J(o)} with ${J([...model])} guards ${J([...guards])}`;
        closedLog.length = asked.length = 0;
        let bad = null;
        if (o.op === 'open') bad = open(o.c, o.guard, false);
        else if (o.op === 'clear') {
            const ids = list(c);
            plugin.clear(o.c);
            for (const id of ids) drop(c, id);
            if (J(closedLog) !== J(ids)) bad = `closed ${J(closedLog)} instead of ${J(ids)}`;
        } else {
            const byId = o.op !== 'close';
            const id = o.op === 'close' ? list(c).at(-1) : o.op === 'closeId' ? list(c)[o.k] : 'nobody';
            const veto = guards.get(id) === 'no';
            let other = null;
            during = () => {
                during = null;
                if (!o.during) return;
                const d = o.during;
                if (d.op === 'open') other = open(d.c, 'none', false);
                else if (d.op === 'clear') {
                    if (list(d.c).includes(id)) return;
                    plugin.clear(d.c);
                    for (const x of [...list(d.c)]) drop(d.c, x);
                } else {
                    const x = list(d.c)[d.k];
                    if (!x || x === id || guards.get(x) !== 'none') return;
                    plugin.closeWithId(d.c, x);
                    drop(d.c, x);
                }
            };
            const r = await (byId ? plugin.closeWithId(c, id ?? 'nobody') : plugin.close(o.c));
            for (let i = 0; i < 8; i++) await null;
            const want = !!id && id !== 'nobody' && !veto;
            if (r !== want) return `${what}: answered ${r}`;
            const asks = id && id !== 'nobody' && guards.get(id) !== 'none' ? [id] : [];
            if (J(asked) !== J(asks)) return `${what}: asked the guards of ${J(asked)}`;
            if (want) drop(c, id);
            if (want !== closedLog.includes(id)) return `${what}: ${want ? 'not closed' : 'closed'} as an overlay`;
            bad = other;
            during = null;
        }
        bad = bad || compare(what);
        if (bad) return bad.startsWith(o.op) ? bad : `${what}: ${bad}`;
    }
    modals.clear();
    return null;
}
