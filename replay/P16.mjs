export const entry = `export { ContainerStore } from '@/stores/container-store';
export { OverlayContainerStore } from '@/stores/overlay-container-store';
export { createToastPlugin } from '@/plugins/toast-plugin';
export { default as VsToastView } from '@/components/vs-toast/VsToastView.vue';
export { useToastContainerStore, useOverlayContainerStore } from '@/stores';
export { h, createApp, nextTick } from 'vue';`;
export const needsDom = true;
const NAMES = ['body', '#a', '#b', '#c'];
export function gen(r) {
    return {
        ops: r.list(r.int(1, 12), () => ({ op: r.pick(['push', 'push', 'push', 'remove', 'pop', 'delete', 'set', 'clear', 'show', 'info', 'success', 'warning', 'error', 'toastRemove', 'toastClear', 'view', 'closeOnScreen']), c: r.pick(NAMES), bare: r.bool(0.2), id: r.int(0, 4), opts: r.bool() ? { placement: r.pick(['top', 'middle', 'bottom']), align: r.pick(['start', 'center', 'end']), timeout: r.pick([0, 100]), autoClose: r.bool(), primary: r.bool(), colorScheme: r.pick(['red', 'blue']) } : {}, n: r.int(0, 3) })),
    };
}
export function* shrink(t) {
    for (let i = 0; i < t.ops.length; i++) yield { ops: t.ops.filter((_, k) => k !== i) };
}
const J = JSON.stringify;
const COLORS = { show: undefined, info: 'cyan', success: 'green', warning: 'yellow', error: 'red' };
export async function run(M, t) {
    document.body.innerHTML = '<div id="a"></div><div id="b"></div>';
    const s = new M.ContainerStore();
    const v = new M.OverlayContainerStore();
    const toasts = M.useToastContainerStore();
    toasts.clear();
    M.useOverlayContainerStore().clear();
    const plugin = M.createToastPlugin();
    const model = new Map();
    const shown = new Map();
    const views = new Map();
    const at = (m, c) => m.get(c) || [];
    const put = (m, c, l) => (l.length ? m.set(c, l) : m.delete(c));
    let n = 0;
    const muted = ['warn', 'error'].map((k) => [k, console[k]]);
    for (const [k] of muted) console[k] = () => {};
    try {
        for (const o of t.ops) {
            const c = o.c;
            const what = `${J(o)} after ${J([...model])} and toasts ${J([...shown])}`;
            const item = { id: 'x' + o.id, container: c, n: n++ };
            if (o.op === 'push') (s.push(c, item), put(model, c, [...at(model, c), item]));
            else if (o.op === 'remove') (s.remove(c, 'x' + o.id), put(model, c, at(model, c).filter((x) => x.id !== 'x' + o.id)));
            else if (o.op === 'pop') (s.pop(c), put(model, c, at(model, c).slice(0, -1)));
            else if (o.op === 'delete') (s.delete(c), model.delete(c));
            else if (o.op === 'clear') (s.clear(), model.clear());
            else if (o.op === 'set') {
                const l = Array.from({ length: o.n + 1 }, (_, i) => ({ id: 'x' + i, container: c, n: n++ }));
                s.set(c, l);
                model.set(c, l);
            } else if (o.op === 'view') {
                v.push('v' + o.id, c, 'Comp' + n);
                if (!views.has('v' + o.id)) views.set('v' + o.id, { container: c, component: 'Comp' + n });
                if (o.n === 0) (v.delete('v' + o.n), views.delete('v' + o.n));
                if (J([...v.overlayViewMap.value]) !== J([...views])) return `${what}: views ${J([...v.overlayViewMap.value])}`;
            } else if (o.op in COLORS) {
                const target = o.bare ? 'body' : c;
                const logged = [];
                const opts = { ...o.opts, ...(o.bare ? {} : { container: c }), ...(o.n === 1 ? { logger: (m) => logged.push(m) } : {}) };
                plugin[o.op]('text ' + n, ...(Object.keys(opts).length ? [opts] : []));
                if (document.querySelector(target)) {
                    const want = { content: 'text ' + n, container: target, placement: 'top', align: 'center', colorScheme: COLORS[o.op], ...o.opts };
                    const got = toasts.get(target).at(-1);
                    for (const k in want) if (!got || got[k] !== want[k]) return `${what}: the new toast has ${k} ${J(got?.[k])}, expected ${J(want[k])}`;
                    if (logged.length !== (o.n === 1 ? 1 : 0)) return `${what}: logged ${logged.length} times`;
                    if ([...shown.values()].flat().includes(got.id)) return `${what}: the id ${got.id} is taken`;
                    shown.set(target, [...at(shown, target), got.id]);
                }
            } else {
                const id = at(shown, c)[o.id];
                if (o.op === 'toastRemove') (plugin.remove(c, id ?? 'none'), put(shown, c, at(shown, c).filter((x) => x !== id)));
                else if (o.op === 'toastClear') (plugin.clear(...(o.bare ? [] : [c])), shown.delete(o.bare ? 'body' : c));
                else {
                    const el = document.createElement('div');
                    document.body.appendChild(el);
                    const app = M.createApp({ render: () => M.h(M.VsToastView, { container: c }) });
                    app.config.warnHandler = () => {};
                    app.mount(el);
                    const list = toasts.get(c);
                    const items = [...el.querySelectorAll('.vs-toast')];
                    if (items.length !== list.length) return `${what}: ${items.length} toasts on the screen, ${list.length} in the store`;
                    const x = list[o.id];
                    const node = x && items.find((k) => k.textContent.trim() === x.content);
                    if (x && !node) return `${what}: toast ${x.content} is not on the screen`;
                    node?.querySelector('button').click();
                    await M.nextTick();
                    app.unmount();
                    el.remove();
                    if (x) put(shown, c, at(shown, c).filter((k) => k !== x.id));
                }
            }
            for (const k of NAMES) {
                if (J(s.get(k)) !== J(at(model, k))) return `${what}: container ${k} holds ${J(s.get(k))}, expected ${J(at(model, k))}`;
                if (s.has(k) !== model.has(k)) return `${what}: container ${k} ${s.has(k) ? 'left behind' : 'lost'}`;
                const now = toasts.get(k).map((x) => x.id);
                if (J(now) !== J(at(shown, k))) return `${what}: container ${k} shows ${J(now)}, expected ${J(at(shown, k))}`;
                if (toasts.has(k) !== shown.has(k)) return `${what}: toast container ${k} ${toasts.has(k) ? 'left behind' : 'lost'}`;
            }
            if (s.size !== model.size) return `${what}: ${s.size} containers`;
        }
    } finally {
        for (const [k, f] of muted) console[k] = f;
    }
    return null;
}
