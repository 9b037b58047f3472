export const entry = `export { createModalPlugin } from '@/plugins/modal-plugin';
export { createAlertPlugin } from '@/plugins/alert-plugin';
export { createConfirmPlugin } from '@/plugins/confirm-plugin';
export { createPromptPlugin } from '@/plugins/prompt-plugin';
export { default as VsModalView } from '@/components/vs-modal/VsModalView.vue';
export { useModalContainerStore, useOverlayCallbackStore } from '@/stores';
export { h, createApp, nextTick } from 'vue';`;
export const needsDom = true;
const NAMES = ['body', '#a', '#b'];
export function gen(r) {
    return {
        dialogs: r.list(r.int(1, 3), () => ({ kind: r.pick(['alert', 'confirm', 'prompt']), c: r.pick([undefined, ...NAMES]), labels: r.bool(), swap: r.bool(0.3), dim: r.pick([undefined, true, false]), esc: r.pick([undefined, true, false]), initial: r.pick([undefined, undefined, 'start', '']), num: r.bool(0.3) ? { initial: r.pick([undefined, 0, 7]) } : null, min: r.pick([undefined, undefined, 4]), required: r.bool(0.4), bare: r.bool(0.1), own: r.bool(0.3) })),
        ops: r.list(r.int(1, 4), () => ({ op: r.pick(['ok', 'ok', 'cancel', 'Enter', 'Escape', 'dim', 'close', 'type', 'type']), k: r.int(0, 2), text: r.pick(['', 'abc', 'x y', 'long enough']), digits: r.pick(['', '0', '3', '12']) })),
    };
}
export function* shrink(t) {
    for (let i = 0; i < t.ops.length; i++) yield { ...t, ops: t.ops.filter((_, k) => k !== i) };
    for (let i = 0; i < t.dialogs.length; i++) yield { ...t, dialogs: t.dialogs.filter((_, k) => k !== i) };
}
const J = JSON.stringify;
const UNANSWERED = 'no answer';
export async function run(M, t) {
    document.body.innerHTML = '<div id="host0"></div><div id="a"></div><div id="b"></div><div id="host1"></div><div id="host2"></div>';
    const [modals, overlays] = [M.useModalContainerStore(), M.useOverlayCallbackStore()];
    modals.clear();
    overlays.clear();
    const modal = M.createModalPlugin();
    const plugins = { alert: M.createAlertPlugin(modal), confirm: M.createConfirmPlugin(modal), prompt: M.createPromptPlugin(modal) };
    const apps = NAMES.map((c, i) => {
        const app = M.createApp({ render: () => M.h(M.VsModalView, { container: c }) });
        app.config.warnHandler = () => {};
        app.mount(document.getElementById('host' + i));
        return app;
    });
    const rest = async () => {
        for (let i = 0; i < 4; i++) await M.nextTick();
    };
    const live = [];
    const end = (m) => {
        for (const a of apps) a.unmount();
        modals.clear();
        overlays.clear();
        return m;
    };
    for (const [i, d] of t.dialogs.entries()) {
        const o = { container: d.c, dimClose: d.dim, escClose: d.esc };
        const custom = [];
        if (d.c === undefined) delete o.container;
        if (d.labels) Object.assign(o, { okText: `Sure ${i}`, cancelText: `Never ${i}`, swapButtons: d.swap });
        if (d.kind === 'prompt') o.input = { initialValue: d.num ? d.num.initial : d.initial, required: d.required, ...(d.num ? { type: 'number' } : {}), ...(d.min ? { min: d.min } : {}) };
        if (d.own) o.callbacks = { 'key-KeyQ': () => custom.push(1) };
        const bare = d.bare && d.kind !== 'prompt';
        const x = { ...d, i, c: bare ? 'body' : d.c || 'body', labels: d.labels && !bare, dim: bare ? true : d.dim ?? true, answer: UNANSWERED, got: UNANSWERED, text: d.kind === 'prompt' ? (d.num ? d.num.initial ?? null : d.initial ?? '') : null, open: true, times: 0, custom };
        plugins[d.kind].open(`content ${i}`, ...(bare ? [] : [o])).then((v) => ((x.got = v), x.times++));
        await rest();
        live.push(x);
        const here = modals.get(x.c);
        x.id = here.at(-1)?.id;
        x.node = [...document.querySelectorAll('.vs-modal-node')].find((n) => n.textContent.includes(`content ${i}`));
        if (!x.node) return end(`dialog ${i} of ${J(t.dialogs)} is not shown`);
        if (d.own && !bare) {
            document.dispatchEvent(Object.assign(new Event('keydown'), { code: 'KeyQ' }));
            if (custom.length !== 1) return end(`the handler given to dialog ${J(d)} was not called`);
        }
    }
    const answer = (x, v) => {
        x.answer = v;
        x.open = false;
    };
    const wrong = (x) => (x.required && (x.text === '' || x.text === null)) || (x.min && x.text !== null && (x.num ? x.text : x.text.length) < x.min);
    const yes = (x) => (x.kind === 'alert' ? answer(x, undefined) : x.kind === 'confirm' ? answer(x, true) : wrong(x) ? null : answer(x, x.text));
    const no = (x) => answer(x, x.kind === 'alert' ? undefined : x.kind === 'confirm' ? false : null);
    for (const op of t.ops) {
        const what = `${J(op)} with ${J(live.map((x) => [x.kind, x.c, x.open, x.labels, x.required, x.text]))}`;
        const top = live.filter((x) => x.open).at(-1);
        const x = live[op.k];
        if (op.op === 'Enter' || op.op === 'Escape') {
            document.dispatchEvent(Object.assign(new Event('keydown'), { code: op.op }));
            if (top) (op.op === 'Enter' ? yes : no)(top);
        } else if (!x || !x.open) continue;
        else if (op.op === 'ok' || op.op === 'cancel') {
            if (x.kind === 'alert' && op.op === 'cancel') continue;
            const label = x.labels ? `${op.op === 'ok' ? 'Sure' : 'Never'} ${x.i}` : op.op === 'ok' ? 'OK' : 'Cancel';
            const b = [...x.node.querySelectorAll('button')].filter((b) => b.textContent.trim() === label);
            if (b.length !== 1) return end(`${what}: ${b.length} buttons ${label}`);
            b[0].click();
            (op.op === 'ok' ? yes : no)(x);
        } else if (op.op === 'dim') {
            const d = x.node.querySelector('.vs-dimmed');
            if (!d) continue;
            d.dispatchEvent(new Event('click', { bubbles: true, cancelable: true }));
            if (x.dim) no(x);
        } else if (op.op === 'close') {
            modal.closeWithId(x.c, x.id);
            no(x);
        } else {
            const input = x.node.querySelector('input');
            if (!input) continue;
            input.value = x.num ? op.digits : op.text;
            input.dispatchEvent(new Event('input', { bubbles: true }));
            x.text = x.num ? (op.digits === '' ? null : Number(op.digits)) : op.text;
        }
        await rest();
        for (const y of live) {
            if (y.got !== y.answer) return end(`${what}: dialog ${y.i} (${y.kind}) answered ${J(y.got)}, expected ${J(y.answer)}`);
            if (modals.get(y.c).some((m) => m.id === y.id) !== y.open) return end(`${what}: dialog ${y.i} (${y.kind}) is ${y.open ? 'gone' : 'still open'}`);
        }
        const now = overlays.overlays.value.map((o) => o[0]);
        if (J(now) !== J(live.filter((y) => y.open).map((y) => y.id))) return end(`${what}: overlays ${J(now)}`);
    }
    return end(null);
}
