import { mount } from './mount.mjs';
export const entry = `export { useIndexSelector } from '@/composables/list-index-selector/list-index-selector-composable';
export { default as VsTabs } from '@/components/vs-tabs/VsTabs.vue';
export { default as VsSteps } from '@/components/vs-steps/VsSteps.vue';
export { ref, nextTick, effectScope, h, createApp, reactive } from 'vue';`;
const KEYS = ['ArrowLeft', 'ArrowRight', 'ArrowUp', 'ArrowDown', 'Home', 'End', 'Enter'];
export function gen(r, i) {
    const n = r.int(0, 7);
    if (i % 40 === 0) {
        return {
            comp: r.pick(['tabs', 'steps']),
            n,
            disabled: r.pick(['true', 'false', 'list', 'list', 'list']),
            mask: r.list(9, () => r.bool(0.4)),
            vertical: r.bool(),
            start: r.int(-1, n),
            ops: r.list(r.int(1, 4), () => r.pick([['key', r.pick(KEYS)], ['key', r.pick(KEYS)], ['click', r.int(0, 7)], ['next'], ['prev'], ['model', r.int(-1, n)], ['resize', r.int(0, 8)]])),
        };
    }
    return {
        n,
        disabled: r.pick(['none', 'undef', 'true', 'false', 'list', 'list', 'list']),
        mask: r.list(9, () => r.bool(0.4)),
        byItem: r.bool(),
        start: r.int(-1, n - 1),
        ops: r.list(r.int(1, 5), () => {
            const k = r.int(0, 9);
            if (k < 6) return ['key', r.pick(KEYS), r.bool()];
            if (k < 8) return ['select', r.int(-2, n + 1)];
            if (k < 9) return ['sync', r.int(-2, n + 1)];
            return ['resize', r.int(0, 8)];
        }),
    };
}
async function component(M, t) {
    const items = (k, n) => Array.from({ length: n }, (_, i) => k + i);
    const tabs = t.comp === 'tabs';
    const isDis = (i) => (t.disabled === 'true' ? true : t.disabled === 'list' ? t.mask[i] : false);
    const disabled = t.disabled === 'list' ? (_, i) => t.mask[i] : t.disabled === 'true';
    window.HTMLElement.prototype.scrollIntoView = () => {};
    const c = mount(M, tabs ? M.VsTabs : M.VsSteps, { [tabs ? 'tabs' : 'steps']: items('a', t.n), disabled, modelValue: t.start, vertical: t.vertical, ...(tabs ? { controls: 'show' } : {}) });
    try {
        await M.nextTick();
        let n = t.n;
        const ok = (x) => x >= 0 && x < n;
        let cur = ok(t.start) ? t.start : -1;
        const s = () => c.s.selectedIndex;
        if (s() !== cur) return `starts on ${s()}, expected ${cur}`;
        for (const op of t.ops) {
            c.events.length = 0;
            const els = [...c.el.querySelectorAll(tabs ? '.vs-tab-item' : '.vs-step-item')];
            if (els.length !== n) return `${els.length} items shown of ${n}`;
            const marked = els.map((e, i) => (e.classList.contains('vs-selected') ? i : -1)).filter((i) => i >= 0);
            if (JSON.stringify(marked) !== JSON.stringify(cur >= 0 ? [cur] : [])) return `marked ${marked}, selected ${cur}`;
            for (let i = 0; i < n; i++) if (els[i].classList.contains('vs-disabled') !== isDis(i)) return `item ${i} shown ${isDis(i) ? 'enabled' : 'disabled'}`;
            const en = [...Array(n).keys()].filter((i) => !isDis(i));
            const after = en.find((e) => e > cur);
            const before = [...en].reverse().find((e) => e < cur);
            let want;
            if (op[0] === 'key') {
                const el = els[Math.max(cur, 0)];
                if (!el) continue;
                el.dispatchEvent(new window.KeyboardEvent('keydown', { key: op[1], bubbles: true }));
                const k = op[1];
                if (k === (t.vertical ? 'ArrowDown' : 'ArrowRight')) want = after ?? (ok(cur) && !isDis(cur) ? cur : undefined);
                else if (k === (t.vertical ? 'ArrowUp' : 'ArrowLeft')) want = before ?? (ok(cur) && !isDis(cur) ? cur : undefined);
                else if (k === 'Home') want = en[0];
                else if (k === 'End') want = en[en.length - 1];
                else want = cur;
            } else if (op[0] === 'click') {
                if (!n) continue;
                const i = op[1] % n;
                els[i].click();
                want = isDis(i) ? cur : i;
            } else if (op[0] === 'next' || op[0] === 'prev') {
                if (!tabs) continue;
                c.s[op[0] === 'next' ? 'goNext' : 'goPrev']();
                want = op[0] === 'next' ? after : before;
            } else if (op[0] === 'model') {
                if (op[1] === c.state.modelValue) continue;
                await c.set('modelValue', op[1]);
                want = ok(op[1]) ? op[1] : -1;
            } else {
                const old = n;
                n = op[1];
                await c.set(tabs ? 'tabs' : 'steps', items('b', n));
                if (n === old) continue;
                want = ok(cur) ? cur : -1;
            }
            await M.nextTick();
            const now = s();
            if (want !== undefined && now !== want) return `${t.comp}: ${JSON.stringify(op)} from ${cur} of ${n}: on ${now}, expected ${want}`;
            if (!(now === -1 || ok(now))) return `${t.comp}: on ${now} of ${n} after ${JSON.stringify(op)}`;
            if (ok(now) && isDis(now) && now !== cur && op[0] !== 'model') return `${t.comp}: ${JSON.stringify(op)} landed on disabled ${now}`;
            cur = now;
        }
    } finally {
        c.unmount();
    }
    return null;
}
export async function run(M, t) {
    if (t.comp) return component(M, t);
    const list = M.ref(Array.from({ length: t.n }, (_, i) => 'i' + i));
    const dis = { none: undefined, undef: M.ref(undefined), true: M.ref(true), false: M.ref(false), list: M.ref(t.byItem ? (x) => t.mask[Number(x.slice(1))] : (_, i) => t.mask[i]) }[t.disabled];
    const isDis = (i) => (t.disabled === 'true' ? true : t.disabled === 'list' ? t.mask[i] : false);
    const scope = M.effectScope();
    try {
        const a = scope.run(() => M.useIndexSelector(list, dis));
        a.selectedIndex.value = t.start;
        for (const op of t.ops) {
            const n = list.value.length;
            const sel = a.selectedIndex.value;
            const ok = (x) => x >= 0 && x < list.value.length;
            const en = [...Array(n).keys()].filter((i) => !isDis(i));
            for (let i = -1; i <= n; i++) {
                const fw = a.findActiveIndexForwardFrom(i);
                const bw = a.findActiveIndexBackwardFrom(i);
                const inr = i >= 0 && i < n;
                const ef = inr ? (en.find((e) => e >= i) ?? -1) : -1;
                const eb = inr ? ([...en].reverse().find((e) => e <= i) ?? -1) : -1;
                if (fw !== ef) return `forward search from ${i} gave ${fw}, expected ${ef}`;
                if (bw !== eb) return `backward search from ${i} gave ${bw}, expected ${eb}`;
                if (a.isSelected(i) !== (sel === i)) return `isSelected(${i})`;
                if (a.isPrevious(i) !== i < sel) return `isPrevious(${i})`;
                if (inr && !!a.isDisabled(i) !== isDis(i)) return `isDisabled(${i})`;
            }
            if (op[0] === 'key') {
                const [, key, vert] = op;
                a.handleKeydown({ key, preventDefault() {} }, vert);
                const now = a.selectedIndex.value;
                const prev = key === (vert ? 'ArrowUp' : 'ArrowLeft');
                const next = key === (vert ? 'ArrowDown' : 'ArrowRight');
                let want;
                if (next) want = en.find((e) => e > sel);
                else if (prev) want = [...en].reverse().find((e) => e < sel);
                else if (key === 'Home') want = en[0];
                else if (key === 'End') want = en[en.length - 1];
                else want = sel;
                if (want === undefined && (next || prev) && ok(sel) && !isDis(sel)) want = sel;
                if (want !== undefined && now !== want) return `${key} from ${sel}: selected ${now}, expected ${want}`;
                if (ok(now) && isDis(now) && now !== sel) return `${key} landed on disabled ${now}`;
            } else if (op[0] === 'select') {
                a.selectIndex(op[1]);
                const want = ok(op[1]) ? (isDis(op[1]) ? sel : op[1]) : -1;
                if (a.selectedIndex.value !== want) return `selectIndex(${op[1]}) from ${sel}: ${a.selectedIndex.value}, expected ${want}`;
            } else if (op[0] === 'sync') {
                a.syncIndex(op[1]);
                const want = ok(op[1]) ? op[1] : -1;
                if (a.selectedIndex.value !== want) return `syncIndex(${op[1]}): ${a.selectedIndex.value}, expected ${want}`;
            } else {
                list.value = Array.from({ length: op[1] }, (_, i) => 'r' + i);
                await M.nextTick();
                if (op[1] !== n && ok(sel) && a.selectedIndex.value !== sel) return 'selection lost on resize';
            }
            const x = a.selectedIndex.value;
            if (!(x === -1 || ok(x)) && !(op[0] === 'resize' && op[1] === n)) return `selection ${x} outside a list of ${list.value.length} after ${JSON.stringify(op)}`;
        }
    } finally {
        scope.stop();
    }
    return null;
}
