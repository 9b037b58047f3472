import { mount } from './mount.mjs';
export const entry = `export { default as VsPagination } from '@/components/vs-pagination/VsPagination.vue';
export { h, createApp, reactive, nextTick } from 'vue';`;
export function gen(r) {
    const n = r.int(1, r.pick([4, 9, 14]));
    return {
        n,
        w: r.int(1, r.pick([3, 6, 12])),
        page: r.bool(0.9) ? r.int(0, n - 1) : r.int(-1, n + 1),
        disabled: r.bool(0.1),
        edge: r.bool(0.7),
        ops: r.list(r.int(0, 3), () => r.pick([['first'], ['last'], ['prev'], ['next'], ['click', r.int(0, 12)], ['set', r.int(-1, n)], ['model', r.int(-1, n)], ['length', r.int(1, 12)]])),
    };
}
function look(c, t, n, cur) {
    const btns = [...c.el.querySelectorAll('.vs-page-button')];
    const nums = btns.map((b) => Number(b.textContent.trim()));
    const want = Math.min(n, t.w);
    if (nums.length !== want) return `${nums.length} page buttons for ${n} pages, window ${t.w}, page ${cur}`;
    for (let i = 0; i < nums.length; i++) {
        if (nums[i] !== nums[0] + i || nums[i] < 1 || nums[i] > n) return `page buttons ${nums} (pages ${n}, window ${t.w}, page ${cur})`;
    }
    if (cur >= 0 && !nums.includes(cur + 1)) return `page ${cur + 1} not among the buttons ${nums} (pages ${n}, window ${t.w})`;
    const prim = btns.filter((b) => b.classList.contains('vs-primary')).map((b) => Number(b.textContent.trim()));
    if (JSON.stringify(prim) !== JSON.stringify(cur >= 0 ? [cur + 1] : [])) return `marked pages ${prim}, current ${cur + 1}`;
    return null;
}
export async function run(M, t) {
    let n = t.n;
    const c = mount(M, M.VsPagination, { length: n, showingLength: t.w, modelValue: t.page, disabled: t.disabled, edgeButtons: t.edge }, {});
    try {
        await M.nextTick();
        const inr = (x) => x >= 0 && x < n;
        let cur = inr(t.page) ? t.page : -1;
        const s = () => c.s.selectedIndex;
        if (s() !== cur) return `starts on ${s()}, expected ${cur}`;
        let m = look(c, t, n, cur);
        if (m) return m;
        for (const op of t.ops) {
            c.events.length = 0;
            const ctl = [...c.el.querySelectorAll('.vs-pagination-control-button')];
            const k = t.edge ? { first: 0, prev: 1, next: 2, last: 3 } : { prev: 0, next: 1 };
            const target = { first: 0, last: n - 1, prev: cur - 1, next: cur + 1 }[op[0]];
            let want = cur;
            if (target !== undefined) {
                const b = k[op[0]] !== undefined ? ctl[k[op[0]]] : null;
                if (b) {
                    const off = b.disabled || b.classList.contains('vs-disabled') || b.hasAttribute('disabled');
                    const atEdge = t.disabled || (op[0] === 'first' || op[0] === 'prev' ? cur === 0 : cur === n - 1);
                    if (off !== atEdge && !(cur === -1)) return `${op[0]} button ${off ? 'off' : 'on'} on page ${cur} of ${n}`;
                    b.click();
                    want = !t.disabled && inr(target) ? target : cur;
                    if (cur === -1 || off) want = s();
                } else {
                    c.s[{ first: 'goFirst', last: 'goLast' }[op[0]]]();
                    want = t.disabled ? cur : target;
                }
            } else if (op[0] === 'click') {
                const b = [...c.el.querySelectorAll('.vs-page-button')];
                const x = b[op[1] % b.length];
                const pg = Number(x.textContent.trim()) - 1;
                x.click();
                want = t.disabled ? cur : pg;
            } else if (op[0] === 'set') {
                c.s.setPage(op[1]);
                want = inr(op[1]) ? (t.disabled ? cur : op[1]) : -1;
            } else if (op[0] === 'model') {
                if (op[1] === c.state.modelValue) continue;
                await c.set('modelValue', op[1]);
                want = inr(op[1]) ? op[1] : -1;
            } else {
                const old = n;
                n = op[1];
                await c.set('length', n);
                if (n === old) continue;
                want = inr(cur) ? cur : -1;
            }
            await M.nextTick();
            if (s() !== want) return `${JSON.stringify(op)} from page ${cur} of ${n}: on ${s()}, expected ${want}`;
            const ch = c.events.filter((e) => e[0] === 'change').map((e) => e[1]);
            const up = c.events.filter((e) => e[0] === 'update:modelValue').map((e) => e[1]);
            const we = want === cur ? [] : [want];
            if (JSON.stringify(ch) !== JSON.stringify(we) || JSON.stringify(up) !== JSON.stringify(we)) return `${JSON.stringify(op)} from ${cur}: announced ${JSON.stringify(c.events)}, expected ${JSON.stringify(we)}`;
            cur = want;
            m = look(c, t, n, cur);
            if (m) return m;
        }
    } finally {
        c.unmount();
    }
    return null;
}
