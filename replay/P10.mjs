export const entry = `export { useInput, useInputRules, useInputMessages } from '@/composables';
export { h, createApp, ref, nextTick, effectScope } from 'vue';`;
export const needsDom = true;
// a rule answers by the value: 0 nothing, 1 a text at once, 2 a text later, 3 nothing later
export function gen(r) {
    return {
        via: r.pick(['rules', 'rules', 'messages', 'input']),
        rules: r.list(r.int(0, 4), () => r.list(4, () => r.int(0, 3))),
        defaults: r.list(r.int(0, 2), () => r.list(4, () => r.int(0, 3))),
        other: r.list(r.int(0, 3), () => r.list(4, () => r.int(0, 3))),
        noDefault: r.bool(0.3),
        // messages of the other kind, shown along with those under test
        more: r.list(r.pick([0, 0, 1, 2]), (i) => 'more ' + i),
        ops: r.list(r.int(1, 8), () => ({ op: r.pick(['check', 'check', 'check', 'settle', 'settle', 'flush', 'rules', 'default']), v: r.int(0, 3), k: r.int(0, 9) })),
        order: r.list(12, () => r.int(0, 99)),
    };
}
export function* shrink(t) {
    for (let i = 0; i < t.ops.length; i++) yield { ...t, ops: t.ops.filter((_, k) => k !== i) };
    for (const f of ['rules', 'defaults', 'other']) for (let i = 0; i < t[f].length; i++) yield { ...t, [f]: t[f].filter((_, k) => k !== i) };
}
const J = JSON.stringify;
export async function run(M, t) {
    const open = [];
    const text = (id, v) => `${id} says no to ${v}`;
    const rule = (id, plan, wrap) => (v) => {
        const kind = plan[v];
        const out = kind === 1 || kind === 2 ? wrap(text(id, v)) : wrap('');
        if (kind < 2) return kind ? out : wrap('');
        return new Promise((res) => open.push(() => res(out)));
    };
    const info = t.via === 'messages';
    const wrap = info ? (x) => ({ state: 'info', text: x }) : (x) => x;
    const list = (name, plans) => plans.map((p, i) => rule(name + i, p, wrap));
    const want = (name, plans, v) => {
        const all = plans.map((p, i) => [p[v], text(name + i, v)]);
        return all.filter(([k]) => info || k === 1 || k === 2).map(([k, x]) => (k === 1 || k === 2 ? x : ''));
    };
    let nowRules = t.rules;
    let name = 'own';
    let noDefault = t.noDefault;
    let value = 0;
    let checked = null;
    const inputValue = M.ref(0);
    const rules = M.ref(list('own', t.rules));
    const defaults = M.ref(list('dflt', t.defaults));
    const none = M.ref(noDefault);
    const scope = M.effectScope();
    let api;
    let app = null;
    let valid = null;
    const expected = () => (info ? [] : noDefault ? [] : want('dflt', t.defaults, value)).concat(want(name, nowRules, value));
    if (t.via === 'input') {
        const model = M.ref(0);
        app = M.createApp({
            setup(_, ctx) {
                api = M.useInput({ emit: (e, v) => e === 'update:valid' && (valid = v), expose() {} }, { inputValue, modelValue: model, messages: M.ref(t.more.map((text) => ({ state: 'info', text }))), rules, defaultRules: defaults, noDefaultRules: none });
                return () => M.h('div');
            },
        });
        app.mount(document.createElement('div'));
        checked = true;
    } else
        scope.run(() => {
            if (t.via === 'rules') api = M.useInputRules(inputValue, rules, defaults, none);
            else api = M.useInputMessages(inputValue, rules, M.ref(t.more.map((text) => ({ state: 'error', text }))));
        });
    const shown = () => (t.via === 'rules' ? api.ruleMessages.value : (api.showRuleMessages.value = true, api.computedMessages.value)).map((m) => m.text);
    const settleOne = async (k) => {
        if (open.length) open.splice(k % open.length, 1)[0]();
        for (let i = 0; i < 6; i++) await null;
    };
    try {
        for (const o of t.ops) {
            if (o.op === 'check') {
                value = o.v;
                inputValue.value = o.v;
                if (t.via === 'rules') api.checkRules();
                else if (t.via === 'messages') api.checkMessages();
                else await M.nextTick();
                checked = true;
            } else if (o.op === 'settle') await settleOne(o.k);
            else if (o.op === 'flush') await M.nextTick();
            else if (o.op === 'rules') {
                nowRules = nowRules === t.rules ? t.other : t.rules;
                name = name === 'own' ? 'new' : 'own';
                rules.value = list(name, nowRules);
                await M.nextTick();
                checked = true;
            } else if (o.op === 'default' && !info) {
                noDefault = !noDefault;
                none.value = noDefault;
                await M.nextTick();
                checked = true;
            }
        }
        await M.nextTick();
        for (let i = 0; open.length; i++) await settleOne(t.order[i % 12]);
        await M.nextTick();
        if (!checked) return null;
        const got = [...shown()].sort();
        const ruled = expected();
        const need = ruled.concat(t.via === 'rules' ? [] : t.more).sort();
        if (J(got) !== J(need)) return `after everything settled the messages are ${J(got)}, the rules say ${J(need)} about the last value ${value}`;
        if (t.via === 'input') {
            const ok = ruled.length === 0;
            if (api.valid.value !== ok || api.validate() !== ok) return `valid is ${api.valid.value} with ${ruled.length} errors`;
            if (valid !== null && valid !== ok) return `validity was last announced as ${valid} with ${ruled.length} errors`;
            if ((api.computedState.value === 'error') !== !ok) return `state is ${api.computedState.value} with ${ruled.length} errors`;
        }
        return null;
    } finally {
        scope.stop();
        app?.unmount();
    }
}
