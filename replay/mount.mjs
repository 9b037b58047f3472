/** Mounts a real component with live props; `vm` reaches what setup() returned. M must export h, createApp, reactive, nextTick. */
export function mount(M, Comp, props = {}, { slots, provide = {}, plugins = [], vmodel } = {}) {
    const state = M.reactive({ ...props });
    const events = [];
    const el = document.createElement('div');
    document.body.appendChild(el);
    let inst = null;
    const on = new Proxy({}, {});
    void on;
    const names = Comp.emits ? (Array.isArray(Comp.emits) ? Comp.emits : Object.keys(Comp.emits)) : [];
    const handlers = {};
    for (const n of names) {
        const k = 'on' + n[0].toUpperCase() + n.slice(1);
        handlers[k] = (...a) => {
            events.push([n, ...a]);
            if (vmodel && n.startsWith('update:')) state[n.slice(7)] = a[0];
        };
    }
    const app = M.createApp({
        render() {
            return M.h(Comp, { ...state, ...handlers, ref: (r) => (inst = r ?? inst) }, slots);
        },
    });
    app.config.warnHandler = () => {};
    for (const k of Reflect.ownKeys(provide)) app.provide(k, provide[k]);
    for (const p of plugins) app.use(p);
    app.mount(el);
    return {
        state,
        events,
        el,
        app,
        get vm() {
            return inst;
        },
        get s() {
            return inst.$.setupState;
        },
        async set(k, v) {
            state[k] = v;
            await M.nextTick();
        },
        unmount() {
            app.unmount();
            el.remove();
        },
    };
}
