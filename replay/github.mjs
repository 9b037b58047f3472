// A stand-in for the network: files by reference and path.
//   const g = github();  g.repo[ref] = { 'a/b.md': 'text', ... };  g.fail = (ref, path) => status | undefined
export function github() {
    const g = { repo: {}, releases: [], calls: [], fail: () => undefined, gate: null };
    const answer = (status, body) => ({ ok: status < 400, status, json: async () => JSON.parse(body), text: async () => body });
    globalThis.fetch = async (url) => {
        const u = new URL(String(url));
        let ref, path, kind;
        if (u.hostname === 'api.github.com') {
            const p = u.pathname.replace('/repos/vlossom-ui/vlossom/', '');
            if (p.startsWith('releases')) kind = 'releases';
            else {
                kind = 'dir';
                path = p.replace(/^contents\//, '');
                ref = u.searchParams.get('ref');
            }
        } else {
            kind = 'raw';
            const [r, ...rest] = u.pathname.replace('/vlossom-ui/vlossom/', '').split('/');
            ref = decodeURIComponent(r);
            path = rest.join('/');
        }
        const call = { kind, ref, path };
        g.calls.push(call);
        if (g.gate) await g.gate(call);
        const status = g.fail(ref, path, kind);
        if (status === 'network') throw new TypeError('fetch failed');
        if (status) return answer(status, '');
        if (kind === 'releases') return answer(200, JSON.stringify(g.releases));
        const files = g.repo[ref];
        if (!files) return answer(404, '');
        if (kind === 'raw') return files[path] === undefined ? answer(404, '') : answer(200, files[path]);
        const names = new Map();
        for (const f of Object.keys(files))
            if (f.startsWith(path + '/')) {
                const [n, ...more] = f.slice(path.length + 1).split('/');
                names.set(n, more.length ? 'dir' : 'file');
            }
        return names.size ? answer(200, JSON.stringify([...names].map(([name, type]) => ({ name, path: path + '/' + name, type })))) : answer(404, '');
    };
    return g;
}
export const SRC = 'packages/vlossom/src';
/** the files of one version of the library */
export function library({ components = [], directives = [], composables = [], plugins = [], tokens = [] } = {}) {
    const f = { 'packages/vlossom/package.json': '{}' };
    for (const c of components) {
        f[`${SRC}/components/${c.dir}/README.md`] = `# ${c.dir}\n\n${c.description ?? 'text'}\n\n**Available Version**: ${c.version ?? '2.0.0+'}\n\n## Props\n\n| Prop | Type | Default | Required | Description |\n| --- | --- | --- | --- | --- |\n${(c.props ?? []).map((p) => `| \`${p}\` | \`string\` | | | x |\n`).join('')}`;
        f[`${SRC}/components/${c.dir}/types.ts`] = c.types ?? '';
    }
    for (const d of directives) f[`${SRC}/directives/${d.dir}/README.md`] = `# ${d.dir}\n\n${d.description ?? 'text'}\n\n**Available Version**: ${d.version ?? '2.0.0+'}\n`;
    for (const d of composables) f[`${SRC}/composables/${d.dir}/README.md`] = `# ${d.name}\n\n${d.description ?? 'text'}\n\n**Available Version**: ${d.version ?? '2.0.0+'}\n`;
    if (composables.length) f[`${SRC}/composables/index.ts`] = composables.map((d) => `export * from './${d.dir}/x';\n`).join('');
    for (const d of plugins) f[`${SRC}/plugins/${d.dir}/README.md`] = `# ${d.dir}\n\n${d.description ?? 'text'}\n`;
    if (tokens.length) f[`${SRC}/styles/variables.css`] = `:root {\n${tokens.map((t) => `    --vs-${t}: 1px;\n`).join('')}}\n`;
    return f;
}
