export const entry = `export * from '@mcp/internal/version/version-service';`;
export const needsDom = false;
const num = (r) => r.pick([0, 1, 2, 9, 10, 11, 99, 100, r.int(0, 30)]);
const triple = (r) => [num(r), num(r), num(r)];
const PRE = ['', '', '', '-beta.1', '-alpha', '-rc.10', '-0'];
const NONE = [null, '', '  ', 'latest', 'next', 'beta', 'ALPHA', '*', 'x', '1.2', '1', 'workspace:*', 'workspace:^1.2.3', 'file:../v1.2.3', 'link:1.2.3', 'portal:1.2.3', 'Link:1.2.3', 'unknown'];
const LEAD = ['', '', 'v', '^', '~', '>=', '=', ' ', '> ', 'npm:vlossom@'];
const TAIL = ['', '', '+', ' ', ' <3.0.0', ' - 9.9.9'];
const near = (r, a) => {
    const b = [...a];
    const i = r.int(0, 2);
    b[i] = Math.max(0, b[i] + r.pick([-1, 0, 1]));
    return r.bool(0.6) ? b : triple(r);
};
const written = (r, t) => r.pick(LEAD) + t.join('.') + r.pick(PRE) + r.pick(TAIL);
const value = (r, t) => (r.bool(0.8) ? written(r, t) : r.pick(NONE));
export function gen(r) {
    const a = triple(r);
    return {
        version: r.bool(0.6) ? value(r, a) : null,
        groups: [0, 1, 2].map(() => (r.bool(0.4) ? value(r, near(r, a)) : r.bool() ? null : undefined)),
        pkg: r.pick(['none', 'empty', 'broken', 'ok', 'ok', 'ok']),
        entries: r.list(r.int(0, 6), () => value(r, near(r, a))),
    };
}
/** the numbers of the first x.y.z in a text */
function read(text) {
    if (text === null || text === undefined) return null;
    const t = text.trim();
    if (/^(workspace|file|link|portal):/i.test(t)) return null;
    const m = /([0-9]+)\.([0-9]+)\.([0-9]+)/.exec(t);
    return m ? { core: m.slice(1).map(Number), text: m[0] } : null;
}
const before = (a, b) => {
    const i = a.findIndex((x, j) => x !== b[j]);
    return i >= 0 && a[i] < b[i];
};
const GROUPS = ['dependencies', 'devDependencies', 'peerDependencies'];
export function run(M, t) {
    const pkg = {};
    GROUPS.forEach((g, i) => t.groups[i] !== undefined && (pkg[g] = { vue: '3.0.0', ...(t.groups[i] !== null ? { vlossom: t.groups[i] } : {}) }));
    const packageJson = { none: undefined, empty: '', broken: '{"dependencies": ', ok: JSON.stringify(pkg) }[t.pkg];
    const listed = t.pkg === 'ok' ? t.groups.filter((x) => typeof x === 'string').at(-1) : undefined;
    const asked = t.version?.trim() || undefined;
    const raw = asked ?? listed;
    const ctx = M.resolveVersionContext({ version: t.version ?? undefined, packageJson });
    const have = read(raw);
    const J = JSON.stringify;
    if (!have !== !ctx.detectedVersion) return `version read from ${J(raw)} is ${J(ctx.detectedVersion)}`;
    if (have && !ctx.detectedVersion.startsWith(have.text)) return `version read from ${J(raw)} is ${ctx.detectedVersion}, expected ${have.text}`;
    const src = asked ? 'input' : listed ? 'packageJson' : 'unknown';
    if (ctx.source !== src) return `the version comes from ${ctx.source}, expected ${src}`;
    if (ctx.warnings.length !== (have ? 0 : 1)) return `${ctx.warnings.length} warnings for version ${J(raw)}`;
    const verdict = (x) => {
        const need = read(x);
        return !have || !need ? 'unknown' : before(have.core, need.core) ? 'unsupported' : 'supported';
    };
    for (const e of t.entries) {
        const s = M.getVersionSupport(e ?? undefined, ctx);
        if (s.status !== verdict(e)) return `an entry of ${J(e)} for a project of ${J(raw)} is ${s.status}, expected ${verdict(e)}`;
        const need = read(e);
        if (!need !== !s.minimumVersion || (need && !s.minimumVersion.startsWith(need.text))) return `minimum of ${J(e)} is ${s.minimumVersion}`;
    }
    const list = t.entries.map((e, i) => ({ name: 'e' + i, availableVersion: e ?? undefined }));
    const got = M.findUnsupportedEntries(list, ctx).map((x) => x.entry.name).join();
    const want = list.filter((e) => verdict(e.availableVersion) === 'unsupported').map((e) => e.name).join();
    if (got !== want) return `unsupported entries [${got}], expected [${want}]`;
    for (const v of [ctx.detectedVersion, 'main', undefined]) {
        const refs = M.getCandidateRefs(v);
        const exp = v ? [...new Set([`vlossom-v${v}`, `v${v}`, v, 'main'])] : ['main'];
        if (J(refs) !== J(exp)) return `places searched for ${v}: ${J(refs)}`;
    }
    return null;
}
