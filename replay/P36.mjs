import { github, library } from './github.mjs';
export const entry = `
export { scaffoldVlossomCode } from '@mcp/internal/scaffold/scaffold-service';
export { scaffoldComponentUsage } from '@mcp/internal/scaffold/component-usage-scaffolder';
export { findUnsupportedEntries } from '@mcp/internal/version/version-service';`;
export const needsDom = false;
export const fresh = true;
const DIRS = ['vs-button', 'vs-grid', 'vs-input', 'vs-modal', 'vs-table'];
const SINCE = ['2.0.0+', '2.1.0+', '2.3.0', '1.0.0+', '3.0.0+', 'soon', '2.0.0-beta.2+'];
const NAMES = ['VsButton', 'vs-button', 'VsGrid', 'vs-grid', 'VsInput', 'VsModal', 'vs-modal', 'VsTable', 'VsNope', 'nope', 'VsCarousel'];
const VERSIONS = ['2.0.0', '2.1.0', '2.2.5', '2.3.0', '3.0.0', '1.9.0'];
export function gen(r) {
    return {
        since: r.list(DIRS.length, () => r.pick(SINCE)),
        missing: r.bool(0.3) ? [r.int(0, DIRS.length)] : [],
        kind: r.pick(['component-usage', 'component-usage', 'component-usage', 'style-set', 'style-set', 'project-setup']),
        names: r.bool(0.1) ? null : r.list(r.pick([0, 1, 1, 2, 2, 3, 4]), () => r.pick(r.bool(0.8) ? NAMES.slice(0, 8) : NAMES)),
        version: r.pick([...VERSIONS, ...VERSIONS, null]),
        how: r.pick(['version', 'package', 'none', 'version']),
        tagged: r.bool(0.8),
        both: r.bool(0.4),
        fail: r.bool(0.1) ? r.pick([500, 403, 'network']) : null,
    };
}
export function* shrink(t) {
    if (t.names) for (let i = 0; i < t.names.length; i++) yield { ...t, names: t.names.filter((_, k) => k !== i) };
    if (t.missing.length) yield { ...t, missing: [] };
}
export const init = () => github();
const dirOf = (name) => {
    const k = name.trim().replace(/([a-z])([A-Z])/g, '$1-$2').toLowerCase();
    const d = k.startsWith('vs-') ? k : 'vs-' + k;
    return DIRS.indexOf(d);
};
const properName = (d) => DIRS[d].replace(/(^|-)(\w)/g, (_, a, b) => b.toUpperCase());
/** is version v too old for a component available since s?  null = cannot be told */
function tooOld(s, v) {
    const m = /^(\d+)\.(\d+)\.(\d+)(?:-beta\.\d+)?\+?$/.exec(s);
    if (!m || !v) return null;
    const a = v.split('.').map(Number);
    for (let i = 0; i < 3; i++) if (a[i] !== +m[i + 1]) return a[i] < +m[i + 1];
    return false;
}
export async function run(M, t, g) {
    const m = M.fresh();
    g.repo = {};
    g.fail = () => t.fail ?? undefined;
    const files = library({ components: DIRS.map((dir, i) => ({ dir, version: t.since[i], props: ['a', 'b'] })).filter((_, i) => !t.missing.includes(i)) });
    g.repo.main = files;
    if (t.tagged && t.version) g.repo['vlossom-v' + t.version] = files;
    const asked = t.version && t.how !== 'none';
    const context = !asked ? undefined : t.how === 'version' ? { version: t.version } : { packageJson: JSON.stringify({ dependencies: { vlossom: '^' + t.version } }) };
    const names = t.names ?? [];
    const input = { kind: t.kind, description: 'x', context };
    if (t.kind === 'style-set') {
        input.component = names[0];
        if (t.both) input.components = names.slice(1);
    } else if (t.names) input.components = t.names;
    const a = await m.scaffoldVlossomCode(input);
    const wanted = t.kind === 'style-set' ? names.slice(0, 1) : names;
    const known = (n) => dirOf(n) >= 0 && !t.missing.includes(dirOf(n));
    const old = (n) => tooOld(t.since[dirOf(n)], t.version);
    const say = (what) => `${what}: ${JSON.stringify({ asked: input, since: Object.fromEntries(DIRS.map((d, i) => [d, t.missing.includes(i) ? 'missing' : t.since[i]])), status: a.status, code: a.code, error: a.error, unknown: a.unknownComponents, unsupported: a.unsupportedComponents?.map((c) => c.name) })}`;
    if (t.kind === 'project-setup') return a.code === undefined ? null : say('code of components in a project setup');
    const code = a.code !== undefined;
    if (code !== (a.status === 'ok')) return say('code and status disagree');
    if (!code && !a.error) return say('no code and no reason');
    if (code) {
        if (!asked) return say('code although it is not known that the library is installed');
        if (!wanted.length) return say('code although nothing was asked for');
        for (const n of wanted) {
            if (!known(n)) return say(`code for ${n}, which does not exist`);
            if (old(n) === true) return say(`code for ${n}, which version ${t.version} does not have`);
        }
        if (t.fail) return say('code although nothing could be loaded');
        if (t.kind === 'component-usage') {
            for (const n of wanted) if (!a.code.includes(properName(dirOf(n))) && !a.code.includes(DIRS[dirOf(n)])) return say(`the code does not use ${n}`);
            for (const [i, d] of DIRS.entries()) if (!wanted.some((n) => dirOf(n) === i) && (a.code.includes(properName(i)) || a.code.includes('<' + d))) return say(`the code uses ${d}, which was not asked for`);
        }
    } else if (asked && !t.fail && wanted.length) {
        const unknown = wanted.filter((n) => !known(n));
        if (t.kind === 'component-usage') {
            if (a.unknownComponents || unknown.length) if (JSON.stringify(a.unknownComponents ?? []) !== JSON.stringify(unknown)) return say('the unknown components named are not the unknown ones');
        }
        const gone = unknown.length ? [] : wanted.filter((n) => old(n) === true).map((n) => properName(dirOf(n)));
        const said = (a.unsupportedComponents ?? []).map((c) => c.name);
        if (JSON.stringify(said) !== JSON.stringify(gone)) return say('the unsupported components named are not the unsupported ones');
        if (!unknown.length && !gone.length) return say('refused although every component exists and is supported');
    }
    const entries = DIRS.map((d, i) => ({ name: d, availableVersion: t.since[i] }));
    const found = m.findUnsupportedEntries(entries, { source: 'request', detectedVersion: t.version ?? undefined, warnings: [] }).map((e) => e.entry.name);
    const expect = t.version ? DIRS.filter((_, i) => tooOld(t.since[i], t.version) === true) : [];
    if (JSON.stringify(found) !== JSON.stringify(expect)) return `unsupported entries of ${JSON.stringify(entries)} for ${t.version}: ${found}, expected ${expect}`;
    return null;
}
