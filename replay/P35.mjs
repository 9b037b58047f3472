import { github, library } from './github.mjs';
export const entry = `
export { validateVlossomUsage } from '@mcp/internal/validation/validate-vlossom-usage';
export { buildSummary } from '@mcp/internal/validation/validation-summary';`;
export const needsDom = false;
export const fresh = true;
const PIECES = [
    '<button>x</button>', '<input />', '< Select >', '<table></table>', '<dialog open>', '<textarea/>', '<progress >', '<div>plain</div>', '',
    "import { ElButton } from 'element-plus';", 'import x from "vuetify/components"', "import { VsButton } from 'vlossom';", "import { VsNope, VsInput as I } from 'vlossom'", "import y from 'other'",
    '<el-button />', '<v-card>', '<a-input>', '<q-btn/>', '<VBtn/>', '<van-cell>', '<n-data-table>',
    '<vs-button>go</vs-button>', '<VsButton primary />', '<vs-nope />', '<vs-button style="color: red" />', "<VsInput v-model=\"a\" style='x' />", '<vs-input :style="x" />',
    '<vs-button @click="x" @some-thing="y" />', '<vs-button unknown-prop="1">', '<vs-modal><template #title /></vs-modal>', '<vs-modal v-model="o" />', '<vs-old />',
    '<style>.vs-button { color: red }</style>', '<style scoped>.mine {}</style>',
];
const STYLES = ["const buttonStyleSet: VsButtonStyleSet = { variables: { a: '1px' } }", '{ variables: { b: 1 } }', "{ component: { color: '#fff' } }", "color: 'rgb(0,0,0)'", '--my-color: 1px', 'variables: { variables: { } }', '<style >', "{ variables: { padding: '2px' } }", "'--vs-comp-bg'", ''];
const FILES = ['src/main.ts', 'main.js', 'src/App.vue', 'plugins/vlossom.ts', 'README.md'];
const SETUP = ["import 'vlossom/styles'", 'createVlossom({ components: VlossomComponents })', 'createVlossom()', 'VlossomComponents', 'components: x', ''];
const DEPS = ['vlossom', 'vue', 'tailwindcss', 'element-plus', 'vuetify', 'lodash', 'primevue'];
export function gen(r, i) {
    const code = () => r.list(r.int(0, 5), () => r.pick(PIECES)).join(r.pick(['\n', ' ', '\n\n']));
    const kind = r.pick(['sfc', 'sfc', 'snippet', 'style-set', 'project-setup', 'project-setup']);
    const t = { kind, version: r.pick([null, '2.0.0', '2.1.0', '3.0.0']), fail: r.bool(0.07) ? r.pick([500, 'network', 403]) : null };
    if (kind === 'project-setup') {
        if (r.bool(0.8)) t.packageJson = r.bool(0.1) ? '{' : JSON.stringify({ dependencies: Object.fromEntries(DEPS.filter(() => r.bool(0.5)).map((d) => [d, '^2.0.0'])) });
        if (r.bool(0.1)) t.packageJson = '';
        if (r.bool(0.8)) t.files = r.list(r.int(0, 4), () => ({ path: r.pick(FILES), content: (r.bool(0.7) ? r.list(r.int(0, 4), () => r.pick(SETUP)).join('\n') : '') + '\n' + (r.bool(0.5) ? code() : '') }));
    } else {
        t.code = r.bool(0.08) ? r.pick([null, '', '  ', '\n\t']) : kind === 'style-set' ? r.list(r.int(1, 4), () => r.pick(STYLES)).join('\n') : code();
        if (kind === 'style-set' && r.bool(0.5)) t.components = r.list(r.int(0, 2), () => r.pick(['VsButton', 'vs-button', 'VsNope', 'VsOld']));
    }
    return t;
}
export function* shrink(t) {
    if (t.code) for (const l of t.code.split('\n')) yield { ...t, code: t.code.split('\n').filter((x) => x !== l).join('\n') };
    if (t.files) for (let i = 0; i < t.files.length; i++) yield { ...t, files: t.files.filter((_, k) => k !== i) };
    if (t.fail) yield { ...t, fail: null };
}
export const init = () => github();
const isAdvice = (x) => x.ruleId === 'PREFER_VLOSSOM_COMPONENT' || x.ruleId === 'PREFER_STYLE_SET';
function counted(issues) {
    const e = issues.filter((x) => x.severity === 'error').length;
    const w = issues.filter((x) => x.severity === 'warning').length;
    const part = (k, s) => (k ? [`${k} ${s}${k > 1 ? 's' : ''}`] : []);
    return e + w ? [...part(e, 'error'), ...part(w, 'warning')].join(', ') : null;
}
export async function run(M, t, g) {
    const m = M.fresh();
    const types = 'export interface VsButtonStyleSet { variables?: { a?: string; }; component?: CSSProperties; }';
    const files = library({
        components: [
            { dir: 'vs-button', props: ['primary', 'color-scheme'], types, description: 'button' },
            { dir: 'vs-input', props: ['modelValue'], description: 'input text field' },
            { dir: 'vs-modal', description: 'modal dialog' },
            { dir: 'vs-table', description: 'table' },
            { dir: 'vs-select', description: 'select' },
            { dir: 'vs-old', version: '2.1.0+', description: 'old' },
        ],
    });
    g.repo = { main: files, 'vlossom-v2.0.0': files, 'vlossom-v2.1.0': files };
    g.fail = () => t.fail ?? undefined;
    const results = {};
    for (const mode of ['strict', 'prefer', 'off']) {
        const input = { kind: t.kind, context: { vlossomFirst: mode } };
        if (t.version) input.context.version = t.version;
        if (t.code !== undefined && t.code !== null) input.code = t.code;
        if (t.components) input.context.components = t.components;
        if (t.packageJson !== undefined) input.packageJson = t.packageJson;
        if (t.files) input.files = t.files;
        const a = (results[mode] = await m.validateVlossomUsage(input));
        const say = (what) => `${what}: ${JSON.stringify({ input, status: a.status, valid: a.valid, summary: a.summary, issues: a.issues.map((x) => [x.ruleId, x.severity]) })}`;
        const nothing = t.kind === 'project-setup' ? !t.packageJson && !t.files?.length : !t.code?.trim();
        const errors = a.issues.filter((x) => x.severity === 'error').length;
        if (a.valid && errors) return say('called valid with errors among the issues');
        if (a.valid && nothing) return say('called valid with nothing to validate');
        if (a.valid && t.fail) return say('called valid although nothing could be loaded');
        if (!a.valid && !nothing && !t.fail && !errors) return say('not valid without an error among the issues');
        if (nothing && !t.fail && (a.status !== 'skipped' || a.issues.length)) return say('nothing to validate, but not skipped');
        if (!nothing && !t.fail) {
            if ((a.status === 'ok') !== a.valid) return say('status and verdict disagree');
            const c = counted(a.issues);
            if (c ? a.summary !== c : /\d/.test(a.summary)) return say(`the summary should say ${c ?? 'that there are none'}`);
        }
        if (t.fail && a.valid !== false) return say('a failure to load is not a verdict');
        if (a.issues.some((x) => x.severity !== 'error' && x.severity !== 'warning')) return say('an issue of no known level');
        if (mode === 'off' && a.issues.some(isAdvice)) return say('off, but library-first findings');
        if (mode === 'prefer' && a.issues.some((x) => isAdvice(x) && x.severity === 'error')) return say('an advisory finding is an error');
    }
    const rest = (a) => JSON.stringify(a.issues.filter((x) => !isAdvice(x)).map((x) => JSON.stringify([x.ruleId, x.severity, x.message, x.line])).sort());
    for (const mode of ['prefer', 'off']) if (rest(results[mode]) !== rest(results.strict)) return `other issues depend on the mode: ${JSON.stringify(t)}\nstrict ${rest(results.strict)}\n${mode} ${rest(results[mode])}`;
    return null;
}
