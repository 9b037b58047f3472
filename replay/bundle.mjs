// Bundles real modules of /repo so that drivers can execute them: TypeScript as is, .vue through the SFC compiler.
import { createRequire } from 'node:module';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { pathToFileURL } from 'node:url';

const require = createRequire('/opt/veriftools/node/node_modules/');
const esbuild = require('esbuild');
const sfc = require('@vue/compiler-sfc');
export const REPO = process.env.VERIF_REPO || '/repo';
const DEPS = process.env.VERIF_DEPS || '/repo';
const UI = path.join(REPO, 'packages/vlossom');
const MCP = path.join(REPO, 'packages/vlossom-mcp');

const isFile = (f) => fs.existsSync(f) && fs.statSync(f).isFile();
function find(base) {
    for (const f of [base, base + '.ts', base + '/index.ts', base.replace(/\.js$/, '.ts')]) if (isFile(f)) return f;
    return null;
}
// functions a module keeps to itself but a driver calls: exported additionally when the module declares them
const expose = new Map();
const plugin = {
    name: 'vlossom',
    setup(b) {
        b.onResolve({ filter: /^@\// }, (a) => ({ path: find(path.join(UI, 'src', a.path.slice(2))) }));
        b.onResolve({ filter: /^@mcp\// }, (a) => ({ path: find(path.join(MCP, 'src', a.path.slice(5))) }));
        b.onResolve({ filter: /^\.\.?\// }, (a) => {
            const f = find(path.resolve(a.resolveDir, a.path));
            return f ? { path: f } : undefined;
        });
        b.onResolve({ filter: /^vue$/ }, () => ({ path: path.join(fs.realpathSync(path.join(DEPS, 'packages/vlossom/node_modules/vue')), 'dist/vue.runtime.esm-bundler.js') }));
        b.onLoad({ filter: /\.ts$/ }, (a) => {
            const names = expose.get(path.relative(REPO, a.path));
            if (!names) return undefined;
            const src = fs.readFileSync(a.path, 'utf8');
            const there = names.filter((n) => new RegExp(`^(async )?function\\*? ${n}\\b|^const ${n}\\b`, 'm').test(src));
            return { contents: there.length ? `${src}\nexport { ${there.join(', ')} };\n` : src, loader: 'ts', resolveDir: path.dirname(a.path) };
        });
        b.onLoad({ filter: /\.vue$/ }, (a) => {
            const src = fs.readFileSync(a.path, 'utf8');
            const { descriptor } = sfc.parse(src, { filename: a.path });
            const id = 'x' + path.basename(a.path).replace(/\W/g, '');
            let code = '';
            if (descriptor.scriptSetup) {
                const s = sfc.compileScript(descriptor, { id, inlineTemplate: true });
                code = s.content;
            } else {
                const s = descriptor.script ? sfc.compileScript(descriptor, { id, genDefaultAs: '_sfc_main' }) : { content: 'const _sfc_main = {};' };
                code = s.content;
                if (descriptor.template) {
                    const t = sfc.compileTemplate({
                        source: descriptor.template.content,
                        filename: a.path,
                        id,
                        compilerOptions: { bindingMetadata: s.bindings, expressionPlugins: ['typescript'] },
                    });
                    code += '\n' + t.code.replace('export function render', 'function _sfc_render') + '\n_sfc_main.render = _sfc_render;';
                }
                code += '\nexport default _sfc_main;';
            }
            return { contents: code, loader: 'ts', resolveDir: path.dirname(a.path) };
        });
        b.onLoad({ filter: /\.(css|scss|svg|png)(\?.*)?$/ }, () => ({ contents: 'export default ""', loader: 'js' }));
        b.onResolve({ filter: /\.(css|scss|svg)(\?.*)?$/ }, (a) => ({ path: a.path, namespace: 'empty' }));
        b.onLoad({ filter: /.*/, namespace: 'empty' }, () => ({ contents: 'export default ""', loader: 'js' }));
    },
};

export async function bundle(code, dir, fresh = false) {
    const out = path.join(dir, 'bundle.mjs');
    await esbuild.build({
        stdin: { contents: code, resolveDir: path.join(UI, 'src'), loader: 'ts' },
        bundle: true,
        ...(fresh ? { format: 'iife', globalName: 'M' } : { format: 'esm' }),
        platform: 'node',
        outfile: out,
        logLevel: 'silent',
        plugins: [plugin],
        nodePaths: [path.join(DEPS, 'packages/vlossom/node_modules'), path.join(DEPS, 'packages/vlossom-mcp/node_modules')],
        define: { __VUE_OPTIONS_API__: 'true', __VUE_PROD_DEVTOOLS__: 'false', __VUE_PROD_HYDRATION_MISMATCH_DETAILS__: 'false', 'process.env.NODE_ENV': '"test"', 'import.meta.env.DEV': 'false', 'import.meta.env.PROD': 'true' },
        ...(fresh ? {} : { banner: { js: "import { createRequire as __cr } from 'node:module'; const require = __cr('/repo/packages/vlossom/package.json');" } }),
    });
    return out;
}
export function dom() {
    const req = createRequire(path.join(DEPS, 'packages/vlossom/package.json'));
    const { JSDOM } = req('jsdom');
    const d = new JSDOM('<!doctype html><html><body></body></html>', { pretendToBeVisual: true, url: 'http://localhost/' });
    const g = globalThis;
    g.window = d.window;
    for (const k of ['document', 'HTMLElement', 'Element', 'Node', 'Event', 'KeyboardEvent', 'MouseEvent', 'CustomEvent', 'SVGElement', 'ShadowRoot', 'MutationObserver', 'File', 'Text', 'DOMParser', 'getComputedStyle', 'CSSStyleSheet', 'HTMLInputElement', 'DocumentFragment'])
        if (d.window[k] !== undefined) {
            try {
                g[k] = d.window[k];
            } catch {}
        }
    g.requestAnimationFrame = (f) => d.window.requestAnimationFrame(f);
    g.cancelAnimationFrame = (f) => d.window.cancelAnimationFrame(f);
    g.ResizeObserver = class { observe() {} unobserve() {} disconnect() {} };
    g.IntersectionObserver = class { observe() {} unobserve() {} disconnect() {} };
    return d;
}
/** `fresh`: the result makes new instances of the modules; `own`: { file: names } also to export */
export async function load(code, { fresh = false, own = {} } = {}) {
    for (const [f, names] of Object.entries(own)) expose.set(f, names);
    const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'tsvc-run-'));
    try {
        const f = await bundle(code, dir, fresh);
        if (fresh) {
            const make = new Function('require', fs.readFileSync(f, 'utf8') + ';return M;');
            const require = createRequire('/repo/packages/vlossom/package.json');
            return { fresh: () => make(require) };
        }
        return await import(pathToFileURL(f).href);
    } finally {
        fs.rmSync(dir, { recursive: true, force: true });
    }
}
