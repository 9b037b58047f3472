// Checks that the tools the checks use are present; nothing to build.
import { execFileSync } from 'node:child_process';
import fs from 'node:fs';
for (const [c, a] of [['z3', ['--version']], ['cvc5', ['--version']], ['z3-new', ['--version']]]) console.log(String(execFileSync(c, a)).split('\n')[0]);
for (const d of ['typescript', 'esbuild', '@vue/compiler-sfc']) if (!fs.existsSync(`/opt/veriftools/node/node_modules/${d}`)) throw new Error('missing ' + d);
// the counting lemmas the generator relies on, checked where Lean is installed
try {
    execFileSync('lean', ['--version']);
    execFileSync('lean', ['lemmas/Count.lean'], { stdio: 'inherit' });
    console.log('lemmas checked');
} catch (e) {
    console.log(e.code === 'ENOENT' ? 'lemmas not checked: no lean' : 'LEMMAS NOT PROVED: see above');
}
// the generator accepts correct bodies and refuses broken ones
try {
    execFileSync(process.execPath, ['selftest/run.mjs'], { stdio: 'inherit' });
} catch {
    console.log('SELFTEST FAILED: see above');
}
console.log('ok');
