#!/usr/bin/env python3
"""python3 tools/plant.py < spec.py   (spec: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO=js)
Writes seeded/<ID>/ from a spec: patch.diff made by editing /repo and diffing, demo.mjs + its library, meta.json."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(sys.stdin.read(), g)
d = os.path.join(ROOT, 'seeded', g['ID'])
os.makedirs(d, exist_ok=True)
assert subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout == '', 'repo not clean'
try:
    for f, a, b in g['EDITS']:
        p = '/repo/packages/' + f
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
open(os.path.join(d, 'demo.mjs'), 'w').write("import { load, dom, mount, check, done, tick } from './lib.mjs';\n" + g['DEMO'].strip() + "\ndone();\n")
lib = open(os.path.join(ROOT, 'replay/bundle.mjs')).read() + open(os.path.join(ROOT, 'replay/mount.mjs')).read()
lib += """
let bad = 0;
console.warn = console.error = () => {};
export function check(what, got, want) {
    const a = JSON.stringify(got), b = JSON.stringify(want);
    if (a !== b) { bad++; console.log(`${what}: got ${a}, expected ${b}`); }
}
export const tick = (ms = 0) => new Promise((r) => setTimeout(r, ms));
export function done() { process.exit(bad ? 1 : 0); }
process.on('uncaughtException', (e) => { console.log(e); process.exit(2); });
"""
open(os.path.join(d, 'lib.mjs'), 'w').write(lib)
open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec node "$(cd "$(dirname "$0")" && pwd)/demo.mjs"\n')
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
# demo on both trees
r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo').returncode
subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
try:
    r1 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo').returncode
    subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/plant-test.json'], capture_output=True)
    t = json.load(open('/tmp/plant-test.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base.get('stable') or base.get('passed') or [])
    lost = sorted(stable - set(t['passed']))
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
print(g['ID'], 'unchanged', r0, 'patched', r1, 'OK' if r0 == 0 and r1 and not lost else 'WRONG', 'tests lost:', lost[:3])
