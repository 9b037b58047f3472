// node engine/worker.mjs <property> <contract> <tier>: verifies one contract, prints the report as JSON
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { verifyProperty } from './verify.mjs';
const [id, name, tier] = process.argv.slice(2);
const mod = await import(path.join(path.dirname(fileURLToPath(import.meta.url)), '..', 'contracts', id + '.mjs'));
const r = await verifyProperty(mod, { tier, only: name });
process.stdout.write(JSON.stringify({ ...r, functions: [...r.functions], assumed: [...r.assumed] }), () => process.exit(0));
