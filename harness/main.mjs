// main.mjs ID quick|thorough : decides one property.  See DESIGN.md.
import { spawn } from 'child_process';
import { mkdirSync, writeFileSync, appendFileSync, readFileSync, existsSync, rmSync } from 'fs';
import { Pool } from './pool.mjs';
import { runTlc } from './tlc.mjs';
import { checks } from './checks.mjs';
const [id, tierArg] = process.argv.slice(2);
const tier = tierArg ?? process.env.VERIF_TIER ?? 'quick';
const seed = Number(process.env.VERIF_SEED ?? 1);
const ROOT = new URL('..', import.meta.url).pathname.replace(/\/$/, '');
const check = checks[id]; if (!check) { console.error('unknown property ' + id); process.exit(2); }
const work = `${ROOT}/.work/run-${id}-${process.pid}`; mkdirSync(work, { recursive: true });
const t0 = Date.now(); const el = () => ((Date.now() - t0) / 1000).toFixed(1);
const OUT = process.env.VERIF_OUT ?? `${ROOT}/.work/b`;
const known = existsSync(`${ROOT}/known_findings`) ? readFileSync(`${ROOT}/known_findings`, 'utf8').split('\n').filter(l => l.startsWith('finding: ')).map(l => { const m = l.match(/^finding: property=(\S+) key=(\S+) (.*)$/); return m && { prop: m[1], key: m[2], text: m[3] }; }).filter(k => k && k.prop === id) : [];
const cov = { states: 0, transitions: 0, traces_validated_against_impl: 0, samples: [] };
const viols = [], tools = []; const hitKnown = new Map(); let stop = false;
const add = s => { for (const k in s) cov[k] = typeof s[k] === 'object' ? Math.max(cov[k] ?? 0, s[k].max) : (cov[k] ?? 0) + s[k]; };
function cleanup() { rmSync(work, { recursive: true, force: true }); }
process.on('exit', cleanup); for (const s of ['SIGTERM', 'SIGINT']) process.on(s, () => { for (const t of tlcs) t.info.kill(); process.exit(2); });
const tlcs = [];

const build = process.env.VERIF_OUT ? Promise.resolve(0) : new Promise(r => { const p = spawn('bash', [`${ROOT}/harness/build.sh`, OUT], { stdio: 'inherit' }); p.on('exit', r); });
const jobs = check.jobs(tier, seed);
let pool = null; const early = []; const traces = new Map(), collected = {};
const MAXV = 3;
function record(rec, r, handler, opts) {
  if (r.stats) add(r.stats);
  if (r.tool) { tools.push(r.tool); if (tools.length <= 3) console.error(`TOOL-ERROR ${r.tool}`); if (process.env.VERIF_KEEP) writeFileSync(`${ROOT}/.work/tool-${tools.length}.json`, JSON.stringify({ handler, opts, line: rec })); return; }
  if (r.traces) for (const t of r.traces) { const s = JSON.stringify(t); if (!traces.has(s)) traces.set(s, rec); }
  if (r.hang) r.viol = 'no answer within the time limit';
  if (!r.viol) { cov.traces_validated_against_impl++; if (cov.samples.length < 2 && r.sample !== null) cov.samples.push(r.sample ?? sample(rec)); return; }
  const k = r.key && known.find(k => k.key === r.key); if (k) { hitKnown.set(k.key, k); return; }
  viols.push({ why: r.viol, rec, handler, opts });
  if (viols.length >= MAXV) { stop = true; for (const t of tlcs) t.info.kill(); }
}
const sample = rec => { const s = typeof rec === 'string' ? rec : JSON.stringify(rec); let o = s; try { o = rec[0] === '"' ? JSON.parse(rec) : s; } catch {} return o.slice(0, 1500); };
const CH = 6;
function submit(lines, handler, opts) {
  if (stop) return;
  if (process.env.VERIF_DUMP) appendFileSync(process.env.VERIF_DUMP, JSON.stringify({ handler, opts, lines }) + '\n');
  if (!pool) { early.push([lines, handler, opts]); return; }
  pool.run(handler, lines, opts).then(rs => rs.forEach((r, i) => record(lines[i], r, handler, opts)));
}
async function runJob(j, i) {
  if (j.use) j.opts = { ...j.opts, ...collected };
  if (j.static) { const all = j.static; for (let k = 0; k < all.length; k += (j.chunk ?? CH)) submit(all.slice(k, k + (j.chunk ?? CH)), j.handler, j.opts); return; }
  let buf = []; const ch = j.chunk ?? CH; const seen = j.unique ? new Set() : null;
  const t = runTlc(j.tlc, { work, seed: seed * 1000 + i, timeMs: j.timeMs, onLine: l => {
    if (j.collect) { (collected[j.collect] ??= []).push(l); return; }
    if (j.handler === null || stop) return; if (seen) { if (seen.has(l)) return; seen.add(l); }
    buf.push(l); if (buf.length >= ch) { submit(buf, j.handler, j.opts); buf = []; }
  } });
  tlcs.push(t);
  const bp = setInterval(() => { if (pool && pool.backlog > 400) t.pause(); else t.resume(); }, 100);
  const info = await t.done; clearInterval(bp);
  if (buf.length) submit(buf, j.handler, j.opts);
  cov.states += info.distinct; cov.transitions += info.states;
  if (info.error && !stop) { tools.push(`TLC failed on ${j.tlc.module}`); console.error(info.log.slice(-40).join('\n')); }
}
// TLC jobs run a few at a time, while the build is going on
const queue = jobs.map((j, i) => [j, i]); const par = check.par ?? 1;
const jobsDone = Promise.all(Array.from({ length: par }, async () => { while (queue.length && !stop) { const [j, i] = queue.shift(); await runJob(j, i); } }));
const rc = await build;
if (rc !== 0) { console.error('build failed'); for (const t of tlcs) t.info.kill(); process.exit(2); }
const tb = el();
pool = new Pool(OUT, 8, check.limitMs ?? 30000);
for (const [l, h, o] of early.splice(0)) submit(l, h, o);
await jobsDone;
while (!stop && (pool.pending || pool.backlog)) await new Promise(r => setTimeout(r, 50));
if (check.traces && !stop && traces.size) {
  const f = process.env.VERIF_KEEP ? `${ROOT}/.work/traces.ndjson` : `${work}/traces.ndjson`, all = [...traces.keys()]; writeFileSync(f, all.join('\n') + '\n'); let rejected = 0;
  const t = runTlc({ ...check.traces, env: { TRACES: f } }, { work, seed, onLine: l => {
    const m = JSON.parse(JSON.parse(l)); if (++rejected > MAXV) return; const tr = JSON.parse(all[m.reject - 1]);
    viols.push({ why: `not a behaviour of ${check.traces.of}: event ${m.at} ${m.ev} in state ${m.st}; history ${JSON.stringify(tr.ev.slice(0, m.at)).slice(0, 1500)}`, rec: traces.get(all[m.reject - 1]), handler: jobs.at(-1).handler, opts: null });
  } });
  tlcs.push(t); const info = await t.done; cov.trace_states = info.distinct; cov.distinct_traces = all.length; cov.states += info.distinct; cov.transitions += info.states;
  if (info.error && !info.killed) { tools.push('TLC failed on the recorded traces'); console.error(info.log.slice(-30).join('\n')); }
}
if (check.after && !stop) { const r = await check.after({ cov, work, tier, seed, runTlc, tools }); if (r) for (const v of r) viols.push(v); }
await pool.close();
cov.evaluations = cov.runs ?? cov.traces_validated_against_impl;
mkdirSync(`${ROOT}/evidence`, { recursive: true });
const wall = (Date.now() - t0) / 1000;
writeFileSync(`${ROOT}/evidence/${id}.json`, JSON.stringify({ property: id, tier, seed, level: check.level ?? 'model_checking', coverage: cov, wall_s: wall, violations: viols.length, assumptions: check.assumptions ?? [] }, null, 1));
for (const k of hitKnown.values()) console.log(`KNOWN-FINDING: property=${id} ${k.text}`);
for (const k of known) if (!hitKnown.has(k.key)) console.error(`note: known finding ${k.key} was not exercised in this run`);
if (viols.length) {
  mkdirSync(`${ROOT}/.work/replay`, { recursive: true });
  viols.forEach((v, i) => {
    const f = `${ROOT}/.work/replay/${id}-${i}.json`; writeFileSync(f, JSON.stringify({ property: id, why: v.why, handler: v.handler, opts: v.opts, line: v.rec }));
    console.error(`  ${v.why}`);
    console.log(`VIOLATION property=${id} replay=${f}`);
  });
  process.exit(1);
}
const { samples, ...nums } = cov;
console.log(`${id} ${tier}: build ${tb}s, total ${wall.toFixed(1)}s ${JSON.stringify(nums)}`);
if (tools.length) { console.error(`${tools.length} tool errors; first: ${tools[0]}`); process.exit(2); }
if (!cov.traces_validated_against_impl) { console.error('nothing was checked'); process.exit(2); }
process.exit(0);
