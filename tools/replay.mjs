// replay.mjs FILE...: runs recorded cases again on the current build (.work/b, or
// VERIF_OUT): the replay file of a violation, or a corpus written with VERIF_DUMP.
// Prints the first STOP violations (default 3) and exits 1 if there was one.
import { createReadStream, readFileSync } from 'fs';
import readline from 'readline';
import { Pool } from '../harness/pool.mjs';
const out = process.env.VERIF_OUT ?? new URL('../.work/b', import.meta.url).pathname, max = Number(process.env.STOP ?? 3);
const pool = new Pool(out, 8, Number(process.env.LIMIT ?? 30000)); let n = 0, bad = 0, tools = 0;
const known = readFileSync(new URL('../known_findings', import.meta.url), 'utf8');
const done = async () => { await pool.close(); console.log(`${n} cases, ${bad} violations, ${tools} tool errors`); process.exit(bad ? 1 : tools ? 2 : 0); };
const give = j => pool.run(j.handler, j.lines, j.opts).then(rs => rs.forEach(r => {
  n++; if (r.tool) { if (!tools++) console.log('TOOL ' + r.tool); return; }
  if (r.hang) r.viol = 'no answer within the time limit';
  if (!r.viol || (r.key && known.includes(`key=${r.key} `))) return;
  if (bad++ < max) console.log(`${j.from ?? ''} ${r.viol}`.trim().slice(0, 300)); if (bad >= max) done();
}));
for (const f of process.argv.slice(2)) {
  const from = process.argv.length > 3 ? f.replace(/.*\//, '') : undefined;
  for await (const l of readline.createInterface({ input: createReadStream(f), crlfDelay: Infinity })) {
    if (!l) continue; const j = JSON.parse(l); give({ handler: j.handler, opts: j.opts, lines: j.lines ?? [j.line], from });
    while (pool.backlog > 60) await new Promise(r => setTimeout(r, 20));
  }
}
await pool.idleAll(); await done();
