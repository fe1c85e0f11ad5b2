// Runs TLC on a module of spec/ with a generated configuration.
import { spawn } from 'child_process';
import { writeFileSync, mkdirSync } from 'fs';
import readline from 'readline';
const CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar';
let n = 0;
export const tlaValue = v => Array.isArray(v) ? '{' + v.map(tlaValue).join(', ') + '}' : typeof v === 'string' ? JSON.stringify(v) : typeof v === 'boolean' ? (v ? 'TRUE' : 'FALSE') : String(v);
// job: {module, consts, inv, props, post, sim:{num}, workers, spec, heap}
export function runTlc(job, { work, seed, onLine, timeMs }) {
  const dir = `${work}/tlc${n++}`; mkdirSync(dir, { recursive: true });
  let cfg = '';
  const cs = Object.entries(job.consts ?? {});
  if (cs.length) cfg += 'CONSTANTS\n' + cs.map(([k, v]) => `  ${k} = ${tlaValue(v)}\n`).join('');
  cfg += job.spec ? `SPECIFICATION ${job.spec}\n` : 'INIT Init\nNEXT Next\n';
  for (const i of job.inv ?? []) cfg += `INVARIANT ${i}\n`;
  for (const i of job.props ?? []) cfg += `PROPERTY ${i}\n`;
  if (job.view) cfg += `VIEW ${job.view}\n`;
  if (job.constraint) cfg += `CONSTRAINT ${job.constraint}\n`;
  if (job.post) cfg += `POSTCONDITION ${job.post}\n`;
  cfg += 'CHECK_DEADLOCK FALSE\n';
  writeFileSync(`${dir}/m.cfg`, cfg);
  const workers = job.workers ?? 8;
  const args = ['-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4', `-Xmx${job.heap ?? '3g'}`, '-Xss64m', `-Djava.io.tmpdir=${dir}`, '-cp', CP, 'tlc2.TLC', '-workers', String(workers), '-metadir', `${dir}/md`, '-config', `${dir}/m.cfg`, '-noGenerateSpecTE'];
  if (job.sim) args.push('-simulate', `num=${job.sim.num}`, '-depth', '1000000', '-seed', String(seed), '-aril', '0');
  args.push(`${job.module}.tla`);
  const p = spawn('java', args, { cwd: new URL('../spec', import.meta.url).pathname, env: { ...process.env, ...(job.env ?? {}) } });
  const info = { states: 0, distinct: 0, traces: 0, log: [], killed: false, lines: 0 };
  const rl = readline.createInterface({ input: p.stdout, crlfDelay: Infinity });
  rl.on('line', l => {
    if (l.startsWith('"{') || l.startsWith('"[')) { info.lines++; onLine(l); return; }
    let m;
    if ((m = l.match(/^(\d+) states generated.*?(\d+) distinct/))) { info.states = +m[1]; info.distinct = +m[2]; }
    if ((m = l.match(/^Progress: (\d+) states checked, (\d+) traces/))) { info.states = +m[1]; info.distinct = +m[1]; info.traces = +m[2]; }
    if ((m = l.match(/^The number of states generated: (\d+)/))) { info.states = +m[1]; info.distinct = +m[1]; }
    if (!/^(Parsing file|Semantic processing|Linting)/.test(l)) info.log.push(l); if (info.log.length > 4000) info.log.splice(0, 2000);
  });
  p.stderr.on('data', d => info.log.push(String(d)));
  let timer;
  const done = new Promise(resolve => {
    let closed = 0, code = null; const fin = () => { if (++closed === 2) { clearTimeout(timer); info.code = code; info.error = !info.killed && code !== 0; resolve(info); } };
    p.on('exit', c => { code = c; fin(); }); rl.on('close', fin);
  });
  info.kill = () => { if (!info.killed) { info.killed = true; p.kill('SIGKILL'); } };
  if (timeMs) timer = setTimeout(info.kill, timeMs);
  return { info, done, pause: () => p.stdout.pause(), resume: () => p.stdout.resume() };
}
