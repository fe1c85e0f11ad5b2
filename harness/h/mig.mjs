// Checkpoint/restore of a program of the specification: `Ckpt` is a step that
// leaves every guest-visible variable unchanged, so the output of all process
// lives together must be what the specification predicts for the plain run.
import * as P from '../prog.mjs';
import { runOnce, VFS, cat } from '../host.mjs';
import { judge, crosscheck, ARGS } from './prog.mjs';
const STOP = 'Execution stopped for checkpoint.', RESUMED = 'Resuming execution...\n';
// all lives of one execution; at(life, poll) says whether a request is pending at that poll.
// What the process itself prints is told from the guest's output by the moment:
// after the poll that finds the request, and before the line that says execution resumes.
export function lives(bytes, { mods, modeOf, at, args = ARGS, maxLives = 400, hostOpts, mangle }) {
  const vfs = new VFS({ 'g.wasm': bytes }); const outs = []; let polls = 0;
  for (let life = 0; ; life++) {
    let here = 0, cut = -1;
    const onPoll = (n, v, st) => { here = n; if (at(life, n)) { v.files.set('checkpoint.trigger', new Uint8Array(0)); if (cut < 0) cut = st.outLen; } };
    const a = life === 0 ? [...args, '--cr'] : ['chiwawa', 'g.wasm', '--restore', 'checkpoint.bin', '--cr'];
    const r = runOnce(mods[modeOf(life)], { vfs, args: a, onPoll, maxCalls: 400000, ...hostOpts });
    polls += here;
    let from = 0;
    if (life > 0) { const k = P.indexOf(r.out, RESUMED); if (k < 0) return { why: `restore ${life} failed: ${r.stderr.slice(0, 200) || r.abort || r.stdout.slice(0, 200)}`, life }; from = k + RESUMED.length; }
    const stopped = r.exit === 0 && cut >= 0 && P.indexOf(r.out, STOP, cut) >= 0 && !/Execution Error/.test(r.stderr);
    if (stopped) {
      if (!vfs.files.has('checkpoint.bin')) return { why: 'checkpoint reported but not stored', life };
      if (vfs.files.has('checkpoint.trigger')) return { why: 'request not consumed', life };
      outs.push(r.out.slice(from, cut));
      if (life + 1 >= maxLives) return { why: 'no progress across restores', life };
      continue;
    }
    if (cut >= 0) return { why: `request seen but no checkpoint was taken (exit ${r.exit} ${r.abort ?? ''} ${r.stderr.slice(0, 200)})`, life };
    outs.push(r.out.slice(from)); return { r: { ...r, out: cat(outs) }, life, polls, vfs };
  }
}
export function withDelay(prog, d) {
  const k = prog.main - prog.imps.length, f = prog.funcs[k];
  const funcs = prog.funcs.slice(); funcs[k] = { ...f, code: [...Array(d).fill([['i32.const', 0], ['drop']]).flat(), ...f.code] };
  return { ...prog, funcs };
}
let rng = 12345; const rand = n => { rng = (Math.imul(rng, 1103515245) + 12345) >>> 0; return (rng >>> 8) % n; };
export function handle(rec, { mods, opts }) {
  const exp = P.flatten(rec.out); const stats = { programs: 1, instructions: rec.n, runs: 0, checkpoints: 0 };
  const base = P.compile(rec.prog); const cc = crosscheck(rec, exp, base); if (cc) return { tool: cc, stats };
  const other = m => m === 'tco' ? 'legacy' : 'tco';
  const seen = new Map();
  const plain = (bytes, m) => { if (!seen.has(bytes)) { stats.runs++; seen.set(bytes, runOnce(mods[m], { vfs: new VFS({ 'g.wasm': bytes }), args: [...ARGS, '--cr'], maxCalls: 400000 }).polls); } return seen.get(bytes); };
  const go = (bytes, what, modeOf, at, every = 0) => {
    const v = lives(bytes, { mods, modeOf, at }); stats.runs += v.life + 1; stats.checkpoints += v.life;
    if (v.why) return `${what}: ${v.why}`;
    // a restored execution looks for requests as often as an uninterrupted one
    if (every && v.life < Math.floor(plain(bytes, modeOf(1)) / every) * 0.9 - 1) return `${what}: only ${v.life} of the requests were honoured, an uninterrupted run looks for one ${plain(bytes, modeOf(1))} times`;
    const why = judge(rec, exp, v.r); return why && `${what} (after ${v.life} restores): ${why}`;
  };
  if (opts.chain) {
    // a request at every poll (or every other), dispatchers alternating
    for (const [name, modeOf, every] of [['chain tco/legacy', l => l % 2 ? 'legacy' : 'tco', 1], ['chain legacy/tco', l => l % 2 ? 'tco' : 'legacy', 2], ['chain tco', () => 'tco', 1], ['chain legacy', () => 'legacy', 1]]) {
      const d = rand(1024), bytes = P.compile(withDelay(rec.prog, d));
      const why = go(bytes, `${name}, delay ${d}`, modeOf, (l, n) => n === every, every); if (why) return { viol: why, stats };
    }
    return { stats };
  }
  // how many instructions the runtime counts for this program (folding makes them fewer than wasm's)
  const polled = d => { stats.runs++; const v = new VFS({ 'g.wasm': P.compile(withDelay(rec.prog, d)) }); return runOnce(mods.tco, { vfs: v, args: [...ARGS, '--cr'], maxCalls: 400000 }).polls > 0; };
  let lo = 0, hi = 1024;
  if (polled(0)) hi = 0; else while (hi - lo > 1) { const m = (lo + hi) >> 1; if (polled(m)) hi = m; else lo = m; }
  const n = hi === 0 ? 1024 : 1024 - hi + 1; stats.counted = n;
  const phases = opts.all || n <= opts.phases ? Array.from({ length: n }, (_, i) => i) : Array.from({ length: opts.phases }, () => rand(n));
  for (let i = 0; i < phases.length; i++) {
    const d = Math.max(0, 1024 - phases[i]), bytes = P.compile(withDelay(rec.prog, d));
    const m = i % 2 ? 'legacy' : 'tco', m2 = opts.cross && i % 4 >= 2 ? other(m) : m;
    const why = go(bytes, `checkpoint by ${m}, restore by ${m2}, delay ${d}`, l => l ? m2 : m, (l, n) => l === 0 && n === 1);
    if (why) return { viol: why, stats };
  }
  return { stats };
}
