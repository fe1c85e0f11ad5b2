// The two dispatchers side by side, with a checkpoint request at the same look:
// what the guest causes at the host, in order, over all process lives together.
import * as P from '../prog.mjs';
import { runOnce, VFS } from '../host.mjs';
import { judge, crosscheck, ARGS } from './prog.mjs';
import { lives, withDelay } from './mig.mjs';
let rng = 999; const rand = n => { rng = (Math.imul(rng, 1103515245) + 12345) >>> 0; return (rng >>> 8) % n; };
// the runtime's own lines about checkpoints are its business
const OWN = /^(Checkpoint|Runtime (handling|reconstructed)|Restor|State restored|Memory state|Global state|Frame module|Execution stopped|  [a-z_ ]+:)/;
export function handle(rec, { mods, opts }) {
  const exp = P.flatten(rec.out), stats = { programs: 1, instructions: rec.n, runs: 0, checkpoints: 0 };
  const cc = crosscheck(rec, exp, P.compile(rec.prog)); if (cc) return { tool: cc, stats };
  for (let i = 0; i < opts.reps; i++) {
    const d = rand(1024), bytes = P.compile(withDelay(rec.prog, d)), res = {};
    const polls = runOnce(mods.tco, { vfs: new VFS({ 'g.wasm': bytes }), args: [...ARGS, '--cr'], maxCalls: 400000 }).polls; stats.runs++;
    const k = 1 + rand(polls + 1);                     // sometimes a request that comes too late
    for (const m of ['tco', 'legacy']) {
      const log = []; const onMeaning = (c, a) => { if (c === 'sched_yield') log.push(c); else if (c === 'fd_write' && a[0] === 1 && !OWN.test(a[2])) log.push(a[2]); };
      const v = lives(bytes, { mods, modeOf: () => m, at: (l, n) => l === 0 && n === k, hostOpts: { onMeaning } }); stats.runs += v.life + 1; stats.checkpoints += v.life;
      const w = v.why ?? judge(rec, exp, v.r); if (w) return { viol: `${m}, delay ${d}, request at look ${k}: ${w}`, stats };
      res[m] = { log: log.join('\n'), end: `${v.r.exit} ${v.r.abort ?? ''}` };
    }
    if (res.tco.log !== res.legacy.log) { const [a, b] = ['tco', 'legacy'].map(m => res[m].log.split('\n')), i = a.findIndex((x, i) => x !== b[i]); return { viol: `delay ${d}, request at look ${k}: the dispatchers make different host calls: ${JSON.stringify(a[i])} / ${JSON.stringify(b[i])}`.slice(0, 400), stats }; }
    if (res.tco.end !== res.legacy.end) return { viol: `delay ${d}, request at look ${k}: the dispatchers end differently: ${res.tco.end} / ${res.legacy.end}`.slice(0, 300), stats };
  }
  return { stats };
}
