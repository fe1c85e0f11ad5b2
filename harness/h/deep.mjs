// Deep recursion: the outcome on both dispatchers, and after checkpoints taken
// at drawn moments on the way down and on the way up.
import * as P from '../prog.mjs';
import { runOnce, VFS } from '../host.mjs';
import { judge, crosscheck, ARGS } from './prog.mjs';
import { lives } from './mig.mjs';
let rng = 4321; const rand = n => { rng = (Math.imul(rng, 1103515245) + 12345) >>> 0; return (rng >>> 8) % n; };
export function handle(rec, { mods, opts }) {
  const bytes = P.compile(rec.prog), exp = P.flatten(rec.out), modes = ['tco', 'legacy'];
  const stats = { programs: 1, instructions: rec.n, levels: { max: rec.levels }, runs: 0, checkpoints: 0 };
  const cc = crosscheck(rec, exp, bytes); if (cc) return { tool: cc, stats };
  let polls = 0;
  for (const m of modes) {
    const r = runOnce(mods[m], { vfs: new VFS({ 'g.wasm': bytes }), args: opts.ck ? [...ARGS, '--cr'] : ARGS, maxCalls: 400000 }); stats.runs++; polls = r.polls;
    const w = judge(rec, exp, r); if (w) return { viol: `${rec.levels} levels, ${m}: ${w}`, stats };
  }
  if (opts.ck) {
    if (polls < 4) return { viol: `only ${polls} looks for a request in ${rec.n} instructions`, stats };
    const plans = [];
    for (let i = 0; i < opts.ck; i++) { const k = 1 + rand(polls); plans.push([`checkpoint at look ${k} of ${polls}`, (l, n) => l === 0 && n === k, l => modes[(i + (l && i & 2 ? 1 : 0)) % 2]]); }
    if (opts.chain) { const e = Math.max(1, Math.floor(polls / opts.chain)); for (const s of [0, 1]) plans.push([`checkpoint at every ${e}. look of ${polls}`, (l, n) => n === e, l => modes[(l + s) % 2]]); }
    for (const [what, at, modeOf] of plans) {
      const v = lives(bytes, { mods, modeOf, at }); stats.runs += v.life + 1; stats.checkpoints += v.life;
      const w = v.why ?? judge(rec, exp, v.r); if (w) return { viol: `${rec.levels} levels, ${what}, ${modeOf(0)} to ${modeOf(1)} (life ${v.life}): ${w}`, stats };
    }
  }
  return { stats };
}
