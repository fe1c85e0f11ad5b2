// Long runs of a shape: how soon a request is honoured, and what the runtime keeps.
import * as P from '../prog.mjs';
import { runOnce, VFS, cat } from '../host.mjs';
import { judge, ARGS } from './prog.mjs';
import { lives } from './mig.mjs';
const le4 = v => [v & 255, (v >>> 8) & 255, (v >>> 16) & 255, (v >>> 24) & 255];
export function enlarge(rec, n) {
  const funcs = rec.prog.funcs.slice(), f = funcs[rec.rep];
  if (rec.top === 'straight') { const body = f.code.slice(0, rec.len), fin = f.code.slice(16 * rec.len); funcs[rec.rep] = { ...f, code: [...Array(n).fill(body).flat(), ...fin] }; }
  else funcs[rec.rep] = { ...f, code: [['i32.const', le4(n)], ...f.code.slice(1)] };
  return { ...rec.prog, funcs };
}
// the enlarged program's outcome comes from V8; the specification's for 16 repetitions is checked as well
function big(rec, instrs) {
  const n = Math.max(16, Math.ceil((instrs - rec.n) / rec.per) + 16), prog = enlarge(rec, n), bytes = P.compile(prog), nat = P.native(bytes);
  const late = !!(nat.err && /NOMEM/.test(nat.err));
  return { n: rec.n + rec.per * (n - 16), reps: n, prog, bytes, rec: { prog, s: nat.s, res: [le4(nat.res[0])] }, exp: Uint16Array.from(nat.out), ok: nat.s === 'done' && !late };
}
export function handle(rec, { mods, opts }) {
  const stats = { programs: 1, instructions: 0, runs: 0, checkpoints: 0, polls: 0 };
  const exp0 = P.flatten(rec.out), nat0 = P.native(P.compile(rec.prog));
  if (nat0.s !== 'done' || P.mismatch(exp0, nat0.out) >= 0 || le4(nat0.res[0]).some((x, i) => x !== rec.res[0][i])) return { tool: `specification and V8 differ on ${rec.prof}: ${nat0.err ?? ''} ${nat0.res} ${rec.res}`, stats };
  const modes = ['tco', 'legacy'];
  if (opts.what === 'delay') {
    const b = big(rec, rec.top === 'straight' ? opts.straight : opts.instrs), B = opts.bound; stats.instructions = b.n;
    if (!b.ok) return { tool: 'V8 ' + b.rec.s, stats };
    for (const m of modes) {
      const r = runOnce(mods[m], { vfs: new VFS({ 'g.wasm': b.bytes }), args: [...ARGS, '--cr'], maxCalls: 400000 }); stats.runs++; stats.polls += r.polls;
      const w = judge(b.rec, b.exp, r); if (w) return { viol: `${rec.prof} ${m}: ${w}`, stats };
      const ratio = b.n / (r.polls + 1); stats.worst = { max: ratio };
      if (opts.measure) continue;
      if (ratio > B) return { viol: `${rec.prof} ${m}: ${r.polls} looks for a request in ${b.n} instructions`, stats };
    }
    if (opts.once) {                                   // one request, late in a long run
      const polls = Math.floor(b.n / 1200);
      for (const [a, c] of [['tco', 'legacy'], ['legacy', 'tco']]) {
        const v = lives(b.bytes, { mods, modeOf: l => l ? c : a, at: (l, n) => l === 0 && n === Math.floor(polls * 0.6) + 1 }); stats.runs += v.life + 1; stats.checkpoints += v.life;
        const w = v.why ?? judge(b.rec, b.exp, v.r); if (w) return { viol: `${rec.prof} ${a} to ${c}: ${w}`, stats };
        if (b.n / (v.polls + 1) > B) return { viol: `${rec.prof} ${a} to ${c}: ${v.polls} looks for a request in ${b.n} instructions`, stats };
      }
      return { stats };
    }
    // a request pending at each look: every life advances, and by a bounded amount
    for (const [name, modeOf] of [['tco', () => 'tco'], ['legacy', () => 'legacy'], ['alternating', l => modes[l % 2]]]) {
      const v = lives(b.bytes, { mods, modeOf, at: (l, n) => n === 1, maxLives: 2000 }); stats.runs += v.life + 1; stats.checkpoints += v.life;
      const w = v.why ?? judge(b.rec, b.exp, v.r); if (w) return { viol: `${rec.prof} ${name} (life ${v.life}): ${w}`, stats };
      if (b.n / (v.life + 1) > B && !opts.measure) return { viol: `${rec.prof} ${name}: pending requests were honoured only ${v.life} times in ${b.n} instructions`, stats };
    }
    return { stats };
  }
  // what the runtime keeps: its memory, and the stored checkpoint
  const b = big(rec, rec.top === 'straight' ? 15000 : opts.instrs); stats.instructions = b.n; if (!b.ok) return { tool: 'V8 ' + b.rec.s, stats };
  for (const m of modes) {
    const sizes = []; let host;
    const r = runOnce(mods[m], { vfs: new VFS({ 'g.wasm': b.bytes }), args: [...ARGS, '--cr'], maxCalls: 1e8, onMemory: x => { host = x; }, onPoll: () => { sizes.push(host().buffer.byteLength); } }); stats.runs++; stats.polls += r.polls;
    const w = judge(b.rec, b.exp, r); if (w) return { viol: `${rec.prof} ${m}: ${w}`, stats };
    const k = sizes.length, q = sizes[k >> 3], grown = sizes[k - 1] - q; stats.grown = { max: grown };
    if (k > 40 && grown > opts.slack) return { viol: `${rec.prof} ${m}: the runtime's memory grew by ${grown} bytes between look ${k >> 3} and look ${k} of a program whose own state does not grow`, stats };
    if (k < 40) continue;
    // the stored state early and late
    const ck = p => { const v = new VFS({ 'g.wasm': b.bytes }); runOnce(mods[m], { vfs: v, args: [...ARGS, '--cr'], maxCalls: 1e8, onPoll: (n, v) => { if (n === p) v.files.set('checkpoint.trigger', new Uint8Array(0)); } }); stats.runs++; stats.checkpoints++; return v.files.get('checkpoint.bin')?.length ?? -1; };
    const early = [], late = []; for (let i = 0; i < opts.probes; i++) { early.push(ck(3 + i)); late.push(ck(k - 2 - i)); }
    if ([...early, ...late].some(x => x < 0)) return { viol: `${rec.prof} ${m}: no checkpoint was stored`, stats };
    const e = Math.max(...early), l = Math.max(...late); stats.ckgrown = { max: l - e };
    if (l > e + opts.ckslack) return { viol: `${rec.prof} ${m}: a checkpoint near the end takes ${l} bytes, near the beginning at most ${e}`, stats };
  }
  return { stats };
}
