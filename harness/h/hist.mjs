// A history of large memory operations: the bytes the specification predicts at its
// sample addresses, and -- once V8 agrees with all of those -- V8's whole memory.
import * as P from '../prog.mjs';
import { runOnce, VFS } from '../host.mjs';
import { ARGS } from './prog.mjs';
export function handle(rec, { mods }) {
  const bytes = P.compile(rec.prog), stats = { histories: 1, operations: rec.n, samples: rec.at.length, runs: 0 };
  const nat = P.native(bytes);
  if (nat.s !== 'done' || nat.out.length !== rec.size || nat.res[0] * 65536 !== rec.size) return { tool: `V8: ${nat.s} ${nat.err} ${nat.out.length} of ${rec.size}`, stats };
  const off = rec.at.find(([a, b]) => nat.out[a] !== b); if (off) return { tool: `specification and V8 differ at ${off}: ${nat.out[off[0]]}`, stats };
  for (const mode of ['tco', 'legacy']) {
    const r = runOnce(mods[mode], { vfs: new VFS({ 'g.wasm': bytes }), args: ARGS, maxCalls: 10000 }); stats.runs++;
    const want = `Result: Num(I32(${rec.size / 65536}))\n`;
    if (P.trapped(r)) return { viol: `${mode}: reported as failed: ${r.abort ?? ''} ${r.stderr.slice(0, 200)}`, stats };
    const tail = new TextDecoder().decode(r.out.slice(rec.size)); if (tail !== want) return { viol: `${mode}: ${r.out.length} bytes, ending ${JSON.stringify(tail.slice(-40))}`, stats };
    const s = rec.at.find(([a, b]) => r.out[a] !== b); if (s) return { viol: `${mode}: memory[${s[0]}] is ${r.out[s[0]]}, the history makes it ${s[1]}`, stats };
    for (let i = 0; i < rec.size; i++) if (r.out[i] !== nat.out[i]) return { viol: `${mode}: memory[${i}] is ${r.out[i]}, the history makes it ${nat.out[i]}`, stats };
  }
  return { stats };
}
