// Other encodings of one program, spelled out by Enc.tla: all mean the same.
import * as P from '../prog.mjs';
import { judge, crosscheck, ARGS } from './prog.mjs';
import { runOnce, VFS } from '../host.mjs';
export function handle(rec, { mods }) {
  const exp = P.flatten(rec.out), stats = { programs: 1, encodings: rec.bytes.length, bytes: 0, runs: 0, [rec.s]: 1 };
  rec.bytes.forEach((b, i) => { stats.bytes += b.length; });
  for (const [i, b] of rec.bytes.entries()) {
    const bytes = Uint8Array.from(b);
    const cc = crosscheck(rec, exp, bytes); if (cc) return { tool: cc, stats };
    for (const mode of ['tco', 'legacy']) {
      const r = runOnce(mods[mode], { vfs: new VFS({ 'g.wasm': bytes }), args: ARGS, maxCalls: 200000 }); stats.runs++;
      const why = judge(rec, exp, r); if (why) return { viol: `${mode}: encoding ${i + 1} (${b.length} bytes): ${why}`, stats };
    }
  }
  return { stats };
}
