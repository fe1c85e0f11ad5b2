// A program of the specification, run on both dispatchers; the prediction is the
// specification's, cross-checked against V8 so that a slip of the specification
// is reported as such and never blamed on the runtime.
import * as P from '../prog.mjs';
import { runOnce, VFS } from '../host.mjs';
export const ARGS = ['chiwawa', 'g.wasm', '--invoke', 'f'];
const fmtInt = (v, n) => { let r = 0n; for (let i = n - 1; i >= 0; i--) r = (r << 8n) | BigInt(v[i]); return BigInt.asIntN(8 * n, r).toString(); };
// judge one run against the prediction; returns null or a reason
export function judge(rec, exp, r) {
  const trap = P.trapped(r);
  if (r.abort && /budget/.test(r.abort)) return 'runaway host calls: ' + r.abort;
  if (rec.s === 'trap') {
    if (!trap) return 'no trap reported';
    if (P.lastIndexOf(r.out, 'Result: ') >= exp.length) return 'a result was reported after a trap';
    const at = P.mismatch(exp, r.out); return at < 0 ? null : `output before the trap differs at byte ${at}`;
  }
  if (trap) return 'reported as failed: ' + (r.abort ? r.abort + ' ' : '') + r.stderr.slice(0, 200);
  let body = r.out;
  if (rec.res.length) {
    const t = rec.prog.funcs[rec.prog.main - rec.prog.imps.length].sig[1];
    const p = P.lastIndexOf(r.out, 'Result: '); if (p < 0) return 'no result reported';
    body = r.out.slice(0, p); const tail = new TextDecoder().decode(r.out.slice(p)).trim();
    const k = t.length - 1, v = rec.res[k];
    if (t[k] === 'i32' || t[k] === 'i64') { const want = `Result: Num(${t[k].toUpperCase()}(${fmtInt(v, v.length)}))`; if (tail !== want) return `reported ${tail}, expected ${want}`; }
    else if (t[k] === 'f32' || t[k] === 'f64') {
      const m = tail.match(/^Result: Num\(F(32|64)\((.*)\)\)$/); if (!m) return `reported ${tail}`;
      if (v[0] > 255) { if (m[2] !== 'NaN') return `reported ${tail}, expected a NaN`; }
      else { const d = new DataView(Uint8Array.from(v).buffer), w = v.length === 4 ? d.getFloat32(0, true) : d.getFloat64(0, true); const g = m[2] === 'inf' ? Infinity : m[2] === '-inf' ? -Infinity : Number(m[2]); const g2 = v.length === 4 ? Math.fround(g) : g; if (!Object.is(g2, w)) return `reported ${tail}, expected ${w}`; }
    }
  } else if (P.lastIndexOf(body, 'Result: ') >= exp.length) return 'a result was reported by a function without results';
  const at = P.mismatch(exp, body);
  return at < 0 ? null : `output differs at byte ${at} of ${exp.length} (got ${body.length}): expected ${[...exp.slice(Math.max(0, at - 2), at + 10)]}, got ${[...body.slice(Math.max(0, at - 2), at + 10)]}`;
}
export function crosscheck(rec, exp, bytes) {
  const n = P.native(bytes);
  if (n.err && /NOMEM/.test(n.err)) return null;
  if (n.s !== rec.s) return `specification says ${rec.s}, V8 says ${n.s} ${n.err ?? ''}`;
  const at = P.mismatch(exp, n.out); return at < 0 ? null : `specification and V8 differ at output byte ${at}: ${[...exp.slice(at, at + 8)]} / ${[...n.out.slice(at, at + 8)]}`;
}
export function handle(rec, { mods, opts }) {
  const bytes = P.compile(rec.prog, opts?.compile), exp = P.flatten(rec.out);
  const stats = { programs: 1, instructions: rec.n, runs: 0, [rec.s]: 1, ...(rec.words ? { sequences: rec.words } : {}) };
  const cc = crosscheck(rec, exp, bytes); if (cc) return { tool: cc, stats };
  const logs = [];
  for (const mode of ['tco', 'legacy']) {
    const log = opts?.log ? [] : null;
    const r = runOnce(mods[mode], { vfs: new VFS({ 'g.wasm': bytes }), args: ARGS, onMeaning: log && ((k, m) => { if (!(k === 'fd_write' && m[0] === 2)) log.push(k + ' ' + m.join(' ')); }), maxCalls: 200000 });
    stats.runs++;
    const why = judge(rec, exp, r); if (why) return { viol: `${mode}: ${why}`, stats };
    if (log) logs.push(log.join('\n'));
  }
  if (logs.length === 2 && logs[0] !== logs[1]) { const [a, b] = logs.map(l => l.split('\n')), i = a.findIndex((x, i) => x !== b[i]); return { viol: `the dispatchers make different host calls: ${JSON.stringify(a[i])} / ${JSON.stringify(b[i])}`.slice(0, 400), stats }; }
  return { stats };
}
