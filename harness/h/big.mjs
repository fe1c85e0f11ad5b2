// Expands the plans of Big.tla at full size and runs them on both dispatchers.
// The formula's prediction is cross-checked against V8.
import { encodeModule } from '../asm.mjs';
import * as P from '../prog.mjs';
import { runOnce, VFS } from '../host.mjs';
import { lives } from './mig.mjs';
const aff = ([a, c, b, m], i, s) => { const v = a * i + c * s + b; return m ? ((v % m) + m) % m : v; };
const expand = (runs, f) => { const r = []; for (const { n, of } of runs) for (let i = 0; i < n; i++) for (const x of of) r.push(f(x, i)); return r; };
const same = x => x;
const bits = (w, s) => Array.from({ length: w }, (_, j) => (s >> j) & 1 ? 'i64' : 'i32');
const sigOf = (q, s) => [[...bits(q.bits ?? 0, s), ...expand(q.p, same)], expand(q.r, same)];
const IMP = { sched_yield: [[], ['i32']], fd_write: [['i32', 'i32', 'i32', 'i32'], ['i32']] };
export function build(p) {
  const tt = new P.TypeTable();
  const sigs = new Map(), cached = (q, s) => { if (q.bits) return tt.add(sigOf(q, s)); let k = sigs.get(q); if (k === undefined) sigs.set(q, k = tt.add(sigOf(q, s))); return k; };
  const bt = ([ps, rs]) => !ps.length && rs.length <= 1 ? rs[0] ?? '' : tt.add([ps, rs]);
  const ins = (x, i, s) => {
    switch (x[0]) {
      case '@': return [x[1], aff(x[2], i, s)];
      case 'brt': return ['br_table', expand(x[1], (y, j) => aff(y, j, s)), x[2]];
      case 'blk': return [x[1], bt(sigOf(x[2], 0))];
      case 'ci': return ['call_indirect', cached(x[1], aff(x[2], i, s)), aff(x[3], i, s)];
      case 'block': case 'loop': case 'if': return [x[0], bt(x[1])];
    }
    return x;
  };
  const imps = expand(p.imps, same), nimp = imps.map(n => tt.add(IMP[n]));
  const funcs = expand(p.funcs, (f, s) => ({ type: cached(f, s), localRuns: f.loc.flatMap(r => r.of.length === 1 ? [[r.n, r.of[0]]] : expand([r], t => [1, t])), body: expand(f.code, (x, i) => ins(x, i, s)) }));
  const exports = p.exports ? Array.from({ length: p.exports }, (_, i) => ({ name: (p.long && i === p.invoke ? 'x'.repeat(p.exports) : 'e' + i), idx: i })) : [{ name: 'f', idx: p.main }];
  return encodeModule({
    types: tt.types, imports: imps.map((n, i) => ({ mod: 'wasi_snapshot_preview1', name: n, type: nimp[i] })), funcs,
    tables: expand(p.tables, same).map(t => ({ type: t.t, min: t.min, max: t.max < 0 ? undefined : t.max })),
    mems: [{ min: p.mem[0], max: p.mem[1] < 0 ? undefined : p.mem[1] }],
    globals: expand(p.globals, (g, i) => ({ type: g.t, mut: true, init: [[g.t + '.const', aff(g.v, i, 0)]] })),
    exports: [...exports, { name: 'memory', kind: 'mem', idx: 0 }], start: p.start,
    elems: expand(p.elems, (e, s) => ({ offset: [['i32.const', aff(e.off, 0, s)]], funcs: expand(e.fs, (x, i) => aff(x, i, s)), table: aff(e.tab, 0, s) || undefined })),
    datas: expand(p.datas, (e, s) => { const b = expand(e.b, (x, i) => aff(x, i, s)); return e.pass ? { mode: 'passive', bytes: b } : { offset: [['i32.const', aff(e.off, 0, s)]], bytes: b }; }),
    customs: p.customs ? Array.from({ length: p.customs }, (_, i) => ({ name: i % 3 ? 'c' + i : 'name', bytes: Array(p.custom ? (i * 7) % p.custom : 0).fill(i & 255) })) : undefined,
  });
}
function judge(rec, r) {
  const trap = P.trapped(r);
  if (rec.want === -1) return trap ? (P.lastIndexOf(r.out, 'Result: ') >= 0 ? 'a result was reported after a trap' : null) : 'no trap reported: ' + r.stdout.slice(-80);
  if (trap) return 'reported as failed: ' + (r.abort ? r.abort + ' ' : '') + r.stderr.slice(0, 200);
  const want = String.fromCharCode(...rec.out.flatMap(q => q.b)) + `Result: Num(I32(${rec.want}))`;
  return r.stdout.trim() === want ? null : `reported ${JSON.stringify(r.stdout.slice(-120))}, expected ${JSON.stringify(want)}`;
}
// a module the runtime declares too big for itself, before running any of it
const refused = r => r.exit === 1 && !r.abort && !/panicked/.test(r.stderr) && !/Result:/.test(r.stdout);
let rng = 777; const rand = n => { rng = (Math.imul(rng, 1103515245) + 12345) >>> 0; return (rng >>> 8) % n; };
export function handle(rec, { mods, opts }) {
  const stats = { plans: 1, size: { max: rec.n }, runs: 0, refused: 0, checkpoints: 0 };
  const bytes = build(rec.plan), name = rec.plan.exports ? (rec.plan.long ? 'x'.repeat(rec.plan.exports) : 'e' + rec.plan.invoke) : 'f';
  const what = `${rec.kind} ${rec.n} (variant ${rec.v})`;
  // (V8 keeps a map of all live operands at every call: quadratic where many are live)
  if (rec.n <= (rec.kind === 'pend' || rec.kind === 'local' ? 2000 : 100000)) {
    const n = P.native(bytes, { name });
    if (!/memory|too large|exceeds|max/i.test(n.err ?? '')) {
      if (n.s !== (rec.want === -1 ? 'trap' : 'done')) return { tool: `${what}: specification says ${rec.want}, V8 says ${n.s} ${n.err ?? ''}`, stats };
      if (n.s === 'done' && n.res[0] !== rec.want) return { tool: `${what}: specification says ${rec.want}, V8 says ${n.res[0]}`, stats };
    } else stats.unchecked = 1;
  }
  const args = ['chiwawa', 'g.wasm', '--invoke', name]; let polls = 0, ref = 0;
  for (const m of ['tco', 'legacy']) {
    let yields = 0; const onCall = k => { if (k === 'sched_yield') yields++; };
    const r = runOnce(mods[m], { vfs: new VFS({ 'g.wasm': bytes }), args: opts.ck || opts.looks ? [...args, '--cr'] : args, onCall, maxCalls: 2000000 }); stats.runs++; polls = r.polls;
    if (rec.may && refused(r)) { stats.refused++; ref++; continue; }
    const why = judge(rec, r) ?? (rec.hc && yields !== rec.hc - 1 ? `${yields} calls of sched_yield, expected ${rec.hc - 1}` : null);
    if (why) return { viol: `${what}, ${m}: ${why}`, stats };
    if (opts.looks && r.polls < Math.floor(rec.n * opts.looks)) return { viol: `${what}, ${m}: only ${r.polls} looks for a checkpoint request in ${rec.n} rounds`, stats };
  }
  if (ref === 1) return { viol: `${what}: refused by one dispatcher only`, stats };
  if (ref || !polls || rec.plan.mem[0] > 300) return { stats };
  for (let i = 0; i < (opts.ck ?? 0); i++) {
    const k = 1 + rand(polls), a = i % 2 ? 'legacy' : 'tco', b = i & 2 ? (i % 2 ? 'tco' : 'legacy') : a;
    const v = lives(bytes, { mods, modeOf: l => l ? b : a, at: (l, n) => l === 0 && n === k, args }); stats.runs += v.life + 1; stats.checkpoints += v.life;
    if (v.why) return { viol: `${what}, checkpoint by ${a} at look ${k} of ${polls}, restore by ${b}: ${v.why}`, stats };
    const out = new TextDecoder('latin1').decode(v.r.out);
    const why = judge(rec, { ...v.r, stdout: out }); if (why) return { viol: `${what}, checkpoint by ${a} at look ${k} of ${polls}, restore by ${b}: ${why}`, stats };
  }
  return { stats };
}
