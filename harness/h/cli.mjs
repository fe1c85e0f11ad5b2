// Command lines predicted by Cli.tla and Args.tla: what runs, with what, and what is reported.
import * as P from '../prog.mjs';
import { encodeModule } from '../asm.mjs';
import { runOnce, VFS } from '../host.mjs';
const utf = b => new TextDecoder().decode(Uint8Array.from(b)), te = new TextEncoder(), text = c => String.fromCodePoint(...c);
const i32 = n => ['i32.const', n];
// a guest that writes out the first 4096 bytes of memory after asking for its arguments
const FD = [['i32', 'i32', 'i32', 'i32'], ['i32']], TWO = [['i32', 'i32'], ['i32']];
const ARGV = encodeModule({ types: [FD, TWO, [[], []]], imports: [['fd_write', 0], ['args_sizes_get', 1], ['args_get', 1]].map(([name, type]) => ({ mod: 'wasi_snapshot_preview1', name, type })),
  funcs: [{ type: 2, body: [i32(0), i32(4), ['call', 1], ['drop'], i32(16), i32(1000), ['call', 2], ['drop'], i32(8000), i32(0), ['i32.store'], i32(8004), i32(4096), ['i32.store'], i32(1), i32(8000), i32(1), i32(8008), ['call', 0], ['drop']] }],
  mems: [{ min: 1 }], exports: [{ name: 'f', idx: 3 }, { name: 'memory', kind: 'mem', idx: 0 }] });
const MODES = ['tco', 'legacy'];
function args(rec, mods) {
  const t = text(rec.text), want = ['g.wasm', ...rec.argv.map(text)].map(x => [...te.encode(x)]), stats = { texts: 1, runs: 0 };
  for (const mode of MODES) for (const how of [['--app-args', t], ['--app-args=' + t]]) {
    const r = runOnce(mods[mode], { vfs: new VFS({ 'g.wasm': ARGV }), args: ['chiwawa', 'g.wasm', '--invoke', 'f', ...how], maxCalls: 100000 }); stats.runs++;
    const bad = s => ({ viol: `${mode}: --app-args ${JSON.stringify(t)}: ${s}`, stats });
    if (P.trapped(r)) return bad('failed: ' + r.stderr.slice(0, 200));
    if (r.out.length !== 4096) return bad(`${r.out.length} bytes written`);
    const d = new DataView(r.out.buffer, r.out.byteOffset), n = d.getUint32(0, true), size = d.getUint32(4, true);
    const got = []; for (let i = 0; i < Math.min(n, 50); i++) { const p = d.getUint32(16 + 4 * i, true); if (p < 1000 || p >= 1000 + size) return bad(`argument ${i} lies at ${p}`); got.push([...r.out.subarray(p, r.out.indexOf(0, p))]); }
    if (JSON.stringify(got) !== JSON.stringify(want)) return bad(`the guest sees ${JSON.stringify(got.map(utf))}, expected ${JSON.stringify(want.map(utf))}`);
    if (size !== want.reduce((s, w) => s + w.length + 1, 0)) return bad(`${size} bytes of arguments`);
  }
  return { stats };
}
const INV = (n, how) => how === 3 && n === '_start' ? [] : how === 0 && !n.startsWith('-') ? ['--invoke', n] : how === 2 && n && !n.startsWith('-') ? ['-i', n] : how === 3 && n && !/^[-=]/.test(n) ? ['-i' + n] : ['--invoke=' + n];
const PAR = (ps, how) => !ps.length ? (how === 1 ? ['--params'] : []) : how === 0 ? ['--params', ps.join(',')] : how === 1 ? ['--params', ...ps] : how === 2 ? ['-p', ps.join(',')] : ['--params=' + ps.join(',')];
// [digits, decimals] as an exact fraction over a common power of ten
const dec = (d, k, K) => BigInt(d) * 10n ** BigInt(K - k);
function shown(line, s) {
  const w = s.t.toUpperCase(), m = line.match(/^Result: Num\((\w\d\d)\((.*)\)\)$/); if (!m || m[1] !== w) return 'not a value of type ' + w;
  if (s.text) { const t = utf(s.text); return m[2] === t || (t === 'NaN' && m[2] === '-NaN') ? null : 'expected ' + t; }
  const n = m[2].match(/^(-?)(\d+)(?:\.(\d+))?(?:e([-+]?\d+))?$/); if (!n) return 'not a decimal';
  if ((n[1] === '-') !== s.neg) return 'wrong sign';
  let d = n[2] + (n[3] ?? ''), k = (n[3] ?? '').length - Number(n[4] ?? 0); if (k < 0) { d += '0'.repeat(-k); k = 0; }
  const K = Math.max(k, s.lo.k, s.hi.k), v = dec(d, k, K), lo = dec(s.lo.d.join(''), s.lo.k, K), hi = dec(s.hi.d.join(''), s.hi.k, K);
  return s.incl ? (lo <= v && v <= hi ? null : 'another value') : lo < v && v < hi ? null : 'another value';
}
export function handle(rec, { mods }) {
  if (rec.kind === 'args') return args(rec, mods);
  const stats = { commands: 1, runs: 0, ['kind_' + rec.kind + (rec.fail ? '_refused' : '')]: 1 };
  const m = rec.prog && P.toModule(rec.prog); if (rec.exports) m.exports = rec.exports.map(x => ({ name: utf(x.name), kind: x.kind, idx: x.idx }));
  const bytes = rec.bytes ? Uint8Array.from(rec.bytes) : encodeModule(m), name = utf(rec.name);
  // the specification's idea of what is a module, checked against V8
  const valid = WebAssembly.validate(bytes);
  if (rec.prog && !valid) return { tool: 'specified as a module, but it is none', stats };
  if (rec.sound && !valid) return { tool: `specified as a module with unmet imports (${rec.what}), but it is none`, stats };
  if (rec.bytes && !rec.sound && valid && WebAssembly.Module.exports(new WebAssembly.Module(bytes)).some(e => e.name === name && e.kind === 'function')) return { tool: `specified as no module (${rec.what}), but it is one`, stats };
  const cmd = [...INV(name, rec.invoke), ...PAR(rec.params.map(text), rec.pass)], argv = ['chiwawa', ...(rec.pass & 1 ? ['g.wasm', ...cmd] : ['g.wasm', ...cmd])];
  for (const mode of MODES) {
    const r = runOnce(mods[mode], { vfs: new VFS({ 'g.wasm': bytes }), args: argv, maxCalls: 100000 }); stats.runs++;
    const bad = s => ({ viol: `${mode}: ${JSON.stringify(cmd).slice(0, 300)}${rec.what === undefined ? '' : ' on a faulty module (' + rec.what + ')'}: ${s}`, stats });
    if (rec.fail) {
      if (r.exit === 0 && !r.stderr) return bad('no failure reported');
      if (r.out.length) return bad(`not refused: ${JSON.stringify(r.stdout.slice(0, 100))}`);
      continue;
    }
    if (P.trapped(r) || r.stderr) return bad(`failed: ${r.abort ?? ''} ${r.stderr.slice(0, 200)}`);
    const at = P.mismatch(rec.out, r.out.subarray(0, rec.out.length)); if (at >= 0) return bad(`the guest did otherwise at byte ${at}: expected ${rec.out.slice(at, at + 8)}, got ${[...r.out.subarray(at, at + 8)]}`);
    const tail = new TextDecoder().decode(r.out.subarray(rec.out.length));
    if (!rec.shown.length) { if (tail) return bad(`reported ${JSON.stringify(tail.slice(0, 100))}`); continue; }
    if (!tail.endsWith('\n')) return bad('unfinished report ' + JSON.stringify(tail.slice(0, 100)));
    const why = shown(tail.slice(0, -1), rec.shown[0]); if (why) return bad(`reported ${tail.trim()}: ${why}`);
  }
  return { stats };
}
