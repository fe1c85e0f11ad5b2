// Damages a stored checkpoint as the specification (Damage.tla) says and restores it.
import * as P from '../prog.mjs';
import { runOnce, VFS } from '../host.mjs';
import { ARGS } from './prog.mjs';
import { guest, RESTORE } from './ckpt.mjs';
const stored = new Map(), variants = new Map();
function store(line, g, look, mode, mods) {
  const key = g.name + look + mode; let s = stored.get(key); if (s) return s;
  const vfs = new VFS({ 'g.wasm': g.bytes }); let p = 0;
  const r = runOnce(mods[mode], { vfs, args: [...ARGS, '--cr'], maxCalls: 100000, onPoll: (n, v, st) => { if (n === look) v.files.set('checkpoint.trigger', new Uint8Array(0)); }, onOut: (n, b) => { if (n === 1) for (const x of b) if (x > 127) p++; } });
  s = { bytes: vfs.files.get('checkpoint.bin') ?? null, pos: p, why: r.stderr.slice(0, 200) }; stored.set(key, s); return s;
}
// the guest's program with padding after it, item `at` of it different
function padded(prog, d, at) {
  const p = JSON.parse(JSON.parse(prog)).prog, m = d.pad === 'data' ? d.size : Math.floor(d.size / (d.pad === 'code' ? 4 : 8)), odd = Math.min(m - 1, Math.floor(m * at / 12));
  const item = i => i === odd && at < 12 ? 5 : 4, of = (n, f) => Array.from({ length: n }, (_, i) => f(i)), c = v => ['i32.const', [v, 0, 0, 0]];
  if (d.pad === 'data') p.datas.push({ off: -1, b: of(m, item) });
  else if (d.pad === 'code') p.funcs.push({ sig: [[], []], loc: [], code: of(m, i => [c(item(i)), ['drop']]).flat() });
  else p.funcs.push(...of(m, i => ({ sig: [[], ['i32']], loc: [], code: [c(item(i))] })));
  return P.compile(p);
}
export function handle(rec, { mods, opts }) {
  const stats = { restores: 0, refused: 0, resumed: 0, unchanged: 0 };
  const line = opts.guests[rec.guest - 1]; let g = guest(line); if (g.tool) return { tool: g.tool, stats };
  if (rec.d.k === 'far') g = { ...g, name: `${g.name}+${rec.d.size} ${rec.d.pad}`, bytes: padded(line, rec.d, 12) };
  for (const mode of opts.modes ?? ['tco', 'legacy']) {
    if (rec.d.k !== 'none' && rec.d.k !== 'variant' && !opts.both && mode !== (['tco', 'legacy'][((rec.d.i ?? rec.d.at ?? 0) + rec.look + (rec.d.b ?? 0)) % 2])) continue;
    const s = store(line, g, rec.look, mode, mods); if (!s.bytes) return { viol: `${g.name} ${mode}: no checkpoint at look ${rec.look}: ${s.why}`, stats };
    const a = s.bytes, n = a.length, d = rec.d; stats.size = { max: n };
    const vfs = new VFS({ 'g.wasm': g.bytes }); let b = a, want = rec.want, hook = {}, hit = true;
    const i = d.from === 'back' ? n - 1 - (d.i ?? 0) : d.i ?? 0;
    switch (d.k) {
      case 'missing': b = null; break; case 'empty': b = new Uint8Array(0); break;
      case 'directory': b = null; vfs.dirs.add('checkpoint.bin'); break;
      case 'unsealed': b = a.slice(0, -8); break;
      case 'slow': hook = { maxRead: 13 }; break;
      case 'noopen': hook = { onOpen: p => p === 'checkpoint.bin' ? 2 : 0 }; break;
      case 'cut': b = d.from === 'front' ? a.slice(0, Math.min(n, d.i)) : a.slice(0, Math.max(0, n - d.i)); break;
      case 'flip': if (i >= 0 && i < n) { b = a.slice(); b[i] ^= 1 << d.b; } break;
      case 'remove': b = Uint8Array.from([...a.slice(0, i), ...a.slice(i + d.n)]); break;
      case 'insert': if (i <= n) b = Uint8Array.from([...a.slice(0, i), ...Array(d.n).fill(i & 255), ...a.slice(i)]); break;
      case 'zero': b = a.slice(); b.fill(0, i, i + d.n); break;
      case 'exchange': if (i + 16 <= n) { b = a.slice(); b.set(a.slice(i, i + 8), i + 8); b.set(a.slice(i + 8, i + 16), i); } break;
      case 'append': b = Uint8Array.from([...a, ...Array(d.n).fill(0)]); break;
      case 'other': b = store(opts.guests[d.g - 1], guest(opts.guests[d.g - 1]), rec.look, mode, mods).bytes; break;
      case 'splice': { const o = store(line, g, rec.look + 2, mode, mods).bytes; if (o) b = Uint8Array.from([...a.slice(0, i), ...o.slice(i)]); if (o && Buffer.compare(Buffer.from(b), Buffer.from(o)) === 0) { stats.unchanged++; continue; } break; }
      case 'variant': { const k = g.name + d.v; let m = variants.get(k); if (!m) { m = P.compile(JSON.parse(JSON.parse(line)).var[d.v - 1]); variants.set(k, m); if (!WebAssembly.validate(m)) return { tool: `variant ${k} is not valid`, stats }; } vfs.files.set('g.wasm', m); break; }
      case 'far': { const m = padded(line, d, d.at); if (!WebAssembly.validate(m)) return { tool: `padded ${g.name} is not valid`, stats }; vfs.files.set('g.wasm', m); break; }
      case 'iofail': { let c = 0, fd = -1; hit = false; hook = { onCall: (k, x, ctx) => { const on = k.startsWith('path_') ? ctx.str(k === 'path_filestat_get' || k === 'path_open' ? x[2] : x[1], k === 'path_filestat_get' || k === 'path_open' ? x[3] : x[2]).includes('checkpoint.bin') : ctx.fds.get(x[0])?.path === 'checkpoint.bin' && k !== 'fd_close'; if (on && ++c === d.i) { hit = true; return 29; } return undefined; } }; break; }
    }
    const same = b !== null && b.length === n && b.every((x, j) => x === a[j]);
    if (b !== null) vfs.files.set('checkpoint.bin', b);
    let at = [], resumed = false;
    const r = runOnce(mods[mode], { vfs, args: i % 3 || d.k === 'missing' || d.k === 'empty' ? [...RESTORE, '--invoke', 'f'] : RESTORE, maxCalls: 100000, ...hook, onOut: (k, x) => { if (k === 1) for (const y of x) if (y > 127) at.push(y); } }); stats.restores++;
    resumed = r.stdout.includes('Resuming execution');
    const what = `${g.name} ${mode}, stored at look ${rec.look} (${n} bytes), ${JSON.stringify(d)}`;
    const good = () => { const p = g.exp.length - at.length; return r.exit === 0 && r.stdout.includes(g.result) && !/Error/.test(r.stderr) && p === s.pos && at.every((x, j) => x === g.exp[p + j]); };
    const bad = () => (r.exit !== 0 && r.stderr.length > 0 && !at.length && !resumed && !r.stdout.includes('Result'));
    if (same && ['cut', 'flip', 'zero', 'exchange', 'remove', 'insert', 'splice'].includes(d.k)) { stats.unchanged++; want = 'resumed'; }
    if (d.k === 'iofail') { if (!(hit ? bad() || good() : good())) return { viol: `${what}: neither refused nor resumed as stored: exit ${r.exit}, ${r.stderr.slice(0, 150)}`, stats }; stats.refused += bad(); continue; }
    if (want === 'refused') { stats.refused++; if (!bad()) return { viol: `${what}: not refused: exit ${r.exit} ${r.abort ?? ''}, guest output ${at.length} bytes, resumed ${resumed}, stderr ${JSON.stringify(r.stderr.slice(0, 150))}`, stats }; }
    else { stats.resumed++; if (!good()) return { viol: `${what}: what was stored was not resumed: exit ${r.exit} ${r.stderr.slice(0, 200)}`, stats }; }
  }
  return { stats };
}
