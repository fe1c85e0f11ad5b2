// numcheck.mjs OUT : compares the numeric semantics of the specification (T dump) with V8.
import { readFileSync } from 'fs';
import { encodeModule, toInt } from '../harness/asm.mjs';
const lines = readFileSync(process.argv[2], 'utf8').split('\n').filter(l => l.startsWith('"{')).map(l => JSON.parse(JSON.parse(l)));
const ty = a => a.length; let bad = 0, n = 0;
const by = new Map(); for (const l of lines) { if (!by.has(l.o)) by.set(l.o, []); by.get(l.o).push(l); }
const mem = new WebAssembly.Memory({ initial: 1 });
for (const [o, ls] of by) {
  const [dst, rest] = o.split('.');
  let src = dst; const m = o.match(/_(i32|i64|f32|f64)(_|$)/); if (m) src = m[1];
  const rel = /^(eq|ne|lt|gt|le|ge|eqz)(_|$)/.test(rest); const res = rel ? 'i32' : dst;
  for (const l of ls) {
    const body = [['i32.const', 0]]; for (const a of l.a) body.push([src + '.const', a]); body.push([o]); body.push([res + '.store', 0, 0]);
    const bytes = encodeModule({ types: [[[], []]], funcs: [{ type: 0, locals: [], body }], mems: [{ min: 1 }], exports: [{ name: 'f', idx: 0 }, { name: 'm', kind: 'mem', idx: 0 }] });
    const i = new WebAssembly.Instance(new WebAssembly.Module(bytes)); let r;
    try { i.exports.f(); const u = [...new Uint8Array(i.exports.m.buffer, 0, l.r.length || 8)]; r = u; } catch { r = []; }
    n++;
    let e = l.r, isn = false;
    if (e[0] > 255) { const d = new DataView(new Uint8Array(r).buffer); isn = r.length && Number.isNaN(e.length === 4 ? d.getFloat32(0, true) : d.getFloat64(0, true)); if (isn) continue; }
    if (JSON.stringify(e) !== JSON.stringify(r)) { bad++; if (bad < 20) console.log(o, JSON.stringify(l.a), 'spec', JSON.stringify(e), 'v8', JSON.stringify(r)); }
  }
}
console.log(n, 'checked', bad, 'bad');
