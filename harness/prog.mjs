// Turns the program records printed by the specification into binaries and
// predictions, and compares what a run did with what the specification allows.
import { encodeModule } from './asm.mjs';
import { cat } from './host.mjs';

const key = s => JSON.stringify(s);
export class TypeTable {
  constructor(init = []) { this.types = []; this.map = new Map(); for (const s of init) this.add(s); }
  add(s) { const k = key(s); if (!this.map.has(k)) { this.map.set(k, this.types.length); this.types.push(s); } return this.map.get(k); }
}
export const initExpr = (t, v) => [[t + '.const', v]];
// an element segment lists functions, or references when some are null or the table holds externref
const entries = (e, p) => {
  const t = p.tables[e.tab].t;
  if (t === 'funcref' && e.fs.every(f => f >= 0)) return { funcs: e.fs };
  return { type: t === 'funcref' ? undefined : t, exprs: e.fs.map(f => [f < 0 ? ['ref.null', t] : ['ref.func', f]]) };
};
// opts: {types: initial type table, longBlocks: always use a type index}
export function toModule(p, opts = {}) {
  const tt = new TypeTable(opts.types);
  const ins = i => {
    if (i[0] === 'block' || i[0] === 'loop' || i[0] === 'if') {
      const [ps, rs] = i[1];
      if (!ps.length && rs.length <= 1 && !opts.longBlocks) return [i[0], rs.length ? rs[0] : ''];
      return [i[0], tt.add(i[1])];
    }
    if (i[0] === 'call_indirect') return ['call_indirect', tt.add(i[1]), i[2]];
    return i;
  };
  const isigs = p.isigs.map(s => tt.add(s));
  const funcs = p.funcs.map(f => ({ type: tt.add(f.sig), locals: f.loc, body: f.code.map(ins) }));
  return {
    types: tt.types,
    imports: p.imps.map((n, i) => ({ mod: 'wasi_snapshot_preview1', name: n, type: isigs[i] })),
    funcs,
    tables: p.tables.map(t => ({ type: t.t, min: t.min, max: t.max < 0 ? undefined : t.max })),
    mems: p.mem[0] < 0 ? [] : [{ min: p.mem[0], max: p.mem[1] < 0 ? undefined : p.mem[1] }],
    globals: p.globals.map(g => ({ type: g.t, mut: g.mut ?? true, init: initExpr(g.t, g.init) })),
    exports: [{ name: 'f', idx: p.main }, ...(p.mem[0] < 0 ? [] : [{ name: 'memory', kind: 'mem', idx: 0 }])],
    start: p.start,
    elems: p.elems.map(e => e.off < 0 ? { mode: 'passive', funcs: e.fs } : { offset: [['i32.const', e.off]], ...entries(e, p), table: e.tab || undefined }),
    datas: p.datas.map(d => d.off < 0 ? { mode: 'passive', bytes: d.b } : { offset: [['i32.const', d.off]], bytes: d.b }),
  };
}
export const compile = (p, opts) => encodeModule(toModule(p, opts));

// ---- predictions -------------------------------------------------------------
// pieces: [{b:[..]} | {a,n,m}] -> Uint16Array of bytes, or codes above 255 (part of some NaN)
export function flatten(out) {
  let n = 0; for (const q of out) n += q.b ? q.b.length : q.n;
  const r = new Uint16Array(n); let o = 0;
  for (const q of out) {
    if (q.b) { for (const x of q.b) r[o++] = x; continue; }
    const put = (a, v) => { if (a >= q.a && a < q.a + q.n) r[o + a - q.a] = v; };
    if (Array.isArray(q.m)) q.m.forEach((v, i) => put(i + 1, v)); else for (const k in q.m) put(+k, q.m[k]);
    o += q.n;
  }
  return r;
}
// where do actual bytes contradict the prediction?  -1: nowhere
export function mismatch(exp, act, prefix = false) {
  const n = Math.min(exp.length, act.length);
  for (let i = 0; i < n; i++) {
    const e = exp[i];
    if (e < 256) { if (act[i] !== e) return i; continue; }
    // a NaN of unspecified bits: 256.. (4 bytes) or 264.. (8 bytes); fragments are free
    const w = e < 264 ? 4 : 8, base = w === 4 ? 256 : 264;
    if (e !== base || i + w > n) continue;
    let full = true; for (let j = 0; j < w; j++) if (exp[i + j] !== base + j) full = false;
    if (!full) continue;
    const d = new DataView(Uint8Array.from(act.slice(i, i + w)).buffer);
    if (!Number.isNaN(w === 4 ? d.getFloat32(0, true) : d.getFloat64(0, true))) return i;
    i += w - 1;
  }
  if (act.length !== exp.length && !(prefix && act.length < exp.length)) return n;
  return -1;
}

// ---- one native run on V8 (cross-check of the specification itself) -----------
export function native(bytes, { name = 'f' } = {}) {
  const out = []; let mem = null, hc = 0;
  const wasi = {
    sched_yield() { hc++; return 0; },
    fd_write(fd, ip, n, nw) {
      hc++; const d = new DataView(mem.buffer); let t = 0;
      for (let i = 0; i < n; i++) { const p = d.getUint32(ip + 8 * i, true), l = d.getUint32(ip + 8 * i + 4, true); out.push(new Uint8Array(mem.buffer).slice(p, p + l)); t += l; }
      d.setUint32(nw, t, true); return 0;
    },
  };
  let s = 'done', res, err = null;
  try {
    // the start function may write before we hold the memory: instantiate with a late-bound memory
    const m = new WebAssembly.Module(bytes);
    const late = {}; for (const k in wasi) late[k] = (...a) => { if (!mem && k !== 'sched_yield') throw new Error('NOMEM'); return wasi[k](...a); };
    const i = new WebAssembly.Instance(m, { wasi_snapshot_preview1: late });
    mem = i.exports.memory; res = i.exports[name]();
  } catch (e) {
    if (e instanceof WebAssembly.RuntimeError) s = 'trap';
    else if (e instanceof WebAssembly.CompileError) { s = 'invalid'; err = e.message; }
    else { s = 'error'; err = String(e.message); }
  }
  return { s, res: res === undefined ? [] : Array.isArray(res) ? res : [res], out: cat(out), err, hc };
}

// ---- chiwawa outcome ----
const enc = new TextEncoder();
export function indexOf(b, s, from = 0) {
  const n = enc.encode(s); outer: for (let i = from; i + n.length <= b.length; i++) { for (let j = 0; j < n.length; j++) if (b[i + j] !== n[j]) continue outer; return i; } return -1;
}
export function lastIndexOf(b, s) {
  const n = enc.encode(s); outer: for (let i = b.length - n.length; i >= 0; i--) { for (let j = 0; j < n.length; j++) if (b[i + j] !== n[j]) continue outer; return i; } return -1;
}
// "Result: Num(I32(2))" etc. as the runtime prints it
export function trapped(r) { return r.exit !== 0 || /Execution Error|panicked|Runtime error/i.test(r.stderr); }
