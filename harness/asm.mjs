// Encodes the module records the specification emits into Wasm binaries.
export const VT = { i32: 0x7f, i64: 0x7e, f32: 0x7d, f64: 0x7c, v128: 0x7b, funcref: 0x70, externref: 0x6f };
const simple = `unreachable:00 nop:01 else:05 end:0b return:0f drop:1a select:1b
i32.eqz:45 i32.eq:46 i32.ne:47 i32.lt_s:48 i32.lt_u:49 i32.gt_s:4a i32.gt_u:4b i32.le_s:4c i32.le_u:4d i32.ge_s:4e i32.ge_u:4f
i64.eqz:50 i64.eq:51 i64.ne:52 i64.lt_s:53 i64.lt_u:54 i64.gt_s:55 i64.gt_u:56 i64.le_s:57 i64.le_u:58 i64.ge_s:59 i64.ge_u:5a
f32.eq:5b f32.ne:5c f32.lt:5d f32.gt:5e f32.le:5f f32.ge:60 f64.eq:61 f64.ne:62 f64.lt:63 f64.gt:64 f64.le:65 f64.ge:66
i32.clz:67 i32.ctz:68 i32.popcnt:69 i32.add:6a i32.sub:6b i32.mul:6c i32.div_s:6d i32.div_u:6e i32.rem_s:6f i32.rem_u:70 i32.and:71 i32.or:72 i32.xor:73 i32.shl:74 i32.shr_s:75 i32.shr_u:76 i32.rotl:77 i32.rotr:78
i64.clz:79 i64.ctz:7a i64.popcnt:7b i64.add:7c i64.sub:7d i64.mul:7e i64.div_s:7f i64.div_u:80 i64.rem_s:81 i64.rem_u:82 i64.and:83 i64.or:84 i64.xor:85 i64.shl:86 i64.shr_s:87 i64.shr_u:88 i64.rotl:89 i64.rotr:8a
f32.abs:8b f32.neg:8c f32.ceil:8d f32.floor:8e f32.trunc:8f f32.nearest:90 f32.sqrt:91 f32.add:92 f32.sub:93 f32.mul:94 f32.div:95 f32.min:96 f32.max:97 f32.copysign:98
f64.abs:99 f64.neg:9a f64.ceil:9b f64.floor:9c f64.trunc:9d f64.nearest:9e f64.sqrt:9f f64.add:a0 f64.sub:a1 f64.mul:a2 f64.div:a3 f64.min:a4 f64.max:a5 f64.copysign:a6
i32.wrap_i64:a7 i32.trunc_f32_s:a8 i32.trunc_f32_u:a9 i32.trunc_f64_s:aa i32.trunc_f64_u:ab i64.extend_i32_s:ac i64.extend_i32_u:ad i64.trunc_f32_s:ae i64.trunc_f32_u:af i64.trunc_f64_s:b0 i64.trunc_f64_u:b1
f32.convert_i32_s:b2 f32.convert_i32_u:b3 f32.convert_i64_s:b4 f32.convert_i64_u:b5 f32.demote_f64:b6 f64.convert_i32_s:b7 f64.convert_i32_u:b8 f64.convert_i64_s:b9 f64.convert_i64_u:ba f64.promote_f32:bb
i32.reinterpret_f32:bc i64.reinterpret_f64:bd f32.reinterpret_i32:be f64.reinterpret_i64:bf i32.extend8_s:c0 i32.extend16_s:c1 i64.extend8_s:c2 i64.extend16_s:c3 i64.extend32_s:c4 ref.is_null:d1`;
const FC = { 'i32.trunc_sat_f32_s': 0, 'i32.trunc_sat_f32_u': 1, 'i32.trunc_sat_f64_s': 2, 'i32.trunc_sat_f64_u': 3, 'i64.trunc_sat_f32_s': 4, 'i64.trunc_sat_f32_u': 5, 'i64.trunc_sat_f64_s': 6, 'i64.trunc_sat_f64_u': 7 };
export const MEMOPS = { 'i32.load': [0x28, 2], 'i64.load': [0x29, 3], 'f32.load': [0x2a, 2], 'f64.load': [0x2b, 3], 'i32.load8_s': [0x2c, 0], 'i32.load8_u': [0x2d, 0], 'i32.load16_s': [0x2e, 1], 'i32.load16_u': [0x2f, 1], 'i64.load8_s': [0x30, 0], 'i64.load8_u': [0x31, 0], 'i64.load16_s': [0x32, 1], 'i64.load16_u': [0x33, 1], 'i64.load32_s': [0x34, 2], 'i64.load32_u': [0x35, 2], 'i32.store': [0x36, 2], 'i64.store': [0x37, 3], 'f32.store': [0x38, 2], 'f64.store': [0x39, 3], 'i32.store8': [0x3a, 0], 'i32.store16': [0x3b, 1], 'i64.store8': [0x3c, 0], 'i64.store16': [0x3d, 1], 'i64.store32': [0x3e, 2] };
export const OP = {}; for (const w of simple.split(/\s+/)) { const i = w.lastIndexOf(':'); OP[w.slice(0, i)] = parseInt(w.slice(i + 1), 16); }

export function uleb(n) { let v = BigInt(n); const r = []; do { let b = Number(v & 127n); v >>= 7n; if (v) b |= 128; r.push(b); } while (v); return r; }
export function sleb(n) { let v = BigInt(n); const r = []; for (;;) { const b = Number(v & 127n); v >>= 7n; if ((v === 0n && !(b & 64)) || (v === -1n && (b & 64))) { r.push(b); return r; } r.push(b | 128); } }
export const vec = a => [...uleb(a.length), ...a.flat()];
const name = s => { const b = [...new TextEncoder().encode(s)]; return [...uleb(b.length), ...b]; };
// constants may be numbers, decimal strings or little-endian byte sequences
export function toInt(v, n) { if (Array.isArray(v)) { let r = 0n; for (let i = v.length - 1; i >= 0; i--) r = (r << 8n) | BigInt(v[i]); return BigInt.asIntN(8 * n, r); } return BigInt.asIntN(8 * n, BigInt(v)); }
export function toBytes(v, n, fl) { if (Array.isArray(v)) return v; if (fl) { const b = new ArrayBuffer(8), d = new DataView(b); n === 4 ? d.setFloat32(0, v, true) : d.setFloat64(0, v, true); return [...new Uint8Array(b).subarray(0, n)]; } const r = []; let x = BigInt.asUintN(8 * n, BigInt(v)); for (let i = 0; i < n; i++) { r.push(Number(x & 255n)); x >>= 8n; } return r; }
const bt = t => t === undefined || t === '' ? [0x40] : typeof t === 'number' ? sleb(t) : [VT[t]];

export function encInstr(ins) {
  const [op, a, b] = ins;
  if (op in OP) return [OP[op]];
  if (op in MEMOPS) { const [c, al] = MEMOPS[op]; return [c, ...uleb(b ?? al), ...uleb(a ?? 0)]; }
  if (op in FC) return [0xfc, FC[op]];
  switch (op) {
    case 'i32.const': return [0x41, ...sleb(toInt(a, 4))];
    case 'i64.const': return [0x42, ...sleb(toInt(a, 8))];
    case 'f32.const': return [0x43, ...toBytes(a, 4, true)];
    case 'f64.const': return [0x44, ...toBytes(a, 8, true)];
    case 'block': return [0x02, ...bt(a)]; case 'loop': return [0x03, ...bt(a)]; case 'if': return [0x04, ...bt(a)];
    case 'br': return [0x0c, ...uleb(a)]; case 'br_if': return [0x0d, ...uleb(a)];
    case 'br_table': return [0x0e, ...vec(a.map(uleb)), ...uleb(b)];
    case 'call': return [0x10, ...uleb(a)];
    case 'call_indirect': return [0x11, ...uleb(a), ...uleb(b ?? 0)];
    case 'select_t': return [0x1c, 1, VT[a]];
    case 'local.get': return [0x20, ...uleb(a)]; case 'local.set': return [0x21, ...uleb(a)]; case 'local.tee': return [0x22, ...uleb(a)];
    case 'global.get': return [0x23, ...uleb(a)]; case 'global.set': return [0x24, ...uleb(a)];
    case 'table.get': return [0x25, ...uleb(a)]; case 'table.set': return [0x26, ...uleb(a)];
    case 'memory.size': return [0x3f, 0]; case 'memory.grow': return [0x40, 0];
    case 'ref.null': return [0xd0, VT[a]]; case 'ref.func': return [0xd2, ...uleb(a)];
    case 'memory.init': return [0xfc, 8, ...uleb(a), 0]; case 'data.drop': return [0xfc, 9, ...uleb(a)];
    case 'memory.copy': return [0xfc, 10, 0, 0]; case 'memory.fill': return [0xfc, 11, 0];
    case 'table.init': return [0xfc, 12, ...uleb(a), ...uleb(b ?? 0)]; case 'elem.drop': return [0xfc, 13, ...uleb(a)];
    case 'table.copy': return [0xfc, 14, ...uleb(a), ...uleb(b)]; case 'table.grow': return [0xfc, 15, ...uleb(a)];
    case 'table.size': return [0xfc, 16, ...uleb(a)]; case 'table.fill': return [0xfc, 17, ...uleb(a)];
  }
  throw new Error('unknown instruction ' + JSON.stringify(ins));
}
export const encExpr = body => [...body.flatMap(encInstr), 0x0b];
const lim = (mn, mx) => mx === undefined || mx === null || mx < 0 ? [0, ...uleb(mn)] : [1, ...uleb(mn), ...uleb(mx)];
const section = (id, body) => [id, ...uleb(body.length), ...body];

// {types:[[p,r]], imports:[{mod,name,type}|{mod,name,kind..}], funcs:[{type,locals,body}], table:{..}, ...}
export function encodeModule(m) {
  const out = [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
  const app = b => { for (const x of b) out.push(x); };
  const put = (id, items) => { if (items.length) app(section(id, vec(items))); };
  put(1, (m.types ?? []).map(([p, r]) => [0x60, ...vec(p.map(t => [VT[t]])), ...vec(r.map(t => [VT[t]]))]));
  put(2, (m.imports ?? []).map(i => [...name(i.mod), ...name(i.name), 0, ...uleb(i.type)]));
  put(3, (m.funcs ?? []).map(f => uleb(f.type)));
  put(4, (m.tables ?? []).map(t => [VT[t.type ?? 'funcref'], ...lim(t.min, t.max)]));
  put(5, (m.mems ?? []).map(t => lim(t.min, t.max)));
  put(6, (m.globals ?? []).map(g => [VT[g.type], g.mut ? 1 : 0, ...encExpr(g.init)]));
  put(7, (m.exports ?? []).map(e => [...name(e.name), { func: 0, table: 1, mem: 2, global: 3 }[e.kind ?? 'func'], ...uleb(e.idx)]));
  if (m.start !== undefined && m.start !== null && m.start >= 0) app(section(8, uleb(m.start)));
  put(9, (m.elems ?? []).map(e => {
    if (e.mode === 'passive') return [1, 0, ...vec(e.funcs.map(uleb))];
    if (e.mode === 'declare') return [3, 0, ...vec(e.funcs.map(uleb))];
    if (e.exprs) return e.table || e.type ? [6, ...uleb(e.table ?? 0), ...encExpr(e.offset), VT[e.type ?? 'funcref'], ...vec(e.exprs.map(encExpr))] : [4, ...encExpr(e.offset), ...vec(e.exprs.map(encExpr))];
    return e.table ? [2, ...uleb(e.table), ...encExpr(e.offset), 0, ...vec(e.funcs.map(uleb))] : [0, ...encExpr(e.offset), ...vec(e.funcs.map(uleb))];
  }));
  if ((m.datas ?? []).length && m.datacount !== false) app(section(12, uleb(m.datas.length)));
  put(10, (m.funcs ?? []).map(f => {
    const ls = f.localRuns ?? (f.locals ?? []).map(t => [1, t]);
    const body = [...vec(ls.map(([n, t]) => [...uleb(n), VT[t]])), ...encExpr(f.body)];
    return [...uleb(body.length), ...body];
  }));
  put(11, (m.datas ?? []).map(d => d.mode === 'passive' ? [1, ...vec(d.bytes.map(x => [x]))] : [0, ...encExpr(d.offset), ...vec(d.bytes.map(x => [x]))]));
  for (const c of m.customs ?? []) { const b = [...name(c.name), ...c.bytes]; out.push(...section(0, b)); }
  return new Uint8Array(out);
}
