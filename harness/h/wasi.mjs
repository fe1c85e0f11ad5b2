// WASI calls predicted by Wasi.tla: what the host sees, what the guest is left with.
import * as P from '../prog.mjs';
import { runOnce, VFS, cat } from '../host.mjs';
const T = new Map(), latin = b => Buffer.from(b).toString('latin1');
const W = { path: ['i32', 'i32'], iovw: ['i32', 'i32'], iovr: ['i32', 'i32'], buf: ['i32', 'i32'], rbuf: ['i32', 'i32'], w64: ['i64'] };
const flat = ks => ks.flatMap(k => W[k] ?? ['i32']);
const le4 = v => [v & 255, (v >>> 8) & 255, (v >>> 16) & 255, (v >>> 24) & 255];
const le8 = v => { const r = []; let x = BigInt.asUintN(64, v); for (let i = 0; i < 8; i++) { r.push(Number(x & 255n)); x >>= 8n; } return r; };
// 65536 bytes and more: the odd first part, then how many bytes follow if all are zero
function content(parts) {
  const b = cat(parts), n = b.length & 0xffff; if (n === b.length) return [...b];
  return [...b.subarray(0, n), ...(b.subarray(n).every(x => x === 0) ? le4(b.length - n) : [256])];
}
// the host's side of one call: decode what it says, answer as scripted
function script(rec) {
  let armed = false, i = 0; const seen = [];
  return { seen, armed: () => armed,
    arm() { armed = true; },
    call(name, a, mem) {
      const u = new Uint8Array(mem.buffer), d = new DataView(mem.buffer), ks = T.get(name); const iov = (p, n) => Array.from({ length: n }, (_, j) => [d.getUint32((p >>> 0) + 8 * j, true), d.getUint32((p >>> 0) + 8 * j + 4, true)]);
      const comps = []; let j = 0; const at = [];
      for (const k of ks) {
        const x = a[j], y = a[j + 1]; at.push([x, y]); j += (W[k] ?? [0]).length;
        switch (k) {
          case 'fd': case 'w8': case 'w16': case 'w32': case 'pn': comps.push(le4(x)); break;
          case 'w64': comps.push(le8(x)); break;
          case 'path': comps.push([...u.slice(x >>> 0, (x >>> 0) + (y >>> 0))]); break;
          case 'iovw': comps.push(content(iov(x, y).map(([p, n]) => u.slice(p, p + n)))); break;
          case 'iovr': comps.push(le4(iov(x, y).reduce((s, e) => s + e[1], 0))); break;
          case 'buf': case 'rbuf': comps.push(le4(y)); break;
          case 'pin': comps.push([...u.slice(x >>> 0, (x >>> 0) + 48 * a[2])]); break;
        }
      }
      seen.push([name, comps]);
      const ans = rec.ans[i++]; if (!ans) return 52; if (ans.errno) return ans.errno;
      ks.forEach((k, n) => {
        let b = ans.outs[n]; if (!b || !b.length) return; const [x, y] = at[n];
        if (k === 'iovr') { for (const [p, l] of iov(x, y)) { u.set(b.slice(0, l), p); b = b.slice(l); } }
        else u.set(k === 'buf' || k === 'rbuf' ? b.slice(0, y >>> 0) : b, x >>> 0);
      });
      return 0;
    } };
}
const show = l => l ? `${l[0]}(${l[1].map(c => c.length <= 8 ? '[' + c + ']' : JSON.stringify(latin(c)).slice(0, 60)).join(', ')})` : 'no call';
const SEES = new Set(['fd', 'w8', 'w16', 'w32', 'w64', 'pn', 'path', 'iovw', 'iovr', 'buf', 'rbuf', 'pin']);
const cutAtNul = ([name, comps]) => { const ks = T.get(name).filter(k => SEES.has(k)); return [name, comps.map((c, i) => ks[i] === 'path' && c.includes(0) ? c.slice(0, c.indexOf(0)) : c)]; };
export function handle(rec, { mods, opts }) {
  const stats = { sequences: 1, calls: rec.err.length, runs: 0 };
  for (const [n, ks] of rec.sigs) T.set(n, ks);
  const bare = rec.bare;                                  // a module without a memory
  // the guest imports what it uses; the order of imports is the module's own business
  const used = [...new Set(rec.fs)]; if (rec.order) used.sort(); const names = bare ? ['sched_yield', 'proc_exit', ...used.filter(n => n !== 'sched_yield')] : ['fd_write', 'proc_exit', ...used.filter(n => n !== 'fd_write')];
  const all = ['', ...rec.sigs.map(s => s[0])];           // the specification's index f+1 is import name f
  const ix = f => f === 0 ? 0 : f === 1 ? 1 : names.indexOf(all[f - 1]);
  const prog = { imps: names, isigs: names.map(n => n === 'proc_exit' ? [['i32'], []] : [flat(T.get(n)), ['i32']]), funcs: [{ sig: [[], bare ? ['i32'] : []], loc: ['i32', 'i64', 'i32'], code: rec.code.map(i => i[0] === 'call' ? ['call', ix(i[1])] : i) }],
    globals: [], mem: bare ? [-1, -1] : [rec.pages, -1], tables: [{ t: 'funcref', min: 64, max: -1 }], elems: used.map(n => ({ tab: 0, off: all.indexOf(n), fs: [names.indexOf(n)] })), datas: rec.datas, start: -1, main: names.length };
  const bytes = P.compile(prog), tail = [...rec.mem, ...rec.err.flatMap(e => le4(e))];
  const check = (seen, out, exit) => {
    for (let i = 0; i < Math.max(seen.length, rec.log.length); i++) if (JSON.stringify(seen[i]) !== JSON.stringify(rec.log[i])) return [`call ${i + 1}: the host saw ${show(seen[i])}, expected ${show(rec.log[i])}`, rec.log[i] && JSON.stringify(seen[i]) === JSON.stringify(cutAtNul(rec.log[i])) ? 'nul-in-path' : undefined];
    if (bare) { if (rec.exit < 0 && out !== rec.res) return [`errnos combine to ${out}, expected ${rec.res} (${rec.fs.join(', ')})`]; }
    const want = bare ? [] : [...Buffer.from('ARM!DONE'), ...tail];
    for (let i = 0; !bare && i < Math.max(want.length, out.length); i++) if (want[i] !== out[i]) return [i >= 8 && i < 8 + 2048 ? `guest memory at ${i - 8} is ${out[i]}, expected ${want[i]} (${rec.fs.join(', ')})` : `errno of call ${((i - 2056) >> 2) + 1} (${rec.fs[(i - 2056) >> 2]}) is ${out[i]}, expected ${want[i]}; ${out.length} bytes`];
    if (exit !== (rec.exit < 0 ? 0 : rec.exit)) return [`exit code ${exit}, expected ${rec.exit}`];
    return null;
  };
  { // V8 with the same host
    const s = script(rec), out = []; let mem = null, exit = 0;
    const strs = l => { const b = [], o = []; for (const x of l) { o.push(b.length); b.push(...x, 0); } return [b, o]; };
    const local = { args_sizes_get: [0, rec.argv], args_get: [1, rec.argv], environ_sizes_get: [0, rec.env], environ_get: [1, rec.env] };
    const imp = {};
    for (const n of names) imp[n] = (...a) => {
      const u = new Uint8Array(mem.buffer), d = new DataView(mem.buffer);
      if (n === 'proc_exit') { exit = a[0]; throw new Error('EXIT'); }
      if (n === 'fd_write' && a[0] === 1) { const p = d.getUint32(a[1], true), l = d.getUint32(a[1] + 4, true), t = latin(u.slice(p, p + l)); if (t === 'ARM!' || t === 'DONE' || !s.armed()) { out.push(u.slice(p, p + l)); if (t === 'ARM!') s.arm(); if (t === 'DONE') s.armed = () => false; d.setUint32(a[3], l, true); return 0; } }
      if (n in local) { const [how, l] = local[n], [b, o] = strs(l); if (how) { o.forEach((x, i) => d.setUint32(a[0] + 4 * i, a[1] + x, true)); u.set(b, a[1]); } else { d.setUint32(a[0], l.length, true); d.setUint32(a[1], b.length, true); } return 0; }
      if (bare && n === 'sched_yield') return 0;
      return s.call(n, a, mem);
    };
    let err = null, res = null;
    try { const i = new WebAssembly.Instance(new WebAssembly.Module(bytes), { wasi_snapshot_preview1: imp }); mem = i.exports.memory ?? { buffer: new ArrayBuffer(0) }; if (bare) { s.arm(); } res = i.exports.f();  } catch (e) { if (e.message !== 'EXIT') err = e.message; }
    const w = err ? [err] : check(s.seen, bare ? res : cat(out), exit); if (w) return { tool: `V8: ${w[0]}`, stats };
  }
  const dec = b => new TextDecoder().decode(Uint8Array.from(b));
  const ends = [];
  for (const mode of ['tco', 'legacy']) {
    const s = script(rec); let armed = false; stats.runs++;
    const app = rec.argv.slice(1).map(dec);
    const r = runOnce(mods[mode], { vfs: new VFS({ 'g.wasm': bytes }), args: ['chiwawa', 'g.wasm', '--invoke', 'f', ...(app.length ? ['--app-args', app.map(a => a && !a.includes(' ') ? a : `"${a}"`).join(' ')] : [])], env: rec.env.map(dec), maxCalls: 100000,
      onCall(k, a, { mem }) {
        if (bare && k === 'sched_yield') { armed = !armed; return 0; }
        if (k === 'fd_write') { const d = new DataView(mem.buffer), n = a[2]; let t = ''; for (let j = 0; j < n; j++) { const p = d.getUint32((a[1] >>> 0) + 8 * j, true), l = d.getUint32((a[1] >>> 0) + 8 * j + 4, true); t += Buffer.from(mem.buffer, p, l).toString('latin1'); } if (t === 'ARM!') { armed = true; return undefined; } if (t === 'DONE') { armed = false; return undefined; } }
        // asking for its own environment or arguments is the runtime's business
        if (!armed || /^(args|environ)_/.test(k)) return undefined;
        return T.has(k) ? s.call(k, a, mem) : undefined;
      } });
    if (opts?.both) { ends.push(JSON.stringify([r.abort || /Execution Error/.test(r.stderr) ? s.seen.filter(l => l[0] !== 'fd_write' || l[1][0][0] !== 2) : s.seen, [...r.out], r.exit, !!r.abort])); continue; }     // how the two dispatchers compare, not whether they are right
    if (r.abort && rec.fs[0] === 'proc_raise' && /unreachable/.test(r.abort) && s.seen.every(l => l[0] !== 'proc_raise')) return { viol: `${mode}: proc_raise: the host is not asked; ${r.abort}`, key: 'proc-raise', stats };
    if (r.abort) return { viol: `${mode}: ${rec.fs.join(', ')}: ${r.abort} ${r.stderr.slice(0, 150)}`, stats };
    const w = check(s.seen, bare ? Number((/^Result: Num\(I32\((-?\d+)\)\)/.exec(r.stdout) ?? [])[1]) : r.out, r.exit); if (w) return { viol: `${mode}: ${w[0]} ${r.stderr.slice(0, 150)}`, key: w[1], stats };
  }
  if (ends.length === 2 && ends[0] !== ends[1]) { const i = [...ends[0]].findIndex((c, i) => c !== ends[1][i]); return { viol: `the dispatchers differ on ${rec.fs.join(', ')}: ${ends[0].slice(Math.max(0, i - 60), i + 60)} / ${ends[1].slice(Math.max(0, i - 60), i + 60)}`, stats }; }
  return { stats };
}
