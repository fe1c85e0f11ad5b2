// WASI preview-1 host under full control of a schedule.  chiwawa.wasm runs
// inside it; every host call it makes is visible, and the file system, clock,
// random source, short writes, faults and crash points are decided by `opts`.
export const ERRNO = { SUCCESS:0, BADF:8, EXIST:20, FAULT:21, INVAL:28, IO:29, ISDIR:31, NOENT:44, NOSPC:51, NOSYS:52, NOTDIR:54, NOTEMPTY:55, PERM:63, SPIPE:70, NOTCAPABLE:76 };
const td = new TextDecoder('utf-8', { fatal: false }), te = new TextEncoder();

export class Exit extends Error { constructor(code) { super('exit ' + code); this.code = code; } }
export class Crash extends Error { constructor(why) { super('crash ' + why); this.why = why; } }

// A file system shared between runs: path -> Uint8Array (flat, normalised).
export class VFS {
  constructor(files = {}) { this.files = new Map(); this.dirs = new Set(['']); for (const k in files) this.files.set(k, files[k]); }
  clone() { const v = new VFS(); for (const [k, b] of this.files) v.files.set(k, b.slice()); for (const d of this.dirs) v.dirs.add(d); return v; }
}
function norm(p) {
  const out = [];
  for (const s of p.split('/')) { if (s === '' || s === '.') continue; if (s === '..') { out.pop(); continue; } out.push(s); }
  return out.join('/');
}

export function makeHost(opts) {
  const vfs = opts.vfs ?? new VFS();
  const log = opts.log ?? null;            // array receiving host-call events
  const args = (opts.args ?? ['chiwawa']).map(a => te.encode(a));
  const env = (opts.env ?? []).map(a => te.encode(a));
  const out = { 1: [], 2: [] };
  let mem = null;
  const st = { outLen: 0, polls: 0, calls: 0, ckWrites: 0, opened: new Set() };
  const fds = new Map();
  fds.set(0, { kind: 'stdin', data: opts.stdin ?? new Uint8Array(0), pos: 0 });
  fds.set(1, { kind: 'out', n: 1 }); fds.set(2, { kind: 'out', n: 2 });
  fds.set(3, { kind: 'dir', path: '' });
  let nextFd = 4;
  const U8 = () => new Uint8Array(mem.buffer), DV = () => new DataView(mem.buffer);
  const str = (p, n) => td.decode(U8().slice(p >>> 0, (p >>> 0) + (n >>> 0)));
  const iovs = (p, n) => { const d = DV(), r = []; for (let i = 0; i < n; i++) r.push([d.getUint32((p >>> 0) + 8 * i, true), d.getUint32((p >>> 0) + 8 * i + 4, true)]); return r; };
  const filestat = (p, type, size) => { const d = DV(); p >>>= 0; U8().fill(0, p, p + 64); d.setUint8(p + 16, type); d.setBigUint64(p + 24, 1n, true); d.setBigUint64(p + 32, BigInt(size), true); };
  let clock = opts.clock0 ?? 1000n;
  let rnd = opts.rnd0 ?? 7;
  const resolve = (fd, p, n) => { const d = fds.get(fd); if (!d) return [ERRNO.BADF]; if (d.kind !== 'dir') return [ERRNO.NOTDIR]; const s = str(p, n); return [0, norm(d.path + '/' + s), s]; };
  const impl = {
    args_sizes_get(c, s) { const d = DV(); d.setUint32(c >>> 0, args.length, true); d.setUint32(s >>> 0, args.reduce((a, b) => a + b.length + 1, 0), true); return 0; },
    args_get(pp, bp) { const d = DV(), u = U8(); let b = bp >>> 0; args.forEach((a, i) => { d.setUint32((pp >>> 0) + 4 * i, b, true); u.set(a, b); u[b + a.length] = 0; b += a.length + 1; }); return 0; },
    environ_sizes_get(c, s) { const d = DV(); d.setUint32(c >>> 0, env.length, true); d.setUint32(s >>> 0, env.reduce((a, b) => a + b.length + 1, 0), true); return 0; },
    environ_get(pp, bp) { const d = DV(), u = U8(); let b = bp >>> 0; env.forEach((a, i) => { d.setUint32((pp >>> 0) + 4 * i, b, true); u.set(a, b); u[b + a.length] = 0; b += a.length + 1; }); return 0; },
    clock_res_get(id, p) { DV().setBigUint64(p >>> 0, 1000n, true); return 0; },
    clock_time_get(id, prec, p) { clock += 1000n; DV().setBigUint64(p >>> 0, clock, true); return 0; },
    random_get(p, n) { const u = U8(); for (let i = 0; i < n; i++) { rnd = (Math.imul(rnd, 1103515245) + 12345) >>> 0; u[(p >>> 0) + i] = rnd >>> 16; } return 0; },
    sched_yield() { return 0; },
    proc_exit(c) { throw new Exit(c); },
    fd_prestat_get(fd, p) { if (fd !== 3) return ERRNO.BADF; const d = DV(); d.setUint32(p >>> 0, 0, true); d.setUint32((p >>> 0) + 4, 1, true); return 0; },
    fd_prestat_dir_name(fd, p, n) { if (fd !== 3) return ERRNO.BADF; U8()[p >>> 0] = 46; return 0; },
    fd_fdstat_get(fd, p) { const f = fds.get(fd); if (!f) return ERRNO.BADF; const d = DV(); p >>>= 0; U8().fill(0, p, p + 24); d.setUint8(p, f.kind === 'dir' ? 3 : f.kind === 'file' ? 4 : 2); d.setBigUint64(p + 8, 0x1fffffffn, true); d.setBigUint64(p + 16, 0x1fffffffn, true); return 0; },
    fd_fdstat_set_flags(fd, fl) { return fds.has(fd) ? 0 : ERRNO.BADF; },
    fd_fdstat_set_rights(fd, a, b) { return fds.has(fd) ? 0 : ERRNO.BADF; },
    fd_filestat_get(fd, p) { const f = fds.get(fd); if (!f) return ERRNO.BADF; filestat(p, f.kind === 'dir' ? 3 : f.kind === 'file' ? 4 : 2, f.kind === 'file' ? (vfs.files.get(f.path)?.length ?? 0) : 0); return 0; },
    fd_filestat_set_size(fd, n) { const f = fds.get(fd); if (!f || f.kind !== 'file') return ERRNO.BADF; const o = vfs.files.get(f.path) ?? new Uint8Array(0); const b = new Uint8Array(Number(n)); b.set(o.subarray(0, Math.min(o.length, b.length))); vfs.files.set(f.path, b); return 0; },
    fd_filestat_set_times(fd) { return fds.has(fd) ? 0 : ERRNO.BADF; },
    fd_advise(fd) { return fds.has(fd) ? 0 : ERRNO.BADF; },
    fd_allocate(fd) { return fds.has(fd) ? 0 : ERRNO.BADF; },
    fd_sync(fd) { return fds.has(fd) ? 0 : ERRNO.BADF; },
    fd_datasync(fd) { return fds.has(fd) ? 0 : ERRNO.BADF; },
    fd_renumber(a, b) { if (!fds.has(a) || !fds.has(b)) return ERRNO.BADF; fds.set(b, fds.get(a)); fds.delete(a); return 0; },
    fd_close(fd) { if (!fds.has(fd)) return ERRNO.BADF; fds.delete(fd); return 0; },
    fd_seek(fd, off, wh, p) { const f = fds.get(fd); if (!f) return ERRNO.BADF; if (f.kind !== 'file') return ERRNO.SPIPE; const size = vfs.files.get(f.path)?.length ?? 0; const base = wh === 0 ? 0 : wh === 1 ? f.pos : wh === 2 ? size : NaN; const np = base + Number(off); if (!(np >= 0)) return ERRNO.INVAL; f.pos = np; DV().setBigUint64(p >>> 0, BigInt(np), true); return 0; },
    fd_tell(fd, p) { const f = fds.get(fd); if (!f) return ERRNO.BADF; if (f.kind !== 'file') return ERRNO.SPIPE; DV().setBigUint64(p >>> 0, BigInt(f.pos), true); return 0; },
    fd_read(fd, ip, n, rp) { return rd(fd, ip, n, rp, null); },
    fd_pread(fd, ip, n, off, rp) { return rd(fd, ip, n, rp, Number(off)); },
    fd_write(fd, ip, n, wp) { return wr(fd, ip, n, wp, null); },
    fd_pwrite(fd, ip, n, off, wp) { return wr(fd, ip, n, wp, Number(off)); },
    fd_readdir(fd, buf, len, cookie, up) {
      const f = fds.get(fd); if (!f) return ERRNO.BADF; if (f.kind !== 'dir') return ERRNO.NOTDIR;
      const names = [...vfs.files.keys()].filter(k => norm(k.split('/').slice(0, -1).join('/')) === f.path).map(k => k.split('/').pop()).sort();
      let o = 0; const u = U8(), d = DV(); buf >>>= 0;
      for (let i = Number(cookie); i < names.length && o < len; i++) {
        const nm = te.encode(names[i]); const e = new Uint8Array(24 + nm.length); const ed = new DataView(e.buffer);
        ed.setBigUint64(0, BigInt(i + 1), true); ed.setBigUint64(8, 1n, true); ed.setUint32(16, nm.length, true); e[20] = 4; e.set(nm, 24);
        const k = Math.min(e.length, len - o); u.set(e.subarray(0, k), buf + o); o += k;
      }
      d.setUint32(up >>> 0, o, true); return 0;
    },
    path_open(dfd, df, p, n, ofl, rb, ri, fl, op) {
      const [e, path, raw] = resolve(dfd, p, n); if (e) return e;
      const dir = vfs.dirs.has(path), ex = vfs.files.has(path);
      if (opts.onOpen) { const r = opts.onOpen(path, ofl, st); if (r) return r; }
      if (dir) { if (ofl & 8) return ERRNO.ISDIR; const fd = nextFd++; fds.set(fd, { kind: 'dir', path }); DV().setUint32(op >>> 0, fd, true); return 0; }
      if (ofl & 2) { return ERRNO.NOTDIR; }
      if (!ex && !(ofl & 1)) return ERRNO.NOENT;
      if (ex && (ofl & 1) && (ofl & 4)) return ERRNO.EXIST;
      if (!ex || (ofl & 8)) { vfs.files.set(path, new Uint8Array(0)); }
      const fd = nextFd++; fds.set(fd, { kind: 'file', path, pos: 0, append: !!(fl & 1) }); DV().setUint32(op >>> 0, fd, true); return 0;
    },
    path_filestat_get(dfd, fl, p, n, bp) {
      const [e, path] = resolve(dfd, p, n); if (e) return e;
      if (path === 'checkpoint.trigger') {
        st.polls++;
        if (opts.maxPolls && st.polls > opts.maxPolls) throw new Crash('poll budget');
        if (opts.onPoll) { const r = opts.onPoll(st.polls, vfs, st); if (r !== undefined) { if (r === 0) filestat(bp, 4, 0); return r; } }
      }
      if (vfs.dirs.has(path)) { filestat(bp, 3, 0); return 0; }
      const f = vfs.files.get(path); if (!f) return ERRNO.NOENT; filestat(bp, 4, f.length); return 0;
    },
    path_filestat_set_times(fd, fl, p, n) { const [e, path] = resolve(fd, p, n); if (e) return e; return vfs.files.has(path) || vfs.dirs.has(path) ? 0 : ERRNO.NOENT; },
    path_unlink_file(fd, p, n) { const [e, path] = resolve(fd, p, n); if (e) return e; if (!vfs.files.has(path)) return ERRNO.NOENT; vfs.files.delete(path); return 0; },
    path_create_directory(fd, p, n) { const [e, path] = resolve(fd, p, n); if (e) return e; if (vfs.dirs.has(path) || vfs.files.has(path)) return ERRNO.EXIST; vfs.dirs.add(path); return 0; },
    path_remove_directory(fd, p, n) { const [e, path] = resolve(fd, p, n); if (e) return e; if (!vfs.dirs.has(path)) return ERRNO.NOENT; for (const k of vfs.files.keys()) if (k.startsWith(path + '/')) return ERRNO.NOTEMPTY; vfs.dirs.delete(path); return 0; },
    path_rename(fd, p, n, fd2, p2, n2) { const [e, a] = resolve(fd, p, n); if (e) return e; const [e2, b] = resolve(fd2, p2, n2); if (e2) return e2; if (!vfs.files.has(a)) return ERRNO.NOENT; vfs.files.set(b, vfs.files.get(a)); if (a !== b) vfs.files.delete(a); return 0; },
    path_link() { return ERRNO.NOSYS; }, path_symlink() { return ERRNO.NOSYS; }, path_readlink() { return ERRNO.INVAL; },
    poll_oneoff(ip, op, n, np) {
      const d = DV(), u = U8(); ip >>>= 0; op >>>= 0; if (n === 0) return ERRNO.INVAL;
      for (let i = 0; i < n; i++) { u.fill(0, op + 32 * i, op + 32 * i + 32); d.setBigUint64(op + 32 * i, d.getBigUint64(ip + 48 * i, true), true); d.setUint8(op + 32 * i + 10, d.getUint8(ip + 48 * i + 8)); }
      d.setUint32(np >>> 0, n, true); return 0;
    },
    proc_raise() { return ERRNO.NOSYS; },
    sock_accept() { return ERRNO.NOSYS; }, sock_recv() { return ERRNO.NOSYS; }, sock_send() { return ERRNO.NOSYS; }, sock_shutdown() { return ERRNO.NOSYS; },
  };
  function rd(fd, ip, n, rp, at) {
    const f = fds.get(fd); if (!f) return ERRNO.BADF; if (f.kind === 'dir' || f.kind === 'out') return ERRNO.BADF;
    if (at !== null && f.kind !== 'file') return ERRNO.SPIPE;
    const data = f.kind === 'file' ? (vfs.files.get(f.path) ?? new Uint8Array(0)) : f.data;
    let pos = at ?? f.pos, tot = 0; const u = U8();
    let budget = opts.maxRead ?? Infinity;
    for (const [p, l] of iovs(ip, n)) { const k = Math.max(0, Math.min(l, data.length - pos, budget)); u.set(data.subarray(pos, pos + k), p); pos += k; tot += k; budget -= k; if (k < l) break; }
    if (at === null) f.pos = pos;
    DV().setUint32(rp >>> 0, tot, true); return 0;
  }
  function wr(fd, ip, n, wp, at) {
    const f = fds.get(fd); if (!f) return ERRNO.BADF; if (f.kind === 'dir' || f.kind === 'stdin') return ERRNO.BADF;
    const u = U8(); const parts = iovs(ip, n).map(([p, l]) => u.slice(p, p + l));
    let all = new Uint8Array(parts.reduce((a, b) => a + b.length, 0)); let o = 0; for (const q of parts) { all.set(q, o); o += q.length; }
    if (f.kind === 'out') { if (at !== null) return ERRNO.SPIPE; out[f.n].push(all); if (f.n === 1) st.outLen += all.length; if (opts.onOut) opts.onOut(f.n, all); DV().setUint32(wp >>> 0, all.length, true); return 0; }
    if (opts.onFileWrite) { const r = opts.onFileWrite(f.path, all, st, vfs); if (r) { if (r.errno) return r.errno; if (r.take !== undefined) all = all.subarray(0, r.take); if (r.crash) { put(f, all, at); throw new Crash('write ' + f.path); } } }
    put(f, all, at); DV().setUint32(wp >>> 0, all.length, true); return 0;
  }
  function put(f, all, at) {
    const cur = vfs.files.get(f.path) ?? new Uint8Array(0); const pos = at ?? (f.append ? cur.length : f.pos);
    const nb = new Uint8Array(Math.max(cur.length, pos + all.length)); nb.set(cur); nb.set(all, pos); vfs.files.set(f.path, nb); if (at === null) f.pos = pos + all.length;
  }
  // what a call says to the host, free of addresses of the runtime's own memory
  const hex = (p, n) => Buffer.from(mem.buffer, p >>> 0, n >>> 0).toString('latin1');
  const PATHAT = { path_open: 2, path_filestat_get: 2, path_filestat_set_times: 2, path_unlink_file: 1, path_create_directory: 1, path_remove_directory: 1, path_readlink: 1 };
  const meaning = (k, a) => {
    if (/^(fd_p?write|sock_send)$/.test(k)) return [a[0], k === 'fd_pwrite' ? a[3] : '', iovs(a[1], a[2]).map(([p, n]) => hex(p, n)).join('|')];
    if (/^(fd_p?read|sock_recv)$/.test(k)) return [a[0], k === 'fd_pread' ? a[3] : '', iovs(a[1], a[2]).map(([, n]) => n).join('|')];
    if (k in PATHAT) { const i = PATHAT[k]; return [a[0], hex(a[i], a[i + 1]), ...a.slice(i + 2, -1)]; }
    if (k === 'path_rename') return [a[0], hex(a[1], a[2]), a[3], hex(a[4], a[5])];
    return a.filter((x, i) => k.startsWith('proc_') || (k.startsWith('fd_') && i === 0) || typeof x === 'bigint');
  };
  const imports = {};
  for (const k in impl) {
    imports[k] = (...a) => {
      st.calls++;
      if (opts.maxCalls && st.calls > opts.maxCalls) throw new Crash('call budget');
      if (opts.onMeaning) opts.onMeaning(k, meaning(k, a));
      if (opts.onCall) { const r = opts.onCall(k, a, { mem, st, vfs, fds, str }); if (r !== undefined) { if (log) log.push([k, ...a.map(x => typeof x === 'bigint' ? x.toString() : x), '=', r]); return r; } }
      const r = impl[k](...a);
      if (opts.onReturn) opts.onReturn(k, a, r);
      if (log) log.push([k, ...a.map(x => typeof x === 'bigint' ? x.toString() : x), '=', r]);
      return r;
    };
  }
  return { imports: { wasi_snapshot_preview1: imports }, setMemory(m) { mem = m; }, vfs, out, st, fds,
    text(n) { return td.decode(cat(out[n])); }, bytes(n) { return cat(out[n]); } };
}
export function cat(arr) { const r = new Uint8Array(arr.reduce((a, b) => a + b.length, 0)); let o = 0; for (const x of arr) { r.set(x, o); o += x.length; } return r; }

// One process life of chiwawa.wasm: returns exit status, output and host state.
export function runOnce(module, opts) {
  const h = makeHost(opts);
  let exit = 0, abort = null;
  try {
    const inst = new WebAssembly.Instance(module, h.imports);
    h.setMemory(inst.exports.memory); h.instance = inst; if (opts.onMemory) opts.onMemory(() => inst.exports.memory);
    if (opts.onStart) opts.onStart(inst);
    inst.exports._start();
  } catch (e) {
    if (e instanceof Exit) exit = e.code;
    else if (e instanceof Crash) { exit = -2; abort = e.why; }
    else { exit = -1; abort = String(e && e.message || e); }
  }
  return { exit, abort, stdout: h.text(1), stderr: h.text(2), out: h.bytes(1), polls: h.st.polls, calls: h.st.calls, vfs: h.vfs, host: h };
}
