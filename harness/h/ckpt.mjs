// Runs a schedule of the checkpoint protocol on the real runtime and records
// what happened as events of the specification (Ckpt.tla).
import * as P from '../prog.mjs';
import { runOnce, VFS, Crash } from '../host.mjs';
import { ARGS } from './prog.mjs';
const ERR = { io: 29, intr: 27 };
const prepared = new Map(), judged = new Map();
export function guest(line) {
  let g = prepared.get(line); if (g) return g;
  const rec = JSON.parse(JSON.parse(line)); const bytes = P.compile(rec.prog), exp = P.flatten(rec.out);
  const nat = P.native(bytes); const d = new DataView(Uint8Array.from(rec.res[0]).buffer);
  const tool = /NOMEM/.test(nat.err ?? '') ? null : nat.s !== 'done' || P.mismatch(exp, nat.out) >= 0 || nat.res[0] !== d.getInt32(0, true) ? 'specification and V8 differ on ' + rec.prof : null;
  g = { bytes, exp, at: new Map([...exp].map((b, i) => [b, i + 1])), result: `Result: Num(I32(${d.getInt32(0, true)}))`, tool, name: rec.prof };
  prepared.set(line, g); return g;
}
export const RESTORE = ['chiwawa', 'g.wasm', '--restore', 'checkpoint.bin'];
// what a stored checkpoint is worth: p + 1 if restoring it continues the guest at position p, else -1
export function worth(g, content, mods) {
  const key = g.name + Buffer.from(content).toString('latin1'); const k = judged.get(key); if (k !== undefined) return k;
  const r = runOnce(mods.tco, { vfs: new VFS({ 'g.wasm': g.bytes, 'checkpoint.bin': content }), args: RESTORE, maxCalls: 100000 });
  let v = -1;
  if (r.exit === 0 && !/Error/.test(r.stderr) && r.stdout.includes(g.result)) {
    const out = [...r.out].filter(b => b > 127), p = g.exp.length - out.length;
    if (p >= 0 && out.every((b, i) => b === g.exp[p + i])) v = p + 1;
  }
  judged.set(key, v); return v;
}
export function handle(rec, { mods, opts }) {
  const ev = []; const stats = { schedules: 1, runs: 0, checkpoints: 0, faults: 0, deaths: 0 };
  const pick = rec.sched.reduce((a, l) => a * 31 + l.at * 7 + l.late * 3 + l.fj * 5 + l.fk.length + (l.m === 'tco') + 2 * l.pre, opts.salt ?? 0) % opts.guests.length;
  const traces = [];
  for (const gi of opts.every ? opts.guests.map((_, i) => i) : [pick]) {
    const g = guest(opts.guests[gi]); if (g.tool) return { tool: g.tool, stats };
    const r = history(rec, g, mods, stats); traces.push({ last: g.exp.length, ev: r });
  }
  return { stats, traces };
}
function history(rec, g, mods, stats) {
  const vfs = new VFS({ 'g.wasm': g.bytes }); const ev = [];
  for (const l of rec.sched) {
    const request = () => { vfs.files.set('checkpoint.trigger', new Uint8Array(0)); trig = true; ev.push(['request']); };
    let trig = vfs.files.has('checkpoint.trigger'), bin = vfs.files.get('checkpoint.bin'), count = -1, text = '', resumed = l.h === 'fresh', reported = false, guestOut = 0, looked = 0, tear = false;
    if (l.pre) request();
    ev.push(['start', l.h, l.cr]);
    const die = why => { throw new Crash(why); };
    const r = runOnce(mods[l.m], {
      vfs, args: l.h === 'fresh' ? [...ARGS, ...(l.cr ? ['--cr'] : [])] : [...RESTORE, ...(l.cr ? ['--cr'] : [])], maxCalls: 60000,
      onPoll: n => {
        if (count >= 0) return undefined;            // already storing: not a look of the guest
        looked = n;
        if (l.at === n && !vfs.files.has('checkpoint.trigger')) request();
        if (l.fk === 'blind' && l.fj === n) { stats.faults++; ev.push(['fault'], ['look', false]); return 29; }
        if (l.fk === 'die' && l.fj === n && l.at !== n && !vfs.files.has('checkpoint.trigger')) { stats.deaths++; ev.push(['fault']); die('die'); }
        const seen = vfs.files.has('checkpoint.trigger'); ev.push(['look', seen]); if (seen) count = 0;
        return undefined;
      },
      onCall: (k, a) => {
        if (count < 0) return undefined; count++; stats.storing = { max: count };
        if (l.late === count) request();
        if (l.fj !== count || l.fk === 'none' || l.fk === 'blind') return undefined;
        if (l.fk === 'die' || (l.fk === 'torn' && !(k === 'fd_write' && a[0] > 2))) { stats.deaths++; ev.push(['fault']); die('die'); }
        if (k === 'proc_exit') return undefined;
        if (l.fk === 'short' || l.fk === 'torn') { if (k === 'fd_write' && a[0] > 2) { tear = true; stats.faults++; ev.push(['fault']); } return undefined; }
        stats.faults++; ev.push(['fault']);
        if (k === 'path_unlink_file') ev.push(['consume', false]);
        return ERR[l.fk];
      },
      onFileWrite: (path, all) => { if (!tear) return null; tear = false; return l.fk === 'torn' ? { take: all.length >> 1, crash: true } : { take: Math.max(1, all.length >> 1) }; },
      onReturn: k => {
        const t = vfs.files.has('checkpoint.trigger'); if (trig && !t) ev.push(['consume', true]); else if (k === 'path_unlink_file' && t) ev.push(['consume', false]); trig = t;
        const b = vfs.files.get('checkpoint.bin'); if (b !== bin) { bin = b; ev.push(['bin', b ?? null]); }
      },
      onOut: (n, b) => {
        if (n !== 1) return; let s = '';
        for (const x of b) if (x > 127) { ev.push(['out', g.at.get(x) ?? -1]); guestOut++; } else s += String.fromCharCode(x);
        text += s;
        if (!resumed && text.includes('Resuming execution')) { resumed = true; ev.push(['resume']); }
        if (!reported && /Checkpoint successful|stopped for checkpoint/.test(text)) { reported = true; ev.push(['report']); stats.checkpoints++; }
      },
    });
    stats.runs++;
    if (r.exit === -2) { ev.push(/budget/.test(r.abort) ? ['end', 'runaway'] : ['die']); continue; }
    const err = r.exit !== 0 || /error|failed|panicked/i.test(r.stderr);
    const kind = !err && text.includes('Execution stopped for checkpoint.') ? 'stopped' : !err && text.includes(g.result) ? 'done' : r.exit !== 0 && l.h === 'restore' && !resumed && !guestOut ? 'refused' : err && !text.includes('Result') ? 'failed' : 'silent';
    ev.push(['end', kind]);
  }
  for (const e of ev) if (e[0] === 'bin') e[1] = e[1] === null ? 0 : worth(g, e[1], mods);
  return ev;
}
