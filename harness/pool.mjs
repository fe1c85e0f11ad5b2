// Worker pool with a watchdog: a case that does not finish is itself a finding.
import { Worker } from 'worker_threads';
export class Pool {
  constructor(out, n = 8, limitMs = 30000) {
    this.out = out; this.n = n; this.limitMs = limitMs; this.queue = []; this.slots = []; this.nextId = 1; this.idle = []; this.pending = 0;
    this.progress = new SharedArrayBuffer(4 * n);
    for (let i = 0; i < n; i++) this.spawn(i);
    this.timer = setInterval(() => this.watch(), 500);
  }
  spawn(slot) {
    const w = new Worker(new URL('./worker.mjs', import.meta.url), { workerData: { out: this.out, slot, progress: this.progress }, resourceLimits: { maxOldGenerationSizeMb: 1500 } });
    const s = this.slots[slot] = { w, slot, job: null, ready: false };
    w.on('message', m => {
      if (this.slots[slot] !== s) return;
      if (m.ready) { s.ready = true; this.give(s); return; }
      const j = s.job; s.job = null; this.give(s); this.done(j, m.results);
    });
    w.on('error', e => { if (this.slots[slot] !== s) return; const j = s.job; this.spawn(slot); if (j) this.done(j, j.lines.map((_, i) => ({ tool: 'worker died: ' + e.message }))); });
  }
  done(j, results) { this.pending--; j.resolve(results); if (this.drain && !this.pending) { const d = this.drain; this.drain = null; d(); } }
  give(s) { if (s.job || !s.ready) return; const j = this.queue.shift(); if (!j) return; s.job = j; s.at = Date.now(); s.pos = -1; s.w.postMessage({ id: j.id, handler: j.handler, opts: j.opts, lines: j.lines }); }
  watch() {
    const v = new Int32Array(this.progress);
    for (const s of this.slots) {
      if (!s.job) continue; const p = Atomics.load(v, s.slot);
      if (p !== s.pos) { s.pos = p; s.at = Date.now(); continue; }
      if (Date.now() - s.at > this.limitMs) {
        const j = s.job; s.w.terminate(); this.spawn(s.slot);
        // the case at position p hangs; the others of the batch are run again
        const rest = j.lines.filter((_, i) => i !== p);
        const hang = { hang: true };
        if (!rest.length) this.done(j, [hang]);
        else this.queue.push({ ...j, lines: rest, resolve: r => j.resolve([...r.slice(0, p), hang, ...r.slice(p)]) });
        for (const t of this.slots) this.give(t);
      }
    }
  }
  run(handler, lines, opts) { return new Promise(resolve => { this.pending++; this.queue.push({ id: this.nextId++, handler, lines, opts, resolve }); for (const s of this.slots) this.give(s); }); }
  get backlog() { return this.queue.length; }
  idleAll() { return this.pending ? new Promise(r => { this.drain = r; }) : Promise.resolve(); }
  async close() { clearInterval(this.timer); for (const s of this.slots) { const w = s.w; this.slots[s.slot] = null; await w.terminate(); } }
}
