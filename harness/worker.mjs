// Replays behaviours of the specification on the real runtime.
import { parentPort, workerData } from 'worker_threads';
import { readFileSync } from 'fs';
const mods = { tco: new WebAssembly.Module(readFileSync(workerData.out + '/tco.wasm')), legacy: new WebAssembly.Module(readFileSync(workerData.out + '/legacy.wasm')) };
const progress = new Int32Array(workerData.progress);
const handlers = {};
parentPort.on('message', async ({ id, handler, opts, lines }) => {
  const h = handlers[handler] ??= (await import(`./h/${handler}.mjs`)).handle;
  const results = [];
  for (let i = 0; i < lines.length; i++) {
    Atomics.store(progress, workerData.slot, i);
    let r;
    try { const rec = typeof lines[i] === 'string' && lines[i][0] === '"' ? JSON.parse(JSON.parse(lines[i])) : typeof lines[i] === 'string' ? JSON.parse(lines[i]) : lines[i]; r = h(rec, { mods, opts }); }
    catch (e) { r = { tool: String(e && e.stack || e) }; }
    results.push(r);
  }
  parentPort.postMessage({ id, results });
});
parentPort.postMessage({ ready: true });
