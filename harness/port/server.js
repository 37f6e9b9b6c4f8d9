// node server.js lib.wasm: requests on standard input, replies on standard output, as server.c
const fs = require('fs');
const M = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const X = new WebAssembly.Instance(M, {}).exports;
const wait = new Int32Array(new SharedArrayBuffer(4));
function get(n) {
  const b = Buffer.alloc(n);
  let at = 0;
  while (at < n) {
    let k;
    try { k = fs.readSync(0, b, at, n - at, null); } catch (e) { if (e.code === 'EAGAIN') { Atomics.wait(wait, 0, 0, 1); continue; } if (e.code === 'EOF') { return null; } throw e; }
    if (k === 0) { return null; }
    at += k;
  }
  return b;
}
function put(b) {
  let at = 0;
  while (at < b.length) {
    try { at += fs.writeSync(1, b, at, b.length - at); } catch (e) { if (e.code !== 'EAGAIN') { throw e; } Atomics.wait(wait, 0, 0, 1); }
  }
}
for (;;) {
  const h = get(4);
  if (!h) { break; }
  const q = get(h.readUInt32LE(0));
  if (!q) { break; }
  new Uint8Array(X.memory.buffer, X.inbuf() >>> 0, q.length).set(q);
  const m = X.port(q.length) >>> 0;
  const r = Buffer.alloc(4 + m);
  r.writeUInt32LE(m, 0);
  r.set(new Uint8Array(X.memory.buffer, X.outbuf() >>> 0, m), 4);
  put(r);
}
