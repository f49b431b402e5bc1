// Executes requests (length-prefixed, from standard input) in the WebAssembly module; replies are length-prefixed on standard output.
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const imports = {};
for (const i of WebAssembly.Module.imports(mod)) {
  (imports[i.module] ||= {})[i.name] = () => { throw new Error('import called: ' + i.module + '.' + i.name); };
}
let inst = null, uses = 0;
function fresh() { inst = new WebAssembly.Instance(mod, imports).exports; inst.init(); uses = 0; }
function readN(n) {
  const b = Buffer.alloc(n);
  let at = 0;
  while (at < n) {
    const k = fs.readSync(0, b, at, n - at, null);
    if (k === 0) process.exit(0);
    at += k;
  }
  return b;
}
function writeAll(b) {
  let at = 0;
  while (at < b.length) {
    try { at += fs.writeSync(1, b, at, b.length - at); }
    catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
}
for (;;) {
  const n = readN(4).readUInt32LE(0);
  const q = readN(n);
  if (!inst || uses++ > 40) fresh();
  let note = '';
  const p = inst.request(n) >>> 0;
  new Uint8Array(inst.memory.buffer, p, n).set(q);
  let dead = false;
  try { inst.run(); } catch (e) { dead = true; note = String(e); inst.trapped(); }
  const a = inst.reply() >>> 0, l = inst.reply_len() >>> 0;
  const out = Buffer.from(new Uint8Array(inst.memory.buffer, a, l));
  const nb = Buffer.from(note);
  const h = Buffer.alloc(8);
  h.writeUInt32LE(out.length, 0);
  h.writeUInt32LE(nb.length, 4);
  writeAll(Buffer.concat([h, nb, out]));
  if (dead) inst = null;
}
