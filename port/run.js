// node run.js FILE.wasm digest KIND SEED FROM TO STEP | describe KIND SEED I | target
const fs = require('fs');
const [file, cmd, ...a] = process.argv.slice(2);
const mod = new WebAssembly.Module(fs.readFileSync(file));
const fresh = () => new WebAssembly.Instance(mod, {}).exports;
let x = fresh();
const n = a.map(Number);
if (cmd === 'target') console.log(`TARGET ${x.pointer_bits()} bits, little endian`);
else if (cmd === 'digest') {
  const [kind, seed, from, to, step] = n, out = [];
  for (let i = from; i < to; i += step) {
    let d;
    try {
      d = BigInt.asUintN(64, x.digest(kind, seed, i, Math.min(to, i + step))).toString(16).padStart(16, '0');
    } catch (e) {
      if (!(e instanceof WebAssembly.RuntimeError) && !(e instanceof RangeError)) throw e;
      d = 'died';
      x = fresh();
    }
    out.push(`${i} ${d}`);
  }
  console.log(out.join('\n'));
} else {
  try {
    const len = x.describe(...n);
    process.stdout.write(Buffer.from(new Uint8Array(x.memory.buffer, x.described() >>> 0, len)));
  } catch (e) { console.log('died: ' + e.message); }
}
