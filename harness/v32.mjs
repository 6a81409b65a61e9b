// Runs the 32-bit build of the harness: v32.mjs MODULE block FILE SECONDS SHOW | made PROP SEED FROM N SECONDS
import fs from "node:fs";
const [path, mode, ...a] = process.argv.slice(2);
const module = new WebAssembly.Module(fs.readFileSync(path));
let x, notes;
function fresh() {
  notes = [];
  x = new WebAssembly.Instance(module, { env: { note(kind, p, n) {
    notes.push([kind, Buffer.from(x.memory.buffer, p, n).toString("utf8")]);
  } } }).exports;
  x.start();
}
function load(file) {
  const b = fs.readFileSync(file);
  const p = x.room(b.length);
  new Uint8Array(x.memory.buffer).set(b, p);
  return x.load(p, b.length);
}
const out = [];
function end(code) { fs.writeSync(1, out.join("\n") + "\n"); process.exit(code); }
// what a call that did not return, or noted something, means; undefined: nothing
function judge(i, error) {
  const line = notes.map(n => n[1]).join("; ").replace(/\n/g, " ");
  if (notes.some(n => n[0] === 1)) { out.push(`HARNESS case ${i}: ${line}`); end(3); }
  if (notes.length) { out.push(`FAIL case ${i}: ${line}`); end(1); }
  if (error instanceof RangeError) return "deep";
  if (error) { out.push(`FAIL case ${i}: module ended: ${error}`); end(1); }
}
fresh();
const width = x.width();
let done = 0, evals = 0n, deep = 0;
const t0 = Date.now();
if (mode === "block") {
  const [file, secs, show] = a;
  let n = load(file);
  for (let i = 0; i < n && Date.now() - t0 < 1000 * secs; i++) {
    let error, d;
    try { d = x.says(i, Number(show)); } catch (e) { error = e; }
    if (judge(i, error) === "deep") { deep++; fresh(); load(file); continue; }
    out.push(`SAYS ${i} ${BigInt.asUintN(64, d)}`);
    done++;
  }
  evals = BigInt(done);
} else {
  const [prop, seed, from, n, secs] = a;
  for (let c = BigInt(from); c < BigInt(from) + BigInt(n) && Date.now() - t0 < 1000 * secs; c++) {
    let error, k = 0n;
    try { k = x.made(Number(prop.slice(1)), BigInt(seed), c); } catch (e) { error = e; }
    if (judge(c, error) === "deep") { deep++; fresh(); continue; }
    evals += k;
    done++;
  }
}
out.push(`DONE ${done} cases ${evals} evaluations pointer width ${width}, ${deep} too deep`);
end(0);
