// Runs the monitor compiled for WebAssembly:  node wasm.mjs MODULE COMMAND ARGS...
// The commands and options are those of the native monitor (run, case, digests, list).
import fs from 'node:fs';

const [module, ...args] = process.argv.slice(2);
const opt = (n, d) => { const i = args.indexOf(n); return i < 0 ? d : args[i + 1]; };
const { instance } = await WebAssembly.instantiate(fs.readFileSync(module), {});
const x = instance.exports;
const give = (list) => {
  const b = new TextEncoder().encode(list.join('\n'));
  const p = x.input(b.length);
  new Uint8Array(x.memory.buffer, p, b.length).set(b);
};
const take = (n) => { const p = x.output(); return new TextDecoder().decode(new Uint8Array(x.memory.buffer, p, n)); };

give(args);
if (args[0] !== 'run') {
  process.stdout.write(take(x.ask()));
} else {
  const t0 = Date.now();
  const secs = Number(opt('--max-secs', '1e9'));
  const marks = opt('--marks'), lane = opt('--lane', '0');
  const n = x.start();
  for (let k = 0; k < n && Date.now() - t0 < secs * 1000; k++) {
    if (marks) fs.writeFileSync(`${marks}/${lane}`, take(x.doing()) + '\n');
    x.step();
  }
  if (marks) fs.rmSync(`${marks}/${lane}`, { force: true });
  const r = JSON.parse(take(x.report()));
  r.wall_s = (Date.now() - t0) / 1000;
  r.word = x.word();
  fs.writeFileSync(opt('--out', '/dev/stdout'), JSON.stringify(r));
}
