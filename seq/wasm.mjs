// wasm.mjs MODULE ID OUT PART PARTS: explores a share of the executions in a WebAssembly module
import fs from "node:fs";
const [module, , out, part, parts] = process.argv.slice(2);
let memory;
const bytes = (p, n) => new Uint8Array(memory.buffer, p >>> 0, n >>> 0);
const at = fs.openSync(out + ".at", "w");
const host = {
  at: (p, n) => { fs.writeSync(at, bytes(p, n), 0, n >>> 0, 0); },
  log: (p, n) => { console.error(Buffer.from(bytes(p, n)).toString()); },
  report: (p, n) => { fs.writeFileSync(out, bytes(p, n)); },
};
// system calls that are compiled in but never made here
const env = new Proxy({}, { get: (_, name) => () => { throw new Error("error: abnormal termination: " + String(name)); } });
const m = await WebAssembly.compile(fs.readFileSync(module));
const imports = { host };
for (const i of WebAssembly.Module.imports(m)) {
  if (i.module !== "host") (imports[i.module] ??= {})[i.name] = env[i.name];
}
const inst = await WebAssembly.instantiate(m, imports);
memory = inst.exports.memory;
try {
  inst.exports.share(process.env.VERIF_TIER === "thorough" ? 1 : 0, +part, +parts);
} catch (e) {
  // a trap: an abort, a stack overflow, memory exhausted
  console.error("error: abnormal termination: " + e + "\n" + e.stack);
  process.exit(1);
}
