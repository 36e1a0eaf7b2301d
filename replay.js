// Second replay: the wasm module itself in V8, with concrete inputs.
const fs = require('fs');
const [, , wasmPath, job, file] = process.argv;
const inputs = fs.readFileSync(file, 'utf8').split('\n').filter(l => /^[ucb] /.test(l));
let pos = 0, failed = false, allow = false, stable = Buffer.alloc(0), inst;
const out = [];
function end(c) { console.log(out.join('\n')); process.exit(c); }
function next(k) { const l = inputs[pos++]; if (l === undefined || l[0] !== k) { out.push('DESYNC'); end(3); } return l.split(' '); }
const U = v => BigInt.asUintN(64, v);
const mem = () => new Uint8Array(inst.exports.memory.buffer);
class Trap extends Error {}
const sym = {
  u64: (lo, hi) => { const v = BigInt(next('u')[1]); if (v < U(lo) || v > U(hi)) { out.push('DESYNC'); end(3); } return BigInt.asIntN(64, v); },
  choose: n => parseInt(next('c')[1]),
  bytes: (p, n) => { const t = next('b'); p >>>= 0; const m = mem(); m.fill(0, p, p + n); for (const e of t.slice(2)) { const [i, v] = e.split(':').map(Number); if (i < n) m[p + i] = v; } },
  assume: c => { if (!c) { out.push('ASSUME-FAILED'); end(4); } },
  check: (c, id) => { if (!c) { out.push('CHECK-FAILED ' + id); failed = true; } },
  cover: id => out.push('cover ' + id),
  observe: (id, v) => out.push(`o ${id} ${U(v)}`),
  ite: (c, a, b) => c ? a : b,
  concretize: v => v, upper: v => v,
  allow_trap: on => { allow = !!on; },
  byte: (p, n, i) => { i = U(i); return i < BigInt(n >>> 0) ? BigInt(mem()[(p >>> 0) + Number(i)]) : 0n; },
  note: (p, n) => out.push('note ' + Buffer.from(mem().slice(p >>> 0, (p >>> 0) + n)).toString()),
};
const rng = (o, n) => { if (o + n > BigInt(stable.length)) throw new Trap('stable memory out of bounds'); };
const ic0 = {
  stable64_size: () => BigInt(stable.length / 65536),
  stable64_grow: n => { const old = BigInt(stable.length / 65536); stable = Buffer.concat([stable, Buffer.alloc(Number(n) * 65536)]); return old; },
  stable64_write: (o, s, n) => { o = U(o); s = Number(U(s)); n = U(n); rng(o, n); stable.set(mem().subarray(s, s + Number(n)), Number(o)); },
  stable64_read: (d, o, n) => { o = U(o); d = Number(U(d)); n = U(n); rng(o, n); mem().set(stable.subarray(Number(o), Number(o + n)), d); },
  trap: () => { throw new Trap('ic0.trap'); }, debug_print: () => {},
};
const proxy = t => new Proxy(t, { get: (o, k) => o[k] || (() => { throw new Trap('import ' + String(k)); }) });
const mod = new WebAssembly.Module(fs.readFileSync(wasmPath));
const imp = {};
for (const i of WebAssembly.Module.imports(mod)) (imp[i.module] ||= {})[i.name] = proxy(i.module === 'sym' ? sym : ic0)[i.name];
inst = new WebAssembly.Instance(mod, imp);
try { inst.exports[job](); } catch (e) { out.push('PANIC ' + e.message); end(allow ? 5 : 101); }
if (pos < inputs.length) { out.push('DESYNC left'); end(3); }
end(failed ? 10 : 0);
