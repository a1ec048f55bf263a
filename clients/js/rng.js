"use strict";
// Seeded generator and program definitions shared by the client scenarios.
function hash(s) {
  let h = 0x811c9dc5;
  for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 0x01000193) >>> 0; }
  return h >>> 0;
}
class Rng {
  constructor(seed) {
    let h = hash(String(seed));
    const next = () => { h = (h + 0x9e3779b9) >>> 0; let z = h; z = Math.imul(z ^ (z >>> 16), 0x85ebca6b); z = Math.imul(z ^ (z >>> 13), 0xc2b2ae35); return (z ^ (z >>> 16)) >>> 0; };
    this.a = next(); this.b = next(); this.c = next(); this.d = 1;
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() { // sfc32
    const t = (((this.a + this.b) >>> 0) + this.d) >>> 0;
    this.d = (this.d + 1) >>> 0;
    this.a = (this.b ^ (this.b >>> 9)) >>> 0;
    this.b = (this.c + (this.c << 3)) >>> 0;
    this.c = ((this.c << 21) | (this.c >>> 11)) >>> 0;
    this.c = (this.c + t) >>> 0;
    return t;
  }
  f() { return this.u32() / 4294967296; }
  n(k) { return Math.floor(this.f() * k); }            // 0..k-1
  r(a, b) { return a + this.n(b - a + 1); }
  p(x) { return this.f() < x; }
  pick(a) { return a[this.n(a.length)]; }
  shuffle(a) { for (let i = a.length - 1; i > 0; i--) { const j = this.n(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
  val() { return this.pick([0, 1, 1, 2, -3, 0.5, 7.25, -0.125, 1e6, 3.1]) * (this.p(0.3) ? this.r(1, 9) : 1) + (this.p(0.5) ? this.n(100) / 8 : 0); }
}
// one operator of each kind the schema knows: [type, inputs, params]
function randomOp(g, id) {
  const k = g.pick(["Add", "Scale", "Power", "Constant", "Identity", "Count", "CumulativeSum", "Difference", "MovingAverage", "MovingAverage", "StandardDeviation",
    "PeakDetector", "FiniteImpulseResponse", "AutoRegressive", "GreaterThan", "LessThan", "EqualTo", "TimeShift", "ConstantResampler", "CosineResampler", "HermiteResampler", "Function",
    "Join", "Linear", "Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream", "LessThanStream", "Demultiplexer", "Variable", "Output"]);
  const o = { id, type: k };
  let ins = ["i1"], outs = ["o1"];
  const two = () => { ins = ["i1", "i2"]; };
  switch (k) {
    case "Add": case "Scale": case "Constant": case "GreaterThan": case "LessThan": case "EqualTo": o.value = g.val(); break;
    case "Power": o.value = g.pick([2, 3, 0.5, 1, -1]); break;
    case "MovingAverage": o.n = g.r(1, 6); break;
    case "StandardDeviation": o.n = g.r(2, 6); break;
    case "PeakDetector": o.n = g.pick([3, 5, 7]); break;
    case "FiniteImpulseResponse": case "AutoRegressive": o.coeff = Array.from({ length: g.r(1, 4) }, () => g.r(-4, 4) / 4); break;
    case "TimeShift": if (g.p(0.7)) o.dt = g.r(1, 9); if (g.p(0.7)) o.times = g.p(0.3) ? g.r(-20, -3) : g.r(-2, 3); break;
    case "ConstantResampler": o.interval = g.r(1, 9); break;
    case "CosineResampler": case "HermiteResampler": o.dt = g.r(1, 9); break;
    case "Function": o.points = Array.from({ length: g.r(2, 4) }, (_, i) => [i * g.r(2, 4) - 3 + i, g.val()]); if (g.p(0.6)) o.interpolationType = g.pick(["linear", "hermite"]); break;
    case "Join": { const n = g.p(0.6) ? g.r(2, 4) : undefined; if (n) o.numPorts = n; ins = []; outs = []; for (let i = 1; i <= (n ?? 2); i++) { ins.push("i" + i); outs.push("o" + i); } break; }
    case "Linear": { const n = g.r(2, 4); o.coeff = Array.from({ length: n }, () => g.r(-4, 4) / 2); ins = []; for (let i = 1; i <= n; i++) ins.push("i" + i); break; }
    case "Plus": case "Minus": case "Multiplication": case "Division": case "And": case "Or": case "GreaterThanStream": case "LessThanStream": two(); break;
    case "Demultiplexer": { const n = g.p(0.5) ? g.r(1, 3) : undefined; if (n) o.numPorts = n; outs = []; for (let i = 1; i <= (n ?? 1); i++) { ins.push("c" + i); outs.push("o" + i); } break; }
    case "Variable": if (g.p(0.6)) o.value = g.val(); ins = ["i1", "c1"]; break;
    case "Output": { const n = g.p(0.5) ? g.r(1, 3) : undefined; if (n) o.numPorts = n; ins = []; outs = []; for (let i = 1; i <= (n ?? 1); i++) { ins.push("i" + i); outs.push("o" + i); } break; }
  }
  return { op: o, ins, outs };
}
const odd = ["x", "op", "Größe", "a b", "q\"q", "id-1", "日本", "x:y", "back\\slash", "0"];
// A definition the schema accepts: a random acyclic graph behind one Input.
function randomDef(g, opt = {}) {
  const ports = opt.ports ?? g.pick([1, 1, 1, 2, 2, 3]);
  const pre = g.p(0.2) ? g.pick(odd) : "";
  const input = { id: pre + "in", type: "Input" };
  if (ports > 1 || g.p(0.3)) input.numPorts = ports;
  const ops = [input], conns = [];
  const prods = [];
  for (let i = 1; i <= ports; i++) prods.push([input.id, "o" + i, ports]);
  const n = opt.ops ?? g.r(1, 6);
  for (let k = 1; k <= n; k++) {
    const { op, ins, outs } = randomOp(g, pre + "n" + k);
    ops.push(op);
    for (const to of ins) {
      const [f, fp, nf] = g.p(0.6) ? prods[prods.length - 1 - g.n(Math.min(3, prods.length))] : g.pick(prods);
      const c = { from: f, to: op.id };
      if (nf > 1 || g.p(0.6)) c.fromPort = fp; // a port may be left out where there is only one
      if (ins.length > 1 || g.p(0.6)) c.toPort = to;
      conns.push(c);
    }
    for (const o of outs) prods.push([op.id, o, outs.length]);
  }
  const def = { apiVersion: "v1", operators: ops, connections: conns, entryOperator: input.id };
  if (g.p(0.4)) def.title = g.pick(["a program", "Tïtle \"q\"", "x"]);
  if (g.p(0.2)) def.description = "described";
  if (g.p(0.2)) def.date = "2024-02-29";
  if (g.p(0.2)) def.author = "Someone <someone@gmail.com>";
  if (g.p(0.2)) def.license = "MIT";
  if (g.p(0.4)) {
    def.output = {};
    for (const [id, p] of g.shuffle(prods.slice()).slice(0, g.r(1, 3))) if (/^[A-Z0-9a-t_-]+$/.test(id)) (def.output[id] ??= []).push(p);
    if (!Object.keys(def.output).length) delete def.output;
  }
  return { def, ports: Array.from({ length: ports }, (_, i) => "i" + (i + 1)) };
}
module.exports = { Rng, hash, randomDef, randomOp };
