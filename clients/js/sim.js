"use strict";
// Deterministic simulation of the JavaScript client: the real client code and the real engine in one process; which
// call proceeds when, when the engine finishes loading and what fails is decided by a seeded plan.
const fs = require("fs"), path = require("path"), vm = require("vm");
const { Rng, hash, randomDef, randomOp } = require("./rng.js");
const NM = "/opt/veriftools/node/node_modules";
const DIR = process.env.CLIENT_BUILD;
const native = { exports: {} };
process.dlopen(native, path.join(DIR, "engine.so"));
const eng = native.exports.call; // the engine itself
const glue = native.exports.javascript; // by way of what its module exports
const zod = require(require.resolve("zod/v3", { paths: [NM] }));
const genError = fs.existsSync(path.join(DIR, "generated-error.txt")) ? fs.readFileSync(path.join(DIR, "generated-error.txt"), "utf8") : null;
const script = new vm.Script("(function(require,module,exports){" + (genError ? "" : fs.readFileSync(path.join(DIR, "client.js"), "utf8")) + "\n})", { filename: "client.js" });
const load = script.runInThisContext();
const schema = JSON.parse(fs.readFileSync(path.join(DIR, "typescript", "jsonschema.json"), "utf8"));
const PARAMS = {};
for (const s of schema.properties.operators.items.oneOf)
  PARAMS[s.properties.type.enum[0]] = Object.keys(s.properties).filter((k) => k !== "type");

const canon = (v) => JSON.stringify(v, (_, x) => (x && typeof x === "object" && !Array.isArray(x) ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, x[k]])) : x));
class Violation extends Error { constructor(kind, detail) { super(detail); this.kind = kind; this.detail = detail; } }
const tryEng = (...a) => { try { return { ok: true, v: eng(...a) }; } catch (e) { return { ok: false, e: e.message }; } };

// ---------------------------------------------------------------- reference: the engine alone, one call after another
let refCount = 0;
function refCreate(def) { const id = "ref:" + ++refCount; const r = tryEng("createProgram", id, typeof def === "string" ? def : JSON.stringify(def)); return { id, ok: r.ok && r.v === "", why: r.ok ? r.v : r.e }; }
function refBatch(id, msgs, debug) {
  for (const [port, ms] of Object.entries(msgs)) for (const { time, value } of ms) { const r = tryEng("addToMessageBuffer", id, port, time, value); if (!r.ok) return r; }
  const r = tryEng(debug ? "processMessageBufferDebug" : "processMessageBuffer", id);
  return r.ok ? { ok: true, v: canon(JSON.parse(r.v)) } : r;
}
const refPorts = (id) => JSON.parse(eng("getProgramEntryPorts", id));
const refDelete = (id) => eng("deleteProgram", id);

// ---------------------------------------------------------------- one run
async function execute(plan) {
  const log = console.log;
  console.log = () => {}; // what the client says in verbose mode
  try { return await executeQuietly(plan); } finally { console.log = log; }
}
async function executeQuietly(plan) {
  if (plan.property === "C28") return cli.execute(plan);
  if (genError) throw new Violation(plan.property === "C25" ? "definition" : "harness", "the generated operator classes do not compile: " + genError);
  const cov = { faults: {}, ops: 0, trace: 0x811c9dc5, states: new Set(), rejected: 0, resolved: 0, macro: 0 };
  const mark = (s) => { cov.trace = (Math.imul(cov.trace ^ hash(s), 0x01000193)) >>> 0; };
  const fault = (k) => { cov.faults[k] = (cov.faults[k] ?? 0) + 1; };
  const ids = new Set(), labels = new Map();
  const label = (id) => { if (!labels.has(id)) labels.set(id, "#" + labels.size); return labels.get(id); };
  const captured = {};
  let loadResolve, loadReject, loaded = false, loads = 0;
  const loading = new Promise((a, b) => { loadResolve = a; loadReject = b; });
  loading.catch(() => {});
  const str = (x) => { if (typeof x !== "string") throw new TypeError("Cannot pass non-string to std::string"); return x; };
  const num = (x) => { if (typeof x !== "number" && typeof x !== "boolean") throw new TypeError(`Cannot convert "${x}" to number`); return +x; };
  const seen = (name, id, ...rest) => { ids.add(id); mark(name + label(id) + rest.join()); };
  const mod = {
    validate: (s) => glue("validate", str(s)),
    validateOperator: (t, s) => glue("validateOperator", str(t), str(s)),
    createProgram: (id, s) => { seen("create", str(id)); captured[id] = str(s); return glue("createProgram", id, s); },
    deleteProgram: (id) => { seen("delete", str(id)); return glue("deleteProgram", id); },
    addToMessageBuffer: (id, port, t, v) => { seen("add", str(id), port, t, v); return glue("addToMessageBuffer", id, str(port), num(t), num(v)); },
    processMessageBuffer: (id) => { seen("proc", str(id)); return glue("processMessageBuffer", id); },
    processMessageBufferDebug: (id) => { seen("procd", str(id)); return glue("processMessageBufferDebug", id); },
    getProgramEntryOperatorId: (id) => glue("getProgramEntryOperatorId", str(id)),
    getProgramEntryPorts: (id) => { seen("ports", str(id)); return glue("getProgramEntryPorts", id); },
    getProgramOutputFilter: (id) => glue("getProgramOutputFilter", str(id)),
    processBatch: (id, t, v, p) => { for (let i = 0; i < t.length; i++) mod.addToMessageBuffer(id, p[i], t[i], v[i]); return mod.processMessageBuffer(id); },
    processBatchDebug: (id, t, v, p) => { for (let i = 0; i < t.length; i++) mod.addToMessageBuffer(id, p[i], t[i], v[i]); return mod.processMessageBufferDebug(id); },
  };
  let nid = 0;
  globalThis.__sim = { id: () => `g${plan.salt}_${++nid}`, load: () => { loads++; return loading; } };
  const m = { exports: {} };
  load((n) => (n.includes("zod") ? zod : require(n)), m, m.exports);
  const C = m.exports;
  const api = () => C.RtBot.getInstance();

  let clock = 0;
  const history = [];
  const progs = plan.progs.map((d, i) => {
    const p = { i, def: d.def, entry: d.ports, history: [], started: 0 };
    if (d.mode === "raw") p.id = `raw${plan.salt}_${i}`;
    else if (d.mode === "build") { p.obj = new C.Program(d.init.entryOperator, d.init.title, d.init.description, d.init.date, d.init.author, d.init.license); p.id = p.obj.programId; }
    else { p.obj = C.Program.toInstance(JSON.parse(JSON.stringify(d.def))); p.id = p.obj.programId; }
    if (d.mode === "build") p.model = { ...JSON.parse(JSON.stringify(d.init)), apiVersion: "v1", operators: [], connections: [] };
    return p;
  });

  const handed = new Map(); // rows as handed to a client before
  const rows = (st) => {
    const key = canon(st.data);
    if (!st.share || !handed.has(key)) handed.set(key, JSON.parse(JSON.stringify(st.data)));
    return handed.get(key);
  };
  // ------------------------------------------------------------ issuing a call
  function issue(actor, st) {
    const p = progs[st.p];
    const rec = { actor, st, kind: st.k, p: st.p, inv: ++clock, ret: Infinity };
    mark(`inv${actor}${st.k}`);
    let pr;
    cov.ops++;
    const one = (s) => [s.t, s.v, ...(s.port ? [s.port] : [])];
    try {
      switch (st.k) {
        case "start": pr = p.obj.start(); break;
        case "stop": pr = p.obj.stop(); break;
        case "pm": case "pmd": {
          let port = st.port;
          if (!port && !p.started) port = p.entry[0];
          rec.msgs = { [port ?? p.entry[0]]: [{ time: st.t, value: st.v }] };
          pr = st.k === "pm" ? p.obj.processMessage(st.t, st.v, ...(port ? [port] : [])) : p.obj.processMessageDebug(st.t, st.v, ...(port ? [port] : []));
          break;
        }
        case "proc": case "procd":
          rec.msgs = JSON.parse(JSON.stringify(st.msgs));
          pr = st.k === "proc" ? api().process(p.id, st.msgs) : api().processDebug(p.id, st.msgs);
          break;
        case "create": pr = api().createProgram(p.id, JSON.stringify(p.def)); break;
        case "delete": pr = api().deleteProgram(p.id); break;
        case "ports": pr = api().getProgramEntryPorts(p.id); break;
        case "run": {
          let calls = 0;
          rec.progress = [];
          const cb = st.cb ? (x) => { rec.progress.push(x); if (++calls === st.cb) { rec.threw = true; throw new Error("progress callback failed"); } } : st.cb === 0 ? (x) => rec.progress.push(x) : undefined;
          rec.run = new C.RtBotRun(st.src === "string" ? JSON.stringify(Object.assign({ programId: p.id }, p.def)) : p.obj, rows(st), C.RtBotRunOutputFormat[st.fmt], cb, !!st.verbose);
          pr = rec.run.run();
          break;
        }
        default: throw new Error("unknown step " + st.k);
      }
      if (!pr || typeof pr.then !== "function") throw new Violation("client", `${st.k} did not return a promise`);
    } catch (e) { if (e instanceof Violation) throw e; pr = Promise.reject(e); }
    history.push(rec); p.history.push(rec);
    rec.done = pr.then(
      (v) => { rec.ret = ++clock; rec.ok = true; rec.v = v; cov.resolved++; if (st.k === "start") p.started++; mark(`ok${actor}`); },
      (e) => { rec.ret = ++clock; rec.ok = false; rec.e = String(e && e.message !== undefined ? e.message : e); cov.rejected++; mark(`err${actor}`); });
    return rec;
  }

  // ------------------------------------------------------------ building a program (C25)
  function build(st) {
    const p = progs[st.p], M = p.model;
    cov.ops++;
    const expectThrow = (should, what, f) => {
      let threw = false, msg = "";
      try { f(); } catch (e) { threw = true; msg = e.message; }
      if (threw) cov.rejected++; else cov.resolved++;
      if (threw !== should) throw new Violation("definition", `${what} ${threw ? "was refused: " + msg : "was accepted"}`);
      return !threw;
    };
    const has = (id) => M.operators.some((o) => o.id === id);
    if (st.k === "add") {
      const o = st.op;
      const ok = expectThrow(!!st.bad, `new ${o.type}(${JSON.stringify(o)})`, () => {
        const inst = new C[o.type](...PARAMS[o.type].map((k) => o[k]));
        if (st.meta) inst.metadata = JSON.parse(JSON.stringify(st.meta));
        p.obj.addOperator(inst);
        p.inst = p.inst ?? {}; p.inst[o.id] = inst;
      });
      if (ok) { M.operators.push(st.meta ? { ...o, metadata: st.meta } : { ...o }); if (o.type === "Input") M.entryOperator = o.id; }
    } else if (st.k === "conn") {
      const fp = st.fp ?? "o1", tp = st.tp ?? "i1";
      const bad = !has(st.from) || !has(st.to) || M.connections.some((c) => c.from === st.from && c.to === st.to && c.fromPort === fp && c.toPort === tp);
      const args = [{ id: st.from }, { id: st.to }];
      if (st.fp || st.tp) args.push(st.fp ?? undefined);
      if (st.tp) args.push(st.tp);
      if (expectThrow(bad, `addConnection(${JSON.stringify(args)})`, () => p.obj.addConnection(...args))) M.connections.push({ from: st.from, to: st.to, fromPort: fp, toPort: tp });
    } else if (st.k === "delop") {
      p.obj.deleteOperator(st.id);
      M.operators = M.operators.filter((o) => o.id !== st.id);
      M.connections = M.connections.filter((c) => c.from !== st.id && c.to !== st.id);
    } else if (st.k === "delconn") {
      const args = [st.from, st.to];
      if (st.fp || st.tp) args.push(st.fp ?? undefined);
      if (st.tp) args.push(st.tp);
      p.obj.deleteConnection(...args);
      const fp = st.fp ?? "o1", tp = st.tp ?? "i1";
      M.connections = M.connections.filter((c) => !(c.from === st.from && c.to === st.to && c.fromPort === fp && c.toPort === tp));
    } else if (st.k === "roundtrip") {
      const text = st.json ? JSON.stringify(p.obj) : JSON.stringify(p.obj.toPlain());
      p.obj = C.Program.toInstance(JSON.parse(text));
      if (p.obj.programId !== p.id) throw new Violation("definition", "a program read back from its own text has another id");
    } else if (st.k === "output") {
      p.obj = C.Program.toInstance({ ...JSON.parse(JSON.stringify(p.obj.toPlain())), output: st.output });
      M.output = st.output;
    } else if (st.k === "valid") {
      const r = p.obj.safeValidate();
      if (!r.success) throw new Violation("definition", "a valid definition does not validate: " + String(r.error && r.error.message).slice(0, 300));
    }
    mark(st.k + st.p);
    compareDef(p, JSON.parse(JSON.stringify(p.obj.toPlain())), "toPlain");
  }
  function compareDef(p, got, where) {
    const M = JSON.parse(JSON.stringify(p.model));
    for (const k of Object.keys(M)) {
      if (canon(got[k]) !== canon(M[k]))
        throw new Violation("definition", `${where}: ${k} is ${canon(got[k])}, built was ${canon(M[k])}`.slice(0, 900));
    }
    for (const k of ["title", "description", "date", "author", "license", "output"]) if (!(k in M) && got[k] !== undefined) throw new Violation("definition", `${where}: ${k} appeared from nowhere`);
  }

  // ------------------------------------------------------------ actors and scheduler
  const gates = new Map();
  let live = plan.actors.length, fatal;
  const gate = (i) => new Promise((r) => gates.set(i, r));
  const pend = [];
  const actor = async (i) => {
    let skip = false;
    for (const st of plan.actors[i]) {
      if (!st.now) { const hops = await gate(i); for (let h = 0; h < hops; h++) await null; }
      else if (st.hops) for (let h = 0; h < st.hops; h++) await null;
      if (["add", "conn", "delop", "delconn", "roundtrip", "output", "valid"].includes(st.k)) { build(st); continue; }
      if (st.session && skip) continue;
      const rec = issue(i, st);
      pend.push(rec.done);
      if (st.w) await rec.done;
      if (st.k === "start" && st.session) skip = !rec.ok;
    }
  };
  const tasks = plan.actors.map((_, i) => actor(i).catch((e) => { fatal = fatal ?? e; }).then(() => { live--; }));
  const drain = () => new Promise((r) => setImmediate(r));
  const doLoad = () => {
    if (loaded) return; loaded = true;
    if (plan.load.reject) { fault("engine fails to load"); loadReject(new Error("engine could not be loaded")); } else { if (plan.load.at > 0) fault("engine loads late"); loadResolve(mod); }
  };
  await drain();
  for (const st of plan.setup ?? []) { doLoad(); const r = issue(-1, st); pend.push(r.done); await drain(); }
  for (let s = 0; s < plan.schedule.length && live && !fatal; s++) {
    if (s === plan.load.at) doLoad();
    for (const [a, hops] of plan.schedule[s]) { const g = gates.get(a); if (g) { gates.delete(a); mark("go" + a); g(hops); } }
    cov.macro++;
    await drain();
  }
  doLoad();
  for (let s = 0; live && !fatal && s < 400; s++) { // faults have stopped: everything must come to an end
    for (const [a, g] of [...gates]) { gates.delete(a); g(0); }
    cov.macro++;
    await drain();
  }
  for (let s = 0; s < 50 && history.some((r) => r.ret === Infinity); s++) await drain();
  try {
    if (fatal) throw fatal instanceof Violation ? fatal : new Violation("harness", String(fatal && fatal.stack));
    if (loads > 1) throw new Violation("client", "the engine was loaded " + loads + " times");
    const hung = history.find((r) => r.ret === Infinity);
    if (hung) throw new Violation("liveness", `${hung.kind} of actor ${hung.actor} never returned`);
    if (live) throw new Violation("liveness", "a client never finished");
    for (const p of progs) check(plan, p, { fault, captured, compareDef, cov });
    if (plan.property === "C26" && !plan.load.reject) for (const id of ids) if (tryEng("getProgramEntryPorts", id).ok) throw new Violation("leftover", "a finished run left its program behind in the engine");
  } finally {
    for (const id of ids) tryEng("deleteProgram", id);
  }
  for (const r of history) { const s = r.run ? canon(r.run.getOutputs()) : canon(r.ok ? r.v ?? null : "error"); cov.states.add(hash(r.kind + s)); }
  return cov;
}

// ---------------------------------------------------------------- oracles
function refApply(ref, rec, def) { // ref: {id or null}; returns {ok, v}
  switch (rec.kind) {
    case "create": { if (ref.id) return { ok: true, v: "exists" }; const r = refCreate(def); if (r.ok) { ref.id = r.id; return { ok: true, v: "" }; } return { ok: true, v: "refused" }; }
    case "start": { if (ref.id) return { ok: false }; const r = refCreate(def); if (!r.ok) return { ok: false }; ref.id = r.id; return { ok: true, v: undefined }; }
    case "stop": if (ref.id) refDelete(ref.id); ref.id = null; return { ok: true, v: undefined };
    case "delete": { const had = ref.id !== null; if (had) refDelete(ref.id); ref.id = null; return { ok: true, v: had ? "1" : "0" }; }
    case "ports": return ref.id ? { ok: true, v: canon(refPorts(ref.id)) } : { ok: false };
    default: return ref.id ? refBatch(ref.id, rec.msgs, rec.kind === "procd" || rec.kind === "pmd") : { ok: false };
  }
}
function agrees(rec, exp) {
  if (rec.kind === "start" && !rec.ok && rec.torn) return true; // stopped by somebody before it could ask for its ports
  if (rec.ok !== exp.ok && !(rec.kind === "create")) return false;
  if (rec.kind === "create") return (rec.ok && rec.v === "") === (exp.v === "");
  if (!rec.ok) return true;
  if (rec.kind === "ports") return canon(JSON.parse(rec.v)) === exp.v;
  if (rec.kind === "start" || rec.kind === "stop") return true;
  if (rec.kind === "delete") return rec.v === exp.v;
  return canon(rec.v) === exp.v;
}
function tryOrder(list, def) { // returns index of the first disagreement, or -1
  const ref = { id: null };
  try {
    for (let i = 0; i < list.length; i++) if (!agrees(list[i], refApply(ref, list[i], def))) return i;
    return -1;
  } finally { if (ref.id) refDelete(ref.id); }
}
function linearizable(recs, def) {
  const byInv = [...recs].sort((a, b) => a.inv - b.inv);
  for (const r of byInv) if (r.kind === "start") r.torn = byInv.some((x) => (x.kind === "stop" || x.kind === "delete") && x.inv < r.ret && r.inv < x.ret);
  const bad = tryOrder(byInv, def);
  if (bad < 0) return null;
  let budget = 3000;
  const used = new Array(byInv.length).fill(false), order = [];
  const dfs = () => {
    if (order.length === byInv.length) return true;
    if (--budget < 0) return true; // undecided: not reported
    let minRet = Infinity;
    for (let i = 0; i < byInv.length; i++) if (!used[i]) minRet = Math.min(minRet, byInv[i].ret);
    const kinds = new Set();
    for (let i = 0; i < byInv.length; i++) {
      if (used[i]) continue;
      const r = byInv[i];
      if (r.inv > minRet) break;
      if (kinds.has(r.kind)) continue; // calls of one kind take effect in the order they were issued
      kinds.add(r.kind);
      order.push(r); used[i] = true;
      if (tryOrder(order, def) < 0 && dfs()) return true;
      order.pop(); used[i] = false;
    }
    return false;
  };
  if (dfs()) return null;
  const r = byInv[bad];
  return `${r.kind} (issued as number ${bad + 1} on its program) answered ${r.ok ? canon(r.v ?? null) : "error: " + r.e}`.slice(0, 700);
}
function expectedRun(def, rec) {
  const st = rec.st, ref = refCreate(def);
  if (!ref.ok) return { ok: false, e: ref.why };
  try {
    const ports = refPorts(ref.id), col = {}, ext = [];
    const step = Math.floor(st.data.length / 20);
    let ctr = 0, calls = 0;
    for (const row of st.data) {
      const msgs = Object.fromEntries(ports.map((p, i) => [p, [{ time: row[0], value: row[1 + i] }]]));
      const r = refBatch(ref.id, msgs, true);
      if (!r.ok) return { ok: false, e: r.e };
      const out = JSON.parse(r.v);
      for (const [o, po] of Object.entries(out)) for (const [p, ms] of Object.entries(po)) for (const x of ms) { (col[o + ":" + p] ??= [[], []])[0].push(x.time); col[o + ":" + p][1].push(x.value); }
      ext.push({ in: msgs, out });
      void step; void ctr; void calls;
    }
    return { ok: true, v: canon(st.fmt === "COLLAPSED" ? col : ext) };
  } finally { refDelete(ref.id); }
}
function check(plan, p, ctx) {
  const recs = p.history;
  if (plan.load.reject) {
    for (const r of recs) if (r.ok) throw new Violation("load", `${r.kind} succeeded although the engine could not be loaded`);
    return;
  }
  for (const r of recs) if (!r.ok && r.kind !== "run" && r.kind !== "start") ctx.fault("calls that fail");
  if (plan.property === "C24") {
    const bad = linearizable(recs, JSON.stringify(p.def));
    if (bad) throw new Violation("results", bad);
  } else if (plan.property === "C25") {
    const start = recs.find((r) => r.kind === "start");
    if (!start) return;
    const got = ctx.captured[p.id];
    if (start.ok && got === undefined) throw new Violation("definition", "start succeeded without handing anything to the engine");
    if (got !== undefined) ctx.compareDef(p, JSON.parse(got), "start");
    const bad = linearizable(recs, JSON.stringify(p.model));
    if (bad) throw new Violation("results", bad + ` (the engine given ${canon(p.model)} answers otherwise)`.slice(0, 700));
  } else {
    // exclusive uses of the program's id: runs, and sessions from start to stop
    const uses = [];
    for (const r of recs) {
      if (r.kind === "run") uses.push({ inv: r.inv, ret: r.ret, rec: r, ok: r.ok });
      else if (r.kind === "start") {
        const stop = recs.find((x) => x.kind === "stop" && x.actor === r.actor && x.inv > r.inv);
        const mine = recs.filter((x) => x.actor === r.actor && x.inv > r.inv && (!stop || x.inv <= stop.inv) && (x.kind === "pm" || x.kind === "pmd"));
        uses.push({ inv: r.inv, ret: stop && r.ok ? stop.ret : r.ret, rec: r, ok: r.ok, session: mine });
      }
    }
    for (const u of uses) {
      const r = u.rec, others = uses.filter((x) => x !== u && x.inv < u.ret && u.inv < x.ret);
      if (u.session) {
        if (r.ok) {
          const bad = linearizable([r, ...u.session], JSON.stringify(p.def));
          if (bad) throw new Violation("session", "a live program next to a run of the same program: " + bad);
        } else if (!others.length && refOk(p.def)) throw new Violation("session", "start failed: " + r.e);
        continue;
      }
      const exp = expectedRun(JSON.stringify(p.def), r);
      if (r.ok) {
        if (!exp.ok) throw new Violation("run", `a run resolved although the engine reports: ${exp.e}`);
        if (r.threw) throw new Violation("run", "a run resolved although its progress callback failed");
        const got = canon(r.run.getOutputs());
        if (got !== exp.v) throw new Violation("run", `a run reports ${got} but the engine emits ${exp.v}`.slice(0, 1500));
        let last = 0;
        for (const x of r.progress) { if (!(x >= last && x <= 1)) throw new Violation("run", `progress ${r.progress}`); last = x; }
      } else {
        ctx.fault(r.threw ? "runs whose progress callback fails" : others.length ? "runs refused or failing next to another use" : "runs that fail");
        if (r.threw || !exp.ok) {
          const why = r.threw ? "progress callback failed" : exp.e;
          const reason = reasonOf(why);
          if (!others.length && !r.e.includes(reason)) throw new Violation("run", `a run failed with "${r.e}", the reason is "${reason}"`.slice(0, 700));
        } else if (!others.length) throw new Violation("run", `a run failed: ${r.e}`.slice(0, 700));
        else if (/not valid JSON|Unexpected token/.test(r.e)) throw new Violation("run", `a refused run hides the reason: ${r.e}`.slice(0, 700));
      }
    }
  }
}
const refOk = (def) => { const r = refCreate(def); if (r.ok) refDelete(r.id); return r.ok; };
function reasonOf(why) { // engine messages mention the program's id
  try { const j = JSON.parse(why); if (j && j.error) why = j.error; } catch {}
  return why.split(/ref:\d+/)[0].trim();
}

// ---------------------------------------------------------------- plans
function schedule(g, actors, steps) {
  const s = [];
  for (let i = 0; i < steps; i++) {
    const k = g.pick([1, 1, 2, 2, 3, actors]);
    s.push(g.shuffle(Array.from({ length: actors }, (_, i) => i)).slice(0, k).map((a) => [a, g.p(0.3) ? g.r(1, 4) : 0]));
  }
  return s;
}
function times(g) { let t = g.pick([0, 1, 1000, 1700000000, 4000000000]); return () => { const r = g.p(0.9) ? (t += g.pick([1, 1, 1, 2, 5, 10])) : Math.max(0, t - g.r(0, 3)); return r; }; }
const value = (g) => (g.p(0.4) ? g.n(2) : g.val());
function genC24(g, salt) {
  const np = g.r(1, 3), na = g.r(2, 5), progs = [], actors = [], next = [];
  for (let i = 0; i < np; i++) { progs.push({ ...randomDef(g), mode: g.p(0.6) ? "obj" : "raw" }); next.push(times(g)); }
  if (g.p(0.1)) { const d = g.pick(progs); d.def.connections.push({ from: "nobody", to: d.def.entryOperator }); }
  for (let a = 0; a < na; a++) actors.push([]);
  const opener = (i) => ({ k: progs[i].mode === "obj" ? "start" : "create", p: i, w: true });
  const closer = (i) => ({ k: progs[i].mode === "obj" ? "stop" : "delete", p: i, w: g.p(0.5) });
  const setup = [];
  for (let i = 0; i < np; i++) if (g.p(0.75)) setup.push(opener(i)); else actors[g.n(na)].push(opener(i));
  const budget = new Array(np).fill(0);
  for (let a = 0; a < na; a++) {
    const n = g.r(2, 7);
    for (let k = 0; k < n; k++) {
      const i = g.n(np), p = progs[i];
      if (budget[i] >= 12) continue;
      const burst = g.p(0.5) ? g.r(2, 4) : 1;
      for (let b = 0; b < burst; b++) {
        budget[i]++;
        const base = { p: i, w: b === burst - 1 ? g.p(0.6) : g.p(0.15), ...(b ? { now: true, hops: g.p(0.3) ? g.r(1, 3) : 0 } : {}) };
        const port = () => (g.p(0.04) ? "nowhere" : g.pick(p.ports));
        if (p.mode === "obj" && g.p(0.6)) actors[a].push({ ...base, k: g.pick(["pm", "pmd"]), t: next[i](), v: value(g), ...(g.p(0.6) ? { port: port() } : {}) });
        else {
          const msgs = {};
          for (let q = g.r(0, 2); q >= 0; q--) (msgs[port()] ??= []).push(...Array.from({ length: g.r(0, 3) }, () => ({ time: next[i](), value: value(g) })));
          actors[a].push({ ...base, k: g.pick(["proc", "procd"]), msgs });
        }
        if (b && g.p(0.2)) { // the same call again, while the first is under way
          const l = actors[a].length; const prev = actors[a][l - 2];
          if (prev && prev.p === i && (prev.msgs || prev.t !== undefined)) { actors[a][l - 1] = { ...JSON.parse(JSON.stringify(prev)), w: base.w, now: true, hops: base.hops }; prev.w = false; }
        }
      }
      if (g.p(0.08)) { actors[a].push({ k: "ports", p: i, w: true }); if (p.mode === "obj") actors[a].pop(); }
      if (g.p(0.06)) { actors[a].push(closer(i)); if (g.p(0.6)) actors[a].push(opener(i)); }
    }
  }
  return { salt, property: "C24", part: "js", progs, setup, actors, schedule: schedule(g, na, g.r(4, 30)), load: { at: g.p(0.6) ? 0 : g.r(1, 8), reject: g.p(0.02) } };
}
function genC26(g, salt) {
  const np = g.r(1, 3), na = g.r(1, 4), progs = [], actors = [];
  for (let i = 0; i < np; i++) {
    progs.push({ ...randomDef(g), mode: "obj" });
    if (g.p(0.12)) {
      const d = progs[i].def;
      g.pick([() => d.connections.push({ from: "nobody", to: d.entryOperator }), () => { d.entryOperator = "nobody"; }, () => { delete d.operators; d.operators = [{ id: "in", type: "Nonsense" }]; }, () => { d.connections[0].toPort = "i99"; }])();
    }
  }
  for (let a = 0; a < na; a++) {
    const steps = [];
    for (let k = g.r(1, 3); k > 0; k--) {
      const i = g.n(np), p = progs[i], nt = times(g);
      if (g.p(0.75)) {
        const rows = g.pick([0, 1, 2, 5, 8, 19, 20, 23, 41, 60]);
        const width = p.ports.length;
        const dm = p.def.operators.some((o) => o.type === "Demultiplexer") && g.p(0.7);
        const st = { k: "run", p: i, fmt: g.pick(["COLLAPSED", "EXTENDED"]), src: g.p(0.3) ? "string" : "instance", w: g.p(0.7),
          data: Array.from({ length: rows }, () => [nt(), ...Array.from({ length: width }, () => (dm ? g.n(2) : value(g)))]) };
        if (g.p(0.4)) st.cb = g.p(0.5) ? 0 : g.r(1, 3);
        if (g.p(0.25)) st.verbose = true;
        steps.push(st);
        // the same rows again, as the same array
        if (g.p(0.15)) steps.push({ ...st, share: true, w: true, cb: undefined, src: g.pick(["string", "instance"]) });
      } else {
        steps.push({ k: "start", p: i, w: true, session: true, first: true });
        for (let q = g.r(1, 5); q > 0; q--) steps.push({ k: g.pick(["pm", "pmd"]), p: i, t: nt(), v: value(g), port: g.pick(p.ports), w: g.p(0.5), session: true });
        steps.push({ k: "stop", p: i, w: true, session: true });
      }
    }
    for (const s of steps) if (s.first) delete s.first;
    actors.push(steps);
  }
  return { salt, property: "C26", part: "js", progs, actors, schedule: schedule(g, na, g.r(2, 20)), load: { at: g.p(0.7) ? 0 : g.r(1, 5), reject: g.p(0.02) } };
}
function genC25(g, salt) {
  const np = g.r(1, 3), progs = [], actors = [], builders = [];
  for (let i = 0; i < np; i++) {
    const { def, ports } = randomDef(g, { ops: g.r(1, 8) });
    const init = {};
    if (g.p(0.5)) init.entryOperator = g.p(0.7) ? def.entryOperator : "other";
    for (const k of ["title", "description", "date", "author", "license"]) if (def[k] !== undefined) init[k] = def[k];
    progs.push({ def, ports, mode: "build", init });
    const st = [];
    const added = [], conns = [];
    const pendingOps = def.operators.slice();
    if (g.p(0.3)) { const inp = pendingOps.shift(); pendingOps.splice(g.n(pendingOps.length + 1), 0, inp); }
    const index = new Map(def.operators.map((o, k) => [o.id, k]));
    let extra = 0;
    const ready = () => def.connections.filter((c) => !conns.includes(c) && added.includes(c.from) && added.includes(c.to));
    const addConn = (c) => { st.push({ k: "conn", p: i, from: c.from, to: c.to, ...(c.fromPort ? { fp: c.fromPort } : {}), ...(c.toPort ? { tp: c.toPort } : {}) }); conns.push(c); };
    while (pendingOps.length) {
      if (g.p(0.15)) { // something the client has to refuse
        const kind = g.n(4);
        if (kind === 0) st.push({ k: "conn", p: i, from: "ghost" + extra++, to: added[0] ?? "x" });
        else if (kind === 1 && added.length) st.push({ k: "conn", p: i, from: added[0], to: "ghost" + extra++ });
        else if (kind === 2 && conns.length) { const c = g.pick(conns); st.push({ k: "conn", p: i, from: c.from, to: c.to, fp: c.fromPort ?? "o1", tp: c.toPort ?? "i1" }); }
        else st.push({ k: "add", p: i, bad: true, op: g.pick([{ id: "bad", type: "MovingAverage", n: 1.5 }, { id: "bad", type: "MovingAverage" }, { id: 7, type: "Identity" }, { id: "bad", type: "Linear", coeff: [1] }, { id: "bad", type: "Join", numPorts: 1 }, { id: "bad", type: "Function", points: [[1, 2], [3]] }, { id: "bad", type: "Function", points: [[1, 2], [3, 4]], interpolationType: "cubic" }, { id: "bad", type: "TimeShift", dt: 0 }, { id: "bad", type: "Add", value: "1" }]) });
      }
      const r = ready();
      if (r.length && g.p(0.5)) { addConn(g.pick(r)); continue; }
      const op = pendingOps.shift();
      st.push({ k: "add", p: i, op, ...(g.p(0.15) ? { meta: { plot: { id: "p1", mark: { color: "red", size: g.n(9) } } } } : {}) });
      added.push(op.id);
      if (g.p(0.12)) { // an operator that goes again, with connections that must go with it
        const x = randomOp(g, "tmp" + extra++);
        st.push({ k: "add", p: i, op: x.op });
        for (const to of x.ins.slice(0, 2)) if (added.length) { const f = g.pick(added.filter((id) => index.get(id) !== undefined)); st.push({ k: "conn", p: i, from: f, to: x.op.id, tp: to }); }
        if (g.p(0.4)) st.push({ k: "roundtrip", p: i, json: g.p(0.5) });
        st.push({ k: "delop", p: i, id: x.op.id });
      }
      if (g.p(0.1)) st.push({ k: "roundtrip", p: i, json: g.p(0.5) });
      if (g.p(0.1) && conns.length) { const c = g.pick(conns); st.push({ k: "delconn", p: i, from: c.from, to: c.to, ...(c.fromPort ? { fp: c.fromPort } : {}), ...(c.toPort ? { tp: c.toPort } : {}) }); if (g.p(0.6)) conns.splice(conns.indexOf(c), 1); }
      if (g.p(0.05) && conns.length) { const c = g.pick(conns); st.push({ k: "delconn", p: i, from: c.from, to: "ghost", fp: c.fromPort ?? "o1", tp: c.toPort ?? "i1" }); }
    }
    for (const c of ready()) addConn(c);
    if (g.p(0.4)) st.push({ k: "roundtrip", p: i, json: g.p(0.5) });
    if (def.output && g.p(0.7)) st.push({ k: "output", p: i, output: def.output });
    st.push({ k: "valid", p: i });
    const nt = times(g);
    st.push({ k: "start", p: i, w: true });
    for (let q = g.r(2, 10); q > 0; q--) st.push({ k: g.pick(["pm", "pmd"]), p: i, t: nt(), v: value(g), ...(g.p(0.5) ? { port: g.pick(ports) } : {}), w: g.p(0.5) });
    builders.push(st);
  }
  return { salt, property: "C25", part: "js", progs, actors: builders, schedule: schedule(g, np, g.r(4, 60)), load: { at: g.p(0.7) ? 0 : g.r(1, 12), reject: g.p(0.02) } };
}
const cli = require("./cli.js")({ DIR, eng, zod, Violation, canon, hash, tryEng, refCreate, refBatch, refPorts, refDelete, reasonOf, randomDef, times, value });
const GEN = { C24: genC24, C25: genC25, C26: genC26, C28: cli.gen };

// ---------------------------------------------------------------- minimising
async function fails(plan, kind) { try { await execute(JSON.parse(JSON.stringify(plan))); return null; } catch (e) { return e instanceof Violation && (!kind || e.kind === kind) ? e : null; } }
async function minimise(plan, first, limitMs) {
  const end = Date.now() + limitMs;
  let best = plan, why = first;
  const attempt = async (cand) => { if (Date.now() > end) return false; const e = await fails(cand, first.kind); if (e) { best = cand; why = e; return true; } return false; };
  const clone = () => JSON.parse(JSON.stringify(best));
  let progress = true;
  while (progress && Date.now() < end) {
    progress = false;
    for (let a = best.actors.length - 1; a >= 0; a--) { // whole actors
      if (best.actors[a].length) { const c = clone(); c.actors[a] = []; if (await attempt(c)) progress = true; }
    }
    for (let a = 0; a < best.actors.length; a++)
      for (let n = Math.max(1, best.actors[a].length >> 1); n >= 1; n >>= 1)
        for (let i = best.actors[a].length - n; i >= 0; i -= n) { const c = clone(); c.actors[a].splice(i, n); if (await attempt(c)) progress = true; }
    for (let n = Math.max(1, best.schedule.length >> 1); n >= 1; n >>= 1)
      for (let i = best.schedule.length - n; i >= 0; i -= n) { const c = clone(); c.schedule.splice(i, n); if (await attempt(c)) progress = true; }
    for (let a = 0; a < best.actors.length; a++) for (let i = 0; i < best.actors[a].length; i++) {
      const st = best.actors[a][i];
      if (st.data) for (let n = Math.max(1, st.data.length >> 1); n >= 1; n >>= 1) for (let k = (best.actors[a][i].data.length) - n; k >= 0; k -= n) { const c = clone(); c.actors[a][i].data.splice(k, n); if (await attempt(c)) progress = true; }
      if (st.msgs) for (const port of Object.keys(st.msgs)) { const c = clone(); delete c.actors[a][i].msgs[port]; if (await attempt(c)) progress = true; }
    }
    for (let p = 0; p < best.progs.length; p++) {
      for (let i = best.progs[p].def.connections.length - 1; i >= 0; i--) { const c = clone(); c.progs[p].def.connections.splice(i, 1); if (await attempt(c)) progress = true; }
      for (let i = best.progs[p].def.operators.length - 1; i >= 0; i--) { const c = clone(); const [o] = c.progs[p].def.operators.splice(i, 1); c.progs[p].def.connections = c.progs[p].def.connections.filter((x) => x.from !== o.id && x.to !== o.id); if (await attempt(c)) progress = true; }
    }
    if (best.load.at) { const c = clone(); c.load.at = 0; if (await attempt(c)) progress = true; }
  }
  return { plan: best, why };
}

// ---------------------------------------------------------------- command line
(async () => {
  const [cmd, arg] = process.argv.slice(2);
  const opt = (n, d) => { const i = process.argv.indexOf("--" + n); return i < 0 ? d : process.argv[i + 1]; };
  if (cmd === "replay") {
    const f = JSON.parse(fs.readFileSync(arg, "utf8"));
    const e = await fails(f.plan);
    if (!e) { console.log("the plan in " + arg + " does not fail on this tree"); process.exit(0); }
    console.log(`${e.kind}: ${e.detail}`);
    console.log(`VIOLATION property=${f.plan.property} replay=${arg}`);
    process.exit(1);
  }
  const prop = arg, seed = opt("seed", "1"), runs = +opt("runs", 2000), first = +opt("first", 0), stride = +opt("stride", 1), limit = +opt("limit", 100) * 1000;
  const t0 = Date.now();
  const out = { runs: 0, ops: 0, macro: 0, resolved: 0, rejected: 0, faults: {}, traces: [], states: 0, nontrivial: 0, twice: 0, samples: [] };
  const traces = new Set(), states = new Set();
  if (cmd === "gen") { console.log(JSON.stringify(GEN[prop](new Rng(`${seed}/${prop}/js/${first}`), 0), null, 1)); return; }
  for (let i = first; i < runs && Date.now() - t0 < limit; i += stride) {
    const plan = GEN[prop](new Rng(`${seed}/${prop}/js/${i}`), i);
    plan.run = i; plan.seed = +seed;
    let cov;
    try { cov = await execute(plan); } catch (e) {
      if (!(e instanceof Violation)) throw e;
      if (e.kind === "harness") { console.error("harness failure in run " + i + ": " + e.detail); process.exit(2); }
      const min = process.env.SIM_NOMIN ? { plan, why: e } : await minimise(plan, e, 40000);
      out.violation = { run: i, kind: min.why.kind, detail: min.why.detail, plan: min.plan, original: e.detail };
      break;
    }
    if (i % 16 === first % 16 && out.runs % 16 === 0) {
      const again = await execute(JSON.parse(JSON.stringify(plan)));
      if (again.trace !== cov.trace) { console.error("run " + i + " is not deterministic"); process.exit(2); }
      out.twice++;
    }
    out.runs++; out.ops += cov.ops; out.macro += cov.macro; out.resolved += cov.resolved; out.rejected += cov.rejected;
    for (const [k, v] of Object.entries(cov.faults)) out.faults[k] = (out.faults[k] ?? 0) + v;
    if (cov.resolved > 1) { if (!traces.has(cov.trace)) out.nontrivial++; }
    traces.add(cov.trace);
    for (const s of cov.states) states.add(s);
    if (out.samples.length < 1 && i >= 3 && JSON.stringify(plan).length < 3500) out.samples.push(JSON.stringify(plan));
  }
  out.traces = [...traces]; out.states = states.size; out.wall = (Date.now() - t0) / 1000;
  fs.writeFileSync(opt("out", "/dev/stdout"), JSON.stringify(out));
})().catch((e) => { console.error(e); process.exit(2); });
