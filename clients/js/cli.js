"use strict";
// C28: the debug command of the command line, run for real against the real engine; files, clock, timers, keyboard and
// screen are the simulator's.
const fs = require("fs"), path = require("path"), vm = require("vm");
module.exports = (S) => {
  const { Violation, canon, hash } = S;
  const errFile = path.join(S.DIR, "cli-error.txt");
  const cliError = fs.existsSync(errFile) ? fs.readFileSync(errFile, "utf8") : null;
  let load;
  class Exit extends Error {}
  const errno = (code, name) => Object.assign(new Error(`${code}: no way, open '${name}'`), { code });

  async function execute(plan) {
    if (cliError) throw new Violation("command", "the command does not build: " + cliError);
    load ??= new vm.Script("(function(require,module,exports,process,console,setTimeout,setInterval,clearTimeout,clearInterval){" + fs.readFileSync(path.join(S.DIR, "cli.js"), "utf8") + "\n})", { filename: "cli.js" }).runInThisContext();
    const cov = { faults: {}, ops: 0, trace: 0x811c9dc5, states: new Set(), rejected: 0, resolved: 0, macro: 0 };
    const mark = (s) => { cov.trace = (Math.imul(cov.trace ^ hash(s), 0x01000193)) >>> 0; };
    const fault = (k) => { cov.faults[k] = (cov.faults[k] ?? 0) + 1; };
    const cmd = plan.actors[0] && plan.actors[0][0];
    if (!cmd) return cov;
    const def = plan.progs[0].def, o = cmd.opts, sc = plan.scales;
    // ---------------------------------------------------------- the world
    let now = 0, seq = 0, exited, rejected, crashed;
    const timers = new Map(), lines = [], files = new Map(), widgets = [], keys = new Map();
    let renders = 0, lastRender = -1, lastChange = -1, lastEvent = -1;
    files.set("program.json", cmd.fault === "garbled program" ? JSON.stringify(def).slice(0, -7) : JSON.stringify(def));
    files.set("data.csv", cmd.data.map((r) => r.join(",")).join(cmd.eol) + (cmd.tail ? cmd.eol : ""));
    if (cmd.old) files.set("out.json", "what was there before");
    const read = (n) => { n = String(n); if ((cmd.fault === "unreadable program" && n === "program.json") || (cmd.fault === "unreadable data" && n === "data.csv") || !files.has(n)) throw errno("EIO", n); return files.get(n); };
    const timer = (fn, ms, every, args) => { const id = ++seq; timers.set(id, { id, at: now + Math.max(1, +ms || 0), fn: () => fn(...args), every: every ? Math.max(1, +ms || 0) : 0 }); return id; };
    const print = (...a) => { lines.push(a.map((x) => (typeof x === "string" ? x : x instanceof Error ? String(x.stack ?? x) : JSON.stringify(x) ?? String(x))).join(" ")); };
    const term = { log: print, error: print, warn: print, info: print, debug: print };
    const proc = { argv: ["node", "rtbot"], env: {}, stdout: { write: print, isTTY: true }, exitCode: undefined, on() {}, exit(c) { if (exited === undefined) exited = c ?? 0; throw new Exit("exit"); } };
    let loads = 0, loadResolve, loadReject;
    const ids = new Set();
    const str = (x) => { if (typeof x !== "string") throw new TypeError("Cannot pass non-string to std::string"); return x; };
    const num = (x) => { if (typeof x !== "number" && typeof x !== "boolean") throw new TypeError(`Cannot convert "${x}" to number`); return +x; };
    const mod = {
      createProgram: (id, s) => { ids.add(id); mark("create"); return S.eng("createProgram", str(id), str(s)); },
      deleteProgram: (id) => S.eng("deleteProgram", id),
      addToMessageBuffer: (id, port, t, v) => { cov.ops++; mark(`add${t},${v}`); return S.eng("addToMessageBuffer", id, str(port), num(t), num(v)); },
      processMessageBuffer: (id) => S.eng("processMessageBuffer", id),
      processMessageBufferDebug: (id) => S.eng("processMessageBufferDebug", id),
      getProgramEntryPorts: (id) => S.eng("getProgramEntryPorts", id),
    };
    let nid = 0;
    const loading = new Promise((a, b) => { loadResolve = a; loadReject = b; });
    loading.catch(() => {});
    const argv = ["debug", "program.json", "data.csv"];
    if (o.output) argv.push("--output", "out.json");
    if (o.verbose) argv.push("--verbose");
    if (o.interactive) argv.push("--interactive");
    if (sc.t !== undefined) argv.push("--scale-time-factor", sc.t);
    if (sc.v !== undefined) argv.push("--scale-value-factor", sc.v);
    globalThis.__sim = {
      argv, id: () => `c${plan.salt}_${++nid}`, load: () => { loads++; return loading; },
      action: (p) => { Promise.resolve(p).then(() => { done = true; }, (e) => { done = true; if (!(e instanceof Exit)) rejected = String((e && e.message) ?? e); }); },
      parsed: (f) => timer(f, cmd.parseAt, false, []),
      fs: {
        readFileSync: read, existsSync: (n) => files.has(String(n)),
        writeFileSync: (n, s) => { if (cmd.fault === "disk full") throw errno("ENOSPC", n); files.set(String(n), String(s)); },
        unlinkSync: (n) => { if (!files.delete(String(n))) throw errno("ENOENT", n); },
        renameSync: (a, b) => { if (!files.has(String(a))) throw errno("ENOENT", a); files.set(String(b), files.get(String(a))); files.delete(String(a)); },
      },
      widget: (w) => widgets.push(w), render: () => { renders++; lastRender = now; },
      key: (k, f) => { if (!keys.has(k)) keys.set(k, []); keys.get(k).push(f); },
    };
    let done = false, after = () => {};
    const drain = () => new Promise((r) => setImmediate(r));
    const guarded = (what, f) => { try { f(); } catch (e) { if (!(e instanceof Exit)) crashed = `${what}: ${(e && e.message) ?? e}`; } };
    timer(() => { if (plan.load.reject) { fault("engine fails to load"); loadReject(new Error("engine could not be loaded")); } else loadResolve(mod); }, plan.load.at, false, []);
    // runs everything due up to a time; the model sees the same moments
    const advance = async (to, tick) => {
      for (;;) {
        let next;
        for (const t of timers.values()) if (t.at <= to && (!next || t.at < next.at || (t.at === next.at && t.id < next.id))) next = t;
        const mt = tick && tick.next <= to ? tick.next : Infinity;
        if ((!next && mt === Infinity) || exited !== undefined || crashed) break;
        if (next && next.at <= mt) {
          now = next.at;
          if (next.every) next.at += next.every; else timers.delete(next.id);
          mark("t" + now);
          guarded("a timer failed", next.fn);
          if (next.every) lastEvent = now;
          after();
          cov.macro++;
          await drain();
          if (mt === now) continue;
        } else { tick.run(); tick.next += 200; tick.mark(); continue; }
      }
      now = Math.max(now, to);
    };
    try {
      const m = { exports: {} };
      guarded("the command", () => load((n) => (n.includes("zod") ? S.zod : require(n)), m, m.exports, proc, term, (f, ms, ...a) => timer(f, ms, false, a), (f, ms, ...a) => timer(f, ms, true, a), (id) => timers.delete(id), (id) => timers.delete(id)));
      await drain();
      for (let k = 0; k < 400 && !done && exited === undefined && !crashed; k++) { await advance(now + 50); for (let q = 0; q < 4; q++) await drain(); }
      // -------------------------------------------------------- what had to come out
      const exp = expected(plan, cmd);
      if (cmd.fault && (cmd.fault !== "disk full" || (o.output && !o.interactive))) fault(cmd.fault);
      const failed = rejected !== undefined || crashed !== undefined || (exited !== undefined && exited !== 0) || !!proc.exitCode;
      const said = lines.join("\n") + "\n" + (rejected ?? "") + (crashed ?? "");
      if (!done && exited === undefined && !crashed) throw new Violation("liveness", "the command does not come to an end");
      const before = cmd.old ? "what was there before" : undefined;
      for (const id of ids) if (S.tryEng("getProgramEntryPorts", id).ok) throw new Violation("command", "the command leaves its program in the engine");
      if (!exp.ok) {
        cov.rejected++;
        if (!failed) throw new Violation("command", `the command reports success although ${exp.why}`);
        if (exp.reason && !said.includes(exp.reason)) throw new Violation("command", `the command fails without its reason "${exp.reason}": ${said.slice(-300)}`);
        if (files.get("out.json") !== before) throw new Violation("command", `the command fails (${exp.why}) and writes an output: ${String(files.get("out.json")).slice(0, 200)}`);
        mark("failed");
        return cov;
      }
      if (failed) throw new Violation("command", `the command fails: ${said.slice(-400)}`);
      cov.resolved++;
      if (!o.interactive) {
        let got;
        const text = o.output ? files.get("out.json") : lines[lines.length - 1];
        try { got = canon(JSON.parse(text)); } catch (e) { throw new Violation("command", `the output is not JSON: ${String(text).slice(0, 300)}`); }
        if (got !== canon(exp.v)) throw new Violation("command", `the output is ${got}, the engine emits ${canon(exp.v)}`.slice(0, 1500));
        cov.states.add(hash(got));
        if (exp.v.length > 1) cov.resolved++;
        return cov;
      }
      // -------------------------------------------------------- the interactive view
      const attached = (w) => { for (; w; w = w.parent) if (w.kind === "screen") return true; return false; };
      const M = { it: 0, max: exp.v.length, sel: def.operators.map(() => true), dir: 0 };
      const tick = { next: Infinity, run: () => { M.it = Math.max(0, Math.min(M.max, M.it + M.dir)); }, mark: () => {} };
      let shown = "";
      const note = () => {
        const s = canon(widgets.filter((w) => w.kind === "listtable").map((w) => w.rows)) + canon(widgets.filter((w) => w.kind === "checkbox").map((w) => w.checked));
        if (s !== shown) { lastChange = shown ? now : -1; shown = s; mark("view" + hash(s)); cov.states.add(hash(s)); }
      };
      after = note;
      const look = () => {
        if (crashed) throw new Violation("view", crashed);
        const tables = widgets.filter((w) => w.kind === "listtable" && attached(w)), boxes = widgets.filter((w) => w.kind === "checkbox" && attached(w));
        if (tables.length !== 1 || !tables[0].rows) throw new Violation("view", `${tables.length} tables of results are shown`);
        if (boxes.length !== def.operators.length) throw new Violation("view", `${boxes.length} check boxes are shown for ${def.operators.length} operators`);
        def.operators.forEach((op, i) => {
          const b = boxes.filter((w) => w === boxOf(i));
          if (b.length !== 1 || b[0].checked !== M.sel[i]) throw new Violation("view", `the check box of ${op.id} is ${b.length ? (b[0].checked ? "checked" : "not checked") : "missing"}`);
        });
        lookTable(tables[0].rows, M, def, exp.v);
        note();
        const intervals = [...timers.values()].filter((t) => t.every).length;
        if (intervals > (M.dir ? 1 : 0)) throw new Violation("view", `${intervals} clocks are running while the view ${M.dir ? "plays" : "stands"}`);
        if (lastRender < lastChange && now - lastEvent > 150) throw new Violation("view", `what is shown is ${now - lastChange} ms old`);
      };
      const boxOf = (i) => { const bs = widgets.filter((w) => w.kind === "checkbox" && attached(w)); const ops = def.operators; return bs.find((w) => String(w.options.text ?? w.content).startsWith(ops[i].id + " ")); };
      if (!widgets.some((w) => w.kind === "screen") || !renders) throw new Violation("view", "nothing is shown");
      look();
      for (const st of plan.actors[1] ?? []) {
        // stop half way between the moments of the clock, and look
        for (const t of [now + (st.dt >> 1), now + st.dt]) { await advance(t, tick); look(); }
        if (st.k === "toggle") {
          if (st.op >= def.operators.length) continue;
          guarded("a check box", () => boxOf(st.op).toggle());
          M.sel[st.op] = !M.sel[st.op];
        } else {
          for (const f of keys.get(st.key) ?? []) guarded("a key", () => f(st.key, st.key));
          switch (st.key) {
            case "right": M.it = Math.min(M.max, M.it + 1); break;
            case "left": M.it = Math.max(0, M.it - 1); break;
            case "p": M.dir = 1; tick.next = now + 200; break;
            case "b": M.dir = -1; tick.next = now + 200; break;
            case "s": M.dir = 0; tick.next = Infinity; break;
          }
        }
        lastEvent = now;
        mark("key" + (st.key ?? st.op) + now);
        cov.ops++; cov.resolved++; cov.macro++;
        await drain();
        if (["escape", "q", "C-c"].includes(st.key)) {
          if (exited !== 0) throw new Violation("view", `${st.key} does not leave the view`);
          return cov;
        }
        if (exited !== undefined) throw new Violation("view", `the view is gone after ${st.key ?? "a click"}`);
        look();
      }
      for (let k = 0; k < 3; k++) { await advance(now + 170, tick); look(); }
      return cov;
    } finally {
      for (const id of ids) S.tryEng("deleteProgram", id);
    }
  }
  function lookTable(rows, M, def, res) {
    const head = rows[0] ?? [], cols = [];
    const ports = (id) => { const s = new Set(); for (const r of res) for (const p of Object.keys(r.out[id] ?? {})) if (r.out[id][p].length) s.add(p); return s; };
    for (let c = 1; c < head.length; c++) {
      const hits = [];
      def.operators.forEach((op, i) => { if (!M.sel[i]) return; if (head[c] === op.id) hits.push([op.id, "o1"]); else if (head[c].startsWith(op.id + ":")) hits.push([op.id, head[c].slice(op.id.length + 1)]); });
      if (!hits.length) throw new Violation("view", `the table has a column "${head[c]}" that belongs to no selected operator`);
      cols.push(hits[0]);
    }
    def.operators.forEach((op, i) => {
      if (!M.sel[i]) return;
      if (!cols.some((h) => h[0] === op.id)) throw new Violation("view", `the selected operator ${op.id} has no column`);
      for (const p of ports(op.id)) if (!cols.some((h) => h[0] === op.id && h[1] === p)) throw new Violation("view", `port ${p} of ${op.id} has results but no column (${head.join("|")})`);
    });
    if (M.it === 0) { if (rows.length > 1) throw new Violation("view", "rows are shown before the first step"); return; }
    const from = M.it - 1;
    if (rows.length - 1 < Math.min(2, M.max - from)) throw new Violation("view", `at position ${M.it} of ${M.max} the table has ${rows.length - 1} rows`);
    for (let k = 1; k < rows.length; k++) {
      const i = from + k - 1;
      if (i >= M.max || rows[k][0] !== String(i)) throw new Violation("view", `line ${k} of the table at position ${M.it} is for row ${rows[k][0]} of ${M.max}`);
      cols.forEach(([id, p], c) => {
        const ms = (res[i].out[id] ?? {})[p] ?? [];
        if (ms.some((m) => m.value === null)) return; // not a finite number
        const want = ms.length ? ms.map(({ time, value }) => `(${time}, ${Math.round(value * 100) / 100})`).join(", ") : "-";
        const got = rows[k][c + 1];
        if (got !== want && !(want === "-" && got === "")) throw new Violation("view", `row ${i}, ${head[c + 1]}: the table shows ${got}, the run gave ${want}`);
      });
    }
  }
  function expected(plan, cmd) {
    const f = cmd.fault;
    if (f && f !== "disk full") return { ok: false, why: "of an " + f };
    const def = plan.progs[0].def;
    const ref = S.refCreate(def);
    if (!ref.ok) return { ok: false, why: "the engine refuses the program: " + ref.why };
    try {
      if (plan.load.reject) return { ok: false, why: "the engine does not load", reason: "engine could not be loaded" };
      const ports = S.refPorts(ref.id), ext = [];
      for (const [t, v] of cmd.data.map((r) => r.map((x) => x.replace(/"/g, "")))) {
        const time = Math.round((plan.scales.t ?? "1") * parseFloat(t)), value = (plan.scales.v ?? "1") * parseFloat(v);
        if (isNaN(time) || isNaN(value)) continue;
        const msgs = { [ports[0]]: [{ time, value }] };
        const r = S.refBatch(ref.id, msgs, true);
        if (!r.ok) return { ok: false, why: "the engine reports " + r.e, reason: S.reasonOf(r.e) };
        ext.push({ in: msgs, out: JSON.parse(r.v) });
      }
      if (f === "disk full" && cmd.opts.output && !cmd.opts.interactive) return { ok: false, why: "the disk is full", reason: "ENOSPC" };
      return { ok: true, v: ext };
    } finally { S.refDelete(ref.id); }
  }
  function gen(g, salt) {
    const d = S.randomDef(g, { ports: 1 });
    if (g.p(0.35)) { // operators with several ports of which some stay silent
      const op = d.def.operators.find((x) => x.type === "Demultiplexer");
      if (!op) { const from = d.def.operators[0].id; d.def.operators.push({ id: "two", type: "GreaterThan", value: 3 }, { id: "jn", type: "Join" }); d.def.connections.push({ from, to: "two" }, { from, to: "jn", toPort: "i1" }, { from: "two", to: "jn", toPort: "i2" }); }
    }
    if (g.p(0.05)) g.pick([() => d.def.connections.push({ from: "nobody", to: d.def.entryOperator }), () => { d.def.entryOperator = "nobody"; }, () => { delete d.def.operators; d.def.operators = [{ id: "in", type: "Nonsense" }]; }])();
    const nt = S.times(g), n = g.pick([0, 1, 2, 3, 5, 9, 10, 11, 12, 19, 20, 21, 30, 45]), data = [];
    const ts = Array.from({ length: n }, nt);
    const scale = g.p(0.4) ? g.pick(Math.max(0, ...ts) < 4000000 ? ["0.5", "2", "1000", "0.001", "1e-1", "10"] : ["0.5", "0.001", "1e-1"]) : undefined;
    const binary = d.def.operators.some((x) => x.type === "Demultiplexer") && g.p(0.7);
    if (g.p(0.5)) data.push(g.pick([["time", "value"], ["t", "v", "w"], ["# made by hand"], ['"time"', '"value"']]));
    for (let i = 0; i < n; i++) {
      const t = ts[i];
      const v = binary ? g.n(2) : S.value(g);
      const cell = (x) => (g.p(0.1) ? `"${x}"` : g.p(0.1) ? ` ${x} ` : String(x));
      const row = [cell(g.p(0.1) ? t + 0.25 : t), cell(v)];
      if (g.p(0.1)) row.push("extra");
      data.push(row);
      if (g.p(0.05)) data.push(g.pick([[""], ["n/a", "1"], [String(t), ""], [String(t)], [String(t), "none"], ["", ""]]));
    }
    const interactive = g.p(0.6);
    const cmd = { k: "cmd", data, eol: g.p(0.7) ? "\n" : "\r\n", tail: g.p(0.7), parseAt: g.pick([1, 1, 20, 130]), old: g.p(0.3),
      opts: { interactive, output: !interactive && g.p(0.6), verbose: g.p(0.3) } };
    // quoted cells are text with the quotes removed for the reference
    if (g.p(0.12)) cmd.fault = g.pick(["unreadable program", "garbled program", "unreadable data", "disk full"]);
    const steps = [];
    if (interactive) for (let k = g.r(2, 26); k > 0; k--) {
      const dt = g.pick([1, 20, 50, 90, 100, 110, 150, 200, 260, 399, 400, 700, 2000]);
      if (g.p(0.25)) steps.push({ k: "toggle", dt, op: g.n(d.def.operators.length) });
      else steps.push({ k: "key", dt, key: g.p(0.03) ? g.pick(["escape", "q", "C-c"]) : g.pick(["right", "right", "right", "left", "p", "p", "b", "s", "x"]) });
      if (steps[steps.length - 1].key === "right" && g.p(0.3)) for (let q = g.r(1, 25); q > 0; q--) steps.push({ k: "key", dt: g.pick([1, 10, 30, 60]), key: "right" });
    }
    return { salt, property: "C28", part: "js", progs: [d], actors: [[cmd], steps], schedule: [], scales: { ...(scale ? { t: scale } : {}), ...(g.p(0.3) ? { v: g.pick(["-1", "0.1", "3", "100"]) } : {}) }, load: { at: g.pick([1, 1, 10, 90, 300]), reject: g.p(0.02) } };
  }
  return { execute, gen };
};
