// Several programs, the registry, faults of the host, and the text interface.
#include "exec.h"

#include <nlohmann/json-schema.hpp>

#include "rtbot/bindings.h"
#include "rtbot/jsonschema.hpp"

// ---------- C14 ----------

V c14(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  PassOpts o = base(t);
  o.forked = true;
  auto a = runPass(t, steps, o);
  logAll(log, a);
  for (int p = 0; p < (int)t["progs"].size(); p++) {
    vector<json> mine;
    vector<Obs> got;
    for (size_t i = 0; i < steps.size(); i++)
      if (steps[i].value("p", 0) == p || steps[i]["op"] == "crash") mine.push_back(steps[i]), got.push_back(a[i]);
    PassOpts q = o;
    q.only = p, q.poison = 77 + p;
    auto b = runPass(t, mine, q);
    logAll(log, b);
    // errors are part of the story here: compare everything
    for (size_t i = 0; i < mine.size(); i++) {
      count(C_TWIN_CMP);
      if (mine[i]["op"] == "crash") {
        if (got[i].st != b[i].st && b[i].st == 0) return Violation{"neighbours: restart failed", at(mine[i], i) + ": " + got[i].ret};
        continue;
      }
      if (got[i].st != b[i].st || (got[i].st == 0 && (!same(got[i].res, b[i].res) || got[i].bytes != b[i].bytes)))
        return Violation{"neighbours change what a program does", at(mine[i], i) + ": alone " + std::to_string(b[i].st) + " " + b[i].ret + show(b[i].res) +
                                                                      " with others " + std::to_string(got[i].st) + " " + got[i].ret + show(got[i].res)};
    }
  }
  return {};
}

// ---------- C15 ----------

V c15(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  auto& defs = t["defs"];
  auto text = [&](int d) { return defs[d]["def"].is_string() ? defs[d]["def"].get<string>() : defs[d]["def"].dump(); };
  sim_alloc_reset(9);
  vector<Obs> obs;
  {
    Host h;
    h.text = t.value("text", false);
    h.through(t.value("via", 0));
    for (auto s : steps) {
      if (s["op"] == "create") s["def"] = text(s["d"]);
      obs.push_back(h.step(s));
    }
    if (h.text)
      for (auto& id : {"a", "b", "ab", "", "é \""}) h.del(id);
  }
  logAll(log, obs);
  // what should have happened
  struct Inc {
    string uid;
    int d;
    bool dead = false;
    bool pending = false;  // has buffered messages
  };
  map<string, Inc> live;
  map<string, pair<string, int>> slots;  // slot -> (twin slot name, definition)
  vector<json> twin;
  vector<long> at2(steps.size(), -1);
  int serial = 0;
  set<string> tainted;  // slots
  for (size_t i = 0; i < steps.size(); i++) {
    auto& s = steps[i];
    string op = s["op"], id = s["id"];
    auto it = live.find(id);
    bool is = it != live.end();
    auto emit = [&](json x) { at2[i] = (long)twin.size(), twin.push_back(x); };
    if (op == "create") {
      int d = s["d"];
      bool bad = defs[d].contains("bad");
      if (is || bad) {
        if (obs[i].st == 0)
          return Violation{string("success reported although ") + (is ? "the id is in use" : "the definition is malformed"),
                           at(s, i) + (bad ? " " + defs[d]["bad"].get<string>() : "")};
        continue;
      }
      if (obs[i].st) return Violation{"a valid definition is refused", at(s, i) + ": " + obs[i].ret};
      live[id] = {"inc" + std::to_string(serial++), d};
      emit({{"op", "create"}, {"id", live[id].uid}, {"def", text(d)}});
    } else if (op == "createb") {
      string sl = s["slot"].dump();
      if (!slots.count(sl)) continue;
      if (is) {
        if (obs[i].st == 0) return Violation{"success reported although the id is in use", at(s, i)};
        continue;
      }
      if (tainted.count(sl)) {
        // a program that had failed was saved; follow it no further
        live[id] = {"inc" + std::to_string(serial++), slots[sl].second, true};
        if (obs[i].st) live.erase(id);
        continue;
      }
      if (obs[i].st) return Violation{"a snapshot is refused", at(s, i) + ": " + obs[i].ret};
      live[id] = {"inc" + std::to_string(serial++), slots[sl].second};
      emit({{"op", "createb"}, {"id", live[id].uid}, {"slot", slots[sl].first}});
    } else if (op == "del") {
      if ((obs[i].ret == "1") != is) return Violation{is ? "deletion fails" : "deletion of nothing succeeds", at(s, i) + ": " + obs[i].ret};
      live.erase(id);
    } else if (op == "snap") {
      if (!is) {
        if (obs[i].st == 0) return Violation{"snapshot of an unknown program succeeds", at(s, i)};
        continue;
      }
      if (obs[i].st) return Violation{"snapshot fails", at(s, i) + ": " + obs[i].ret};
      string sl = s["slot"].dump();
      tainted.erase(sl);
      if (it->second.dead) tainted.insert(sl);
      slots[sl] = {"t" + std::to_string(i), it->second.d};
      if (!it->second.dead) emit({{"op", "snap"}, {"id", it->second.uid}, {"slot", slots[sl].first}});
    } else if (op == "query") {
      if (is == (obs[i].st != 0)) return Violation{is ? "query fails" : "query of an unknown program succeeds", at(s, i)};
      if (is) {
        auto& d = defs[it->second.d]["def"];
        if (obs[i].ret.rfind(d["entryOperator"].get<string>() + "\n", 0) != 0)
          return Violation{"query names the wrong entry operator", at(s, i) + ": " + obs[i].ret};
      }
    } else if (op == "buf" || op == "flush" || op == "call") {
      if (!is) {
        if (!normalized(obs[i].res).empty()) return Violation{"an unknown program answers", at(s, i)};
        continue;
      }
      if (it->second.dead) continue;
      json x = s;
      x["id"] = it->second.uid;
      if (op == "call" && t.value("text", false)) {  // a batch joins the messages that are waiting
        for (auto& [port, l] : msgsOf(s["m"]))
          for (auto& m : l) twin.push_back({{"op", "buf"}, {"id", x["id"]}, {"port", port}, {"t", m.time}, {"v", m.value}});
        x["op"] = "flush";
      }
      emit(x);
    } else
      throw std::logic_error("c15 " + op);
    if (is && obs[i].st == 1) it->second.dead = true;
  }
  // a twin in which every program that should ever have lived has a name of its own
  sim_alloc_reset(10);
  Host h;
  h.text = false;
  vector<Obs> tw;
  for (auto& x : twin) tw.push_back(h.step(x));
  logAll(log, tw);
  for (size_t i = 0; i < steps.size(); i++) {
    if (at2[i] < 0) continue;
    auto& x = tw[(size_t)at2[i]];
    count(C_TWIN_CMP);
    if ((x.st == 1) != (obs[i].st == 1)) return Violation{"lifecycle: an error in one run only", at(steps[i], i) + ": " + obs[i].ret + " / " + x.ret};
    if (x.st) continue;
    if (!same(x.res, obs[i].res)) return Violation{"lifecycle: results differ", at(steps[i], i) + ": " + resDiff(x.res, obs[i].res)};
    if (x.bytes != obs[i].bytes) return Violation{"lifecycle: snapshots differ", at(steps[i], i) + ": " + bytesDiff(x.bytes, obs[i].bytes)};
  }
  return {};
}

// ---------- C16 ----------

V c16(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  addFinalSnaps(t, steps);
  auto a = runPass(t, steps, base(t));
  logAll(log, a);
  // reference: no buffer at all; a flush hands the messages over one by one, up to the first that fails
  sim_alloc_reset(21);
  Host h;
  for (auto& p : t["progs"]) h.ids.push_back(p["id"]), h.defs.push_back(p["def"].dump());
  for (size_t i = 0; i < h.ids.size(); i++)
    if (h.step({{"op", "create"}, {"p", i}}).st) throw std::logic_error("valid program refused");
  map<int, OpMsgs> buf;
  bool text = t.value("text", false);
  vector<Obs> b;
  for (size_t i = 0; i < steps.size(); i++) {
    auto& s = steps[i];
    string op = s["op"];
    int p = s.value("p", 0);
    Obs r;
    if (op == "buf")
      buf[p][s["port"]].push_back(Msg(s["t"].get<u64>(), s["v"].get<double>()));
    else if (op == "flush" || op == "call") {
      OpMsgs in;
      if (op == "flush" || text) in = std::move(buf[p]), buf[p].clear();
      // a batch given to the text interface joins the messages that are waiting
      if (op == "call")
        for (auto& [port, l] : msgsOf(s["m"]))
          for (auto& m : l) in[port].push_back(m);
      for (auto& [port, m] : inOrder(in)) {
        Obs x = h.step({{"op", "call"}, {"p", p}, {"m", single(port, m)}, {"dbg", s.value("dbg", true)}});
        if (x.st) {
          r = x;
          r.res.clear();
          break;
        }
        append(r.res, x.res);
      }
    } else {
      if (op == "crash") buf.clear();
      if (op == "hop" || op == "del") buf[p].clear();
      r = h.step(s);
    }
    b.push_back(r);
    auto& x = a[i];
    count(C_TWIN_CMP);
    if (op == "buf" && !normalized(x.res).empty()) return Violation{"buffering emits", at(s, i)};
    if ((x.st == 1) != (r.st == 1)) return Violation{"buffer: an error in one run only", at(s, i) + ": expected '" + r.ret + "' got '" + x.ret + "'"};
    if (x.st == 0 && !same(x.res, r.res)) return Violation{"buffer: results differ", at(s, i) + ": " + resDiff(r.res, x.res)};
    if (op == "snap" && x.bytes != r.bytes) return Violation{"buffer: state differs", at(s, i) + ": " + bytesDiff(r.bytes, x.bytes)};
  }
  logAll(log, b);
  return {};
}

// ---------- C17 ----------

V c17(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  vector<json> calls;
  for (auto& s : steps)
    if (s["op"] == "call") calls.push_back(s);
  PassOpts o = base(t);
  auto golden = runPass(t, calls, o);
  logAll(log, golden);
  if (anyError(golden)) return {};
  sim_alloc_reset(31);
  Host h;
  h.text = o.text;
  h.through(o.via);
  h.ids.push_back(t["progs"][0]["id"]), h.defs.push_back(t["progs"][0]["def"].dump());
  h.step({{"op", "create"}, {"p", 0}});
  map<string, size_t> pos;  // durable: which message comes after the snapshot
  size_t next = 0;
  auto check = [&](size_t i, bool covered) -> V {
    Obs r = h.step(calls[i]);
    hashObs(log, r);
    count(C_TWIN_CMP);
    if (r.st) return Violation{"redelivery fails", at(calls[i], i) + ": " + r.ret};
    if (covered) {
      count(C_REDELIVERED);
      if (!normalized(r.res).empty()) return Violation{"a result is repeated", at(calls[i], i) + " got " + show(r.res)};
    } else if (!same(golden[i].res, r.res))
      return Violation{"recovery changes a result", at(calls[i], i) + ": " + resDiff(golden[i].res, r.res)};
    return {};
  };
  for (auto& s : steps) {
    if (s["op"] == "call") {
      if (auto v = check(next++, false)) return v;
    } else if (s["op"] == "snap") {
      Obs r = h.step(s);
      if (r.st) return Violation{"snapshot fails", r.ret};
      pos[s["slot"].dump()] = next;
    } else if (s["op"] == "recover") {
      if (s.value("process", false) && !h.text) {
        count(C_CRASHES);
        h.reg.reset(new rtbot::FactoryOp());
      }
      Obs r = h.step({{"op", "restore"}, {"p", 0}, {"slot", s["slot"]}});
      if (r.st) return Violation{"restore fails", r.ret};
      size_t from = pos.count(s["slot"].dump()) ? pos[s["slot"].dump()] : 0;
      size_t back = std::min<size_t>(s["back"].get<size_t>(), from);
      for (size_t i = from - back; i < next; i++)
        if (auto v = check(i, i < from)) return v;
    }
  }
  if (h.text) h.step({{"op", "del"}, {"p", 0}});
  return {};
}

// ---------- C19 ----------

V c19(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  int n = (int)t["progs"].size();
  struct Rec {
    json s;
    Obs o;
  };
  // the reference sees everything but the calls that failed without effect
  vector<json> ref;
  vector<long> refAt(steps.size(), -1);
  vector<Obs> got;
  sim_alloc_reset(41);
  Host h;
  for (auto& p : t["progs"]) h.ids.push_back(p["id"]), h.defs.push_back(p["def"].dump());
  for (int p = 0; p < n; p++)
    if (h.step({{"op", "create"}, {"p", p}}).st) throw std::logic_error("valid program refused");
  // what the client must resend after the last durable snapshot of a program: indices of steps
  map<int, vector<size_t>> since;
  map<int, vector<size_t>> bufAtSnap;  // messages that were in the buffer when the snapshot was taken
  map<int, vector<size_t>> inBuf;
  map<int, bool> hasSlot;
  vector<pair<size_t, Obs>> again;  // results of resent steps
  set<int> dead;
  V bad;
  for (size_t i = 0; i < steps.size() && !bad; i++) {
    auto s = steps[i];
    string op = s["op"];
    int p = s.value("p", 0);
    if (op == "sweep") {
      // every allocation of a snapshot fails once
      Obs full = h.step({{"op", "snap"}, {"p", p}});
      if (full.st) return Violation{"snapshot fails", full.ret};
      long most = std::min<long>(full.allocs, 400);
      for (long k = 1; k <= most; k++) {
        Obs x = h.step({{"op", "snap"}, {"p", p}, {"oom", k}});
        if (x.st == 1) return Violation{"snapshot without memory: wrong error", x.ret};
        if (x.st == 0 && x.bytes != full.bytes) return Violation{"snapshot without memory: partial result", "allocation " + std::to_string(k)};
      }
      Obs y = h.step({{"op", "snap"}, {"p", p}});
      if (y.st || y.bytes != full.bytes) return Violation{"a failed snapshot changes the program", bytesDiff(full.bytes, y.bytes)};
      got.push_back(Obs());
      continue;
    }
    Obs o = h.step(s);
    got.push_back(o);
    if (op == "snap") {
      if (o.st == 1) return Violation{"snapshot fails", at(s, i) + ": " + o.ret};
      if (o.st == 0) {
        refAt[i] = (long)ref.size(), ref.push_back({{"op", "snap"}, {"p", p}});
        if (s.contains("slot")) since[p].clear(), hasSlot[p] = true, bufAtSnap[p] = inBuf[p];
      }
      continue;
    }
    if (op == "buf") {
      if (o.st == 1) return Violation{"buffering fails", at(s, i) + ": " + o.ret};
      if (o.st == 2) continue;  // as if it had not been called
      refAt[i] = (long)ref.size(), ref.push_back(s), ref.back().erase("oom");
      since[p].push_back(i), inBuf[p].push_back(i);
      continue;
    }
    // call, flush
    refAt[i] = (long)ref.size(), ref.push_back(s), ref.back().erase("oom");
    since[p].push_back(i);
    if (op == "flush") inBuf[p].clear();
    // a failed allocation may also surface as another error (string streams swallow it)
    if (o.st == 2 || (o.st == 1 && s.contains("oom"))) {  // restart from the last snapshot and send everything again
      count(C_RESTARTS);
      Obs r = h.step({{"op", "restore"}, {"p", p}, {"slot", hasSlot[p] ? json(p) : json("none")}});
      if (r.st) return Violation{"restore fails after running out of memory", r.ret};
      vector<size_t> todo = bufAtSnap[p];
      todo.insert(todo.end(), since[p].begin(), since[p].end());
      for (size_t k : todo) {
        json x = steps[k];
        x.erase("oom");
        Obs y = h.step(x);
        count(C_REDELIVERED);
        if (y.st) return Violation{"redelivery fails after running out of memory", at(x, k) + ": " + y.ret};
        again.push_back({k, y});
        if (k == i) got[i] = y;
      }
    }
  }
  logAll(log, got);

  PassOpts o;
  o.poison = 43;
  auto want = runPass(t, ref, o);
  logAll(log, want);
  auto cmp = [&](size_t i, const Obs& g, const string& what) -> V {
    if (refAt[i] < 0) return {};
    auto& w = want[(size_t)refAt[i]];
    count(C_TWIN_CMP);
    if (w.st) return {};
    if (g.st) return Violation{what + ": error", at(steps[i], i) + ": " + g.ret};
    if (!same(w.res, g.res)) return Violation{what + ": results differ", at(steps[i], i) + ": " + resDiff(w.res, g.res)};
    if (w.bytes != g.bytes) return Violation{what + ": snapshots differ", at(steps[i], i) + ": " + bytesDiff(w.bytes, g.bytes)};
    return {};
  };
  for (size_t i = 0; i < got.size(); i++)
    if (auto v = cmp(i, got[i], "out of memory")) return v;
  for (auto& [i, y] : again)
    if (auto v = cmp(i, y, "redelivery after running out of memory")) return v;
  return {};
}

// ---------- C20 ----------

V c20(const json& t, Hash& log) {
  json def = t["progs"][0]["def"];
  auto steps = without(stepsOf(t), kRestart);
  sim_alloc_reset(51);
  auto build = [](const json& d) { return std::make_unique<rtbot::Program>(d.dump()); };
  auto p = build(def);
  string e1 = p->getProgram();
  json d2 = def;
  d2["operators"] = json::parse(e1);
  std::unique_ptr<rtbot::Program> q;
  try {
    q = build(d2);
  } catch (const std::exception& e) {
    return Violation{"the exported definition is refused", string(e.what()) + " " + e1};
  }
  string e2 = q->getProgram();
  log.str(e1);
  if (e1 != e2) return Violation{"exporting again gives another text", e1 + " / " + e2};
  ModelProgram model(def);
  ModelProgram::Opts all;
  Buffers b;
  size_t n = 0, when = t.value("restartAt", (size_t)0);
  std::unique_ptr<rtbot::Program> r;
  for (size_t i = 0; i < steps.size(); i++) {
    if (n++ == when) {
      r.reset(new rtbot::Program(p->serialize()));
      if (r->getProgram() != e1) return Violation{"the export changes with the history", "after a restart: " + e1 + " / " + r->getProgram()};
    }
    Fed f = b.fed(steps[i]);
    if (!f.is) continue;
    auto run = [&](rtbot::Program& x) {
      Obs o;
      try {
        o.res = x.receiveDebug(f.in);
      } catch (const std::exception& e) {
        o.st = 1, o.ret = e.what();
      }
      count(C_CALLS), count(C_MSGS, countMsgs(f.in));
      return o;
    };
    Obs x = run(*p), y = run(*q);
    hashObs(log, x);
    Hash xs;
    hashObs(xs, x), noteState(xs.h);
    count(C_TWIN_CMP);
    if (x.st != y.st) return Violation{"the rebuilt program differs: error", at(steps[i], i) + x.ret + y.ret};
    if (x.st) return {};
    if (!same(x.res, y.res)) return Violation{"the rebuilt program differs", at(steps[i], i) + ": " + resDiff(x.res, y.res)};
    if (!model.abandoned)
      if (auto v = model.call(f.in, x.res, all)) {
        v->kind = "configuration: " + v->kind;
        return v;
      }
  }
  if (p->getProgram() != e1) return Violation{"the export changes with the history", e1 + " / " + p->getProgram()};
  return {};
}

// ---------- C21 ----------

V c21(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  sim_alloc_reset(61);
  Host h;
  h.ids.push_back(t["progs"][0]["id"]), h.defs.push_back(t["progs"][0]["def"].dump());
  h.step({{"op", "create"}, {"p", 0}});
  // the windows of the program: how much it may legitimately come to hold
  size_t room = 0;
  std::function<void(const json&)> windows = [&](const json& d) {
    for (auto& o : d["operators"]) {
      auto p = portsOf(o);
      size_t w = 4;
      if (o.contains("n")) w = std::max<size_t>(w, o["n"].get<size_t>() + 1);
      if (o.contains("coeff")) w = std::max<size_t>(w, o["coeff"].size() + 1);
      room += (p.in.size() + p.ctrl.size() + p.out.size()) * w * 16 + 64;
      if (o.contains("prog")) windows(o["prog"]);
    }
  };
  windows(t["progs"][0]["def"]);
  size_t n = steps.size();
  size_t early = 0, late = 0;
  vector<long> peak(4);  // memory held in the eighth before 1/4, the quarter before 1/2, the second half
  for (size_t i = 0; i < n; i++) {
    Obs o = h.step(steps[i]);
    if (o.st == 1) return {};
    hashObs(log, o);
    o = Obs();
    long& held = peak[i < n / 8 ? 0 : i < n / 4 ? 1 : i < n / 2 ? 2 : 3];
    held = std::max(held, sim_alloc_bytes());
    if (i % 16 == 0 || i + 1 == n) {
      Obs s = h.step({{"op", "snap"}, {"p", 0}});
      Hash x;
      x.add(s.bytes.data(), s.bytes.size()), noteState(x.h);
      count(C_BYTES_CMP);
      (i < n / 3 ? early : late) = std::max(i < n / 3 ? early : late, s.bytes.size());
    }
  }
  log.u(late);
  if (n > 500 && late > early + room)
    return Violation{"the state grows with the stream", "largest snapshot " + std::to_string(early) + " bytes in the first third of " + std::to_string(n) +
                                                            " steps, " + std::to_string(late) + " later; the windows explain " + std::to_string(room)};
  if (n > 500 && peak[2] - peak[1] > (long)n * 2 && peak[3] - peak[2] > (long)n * 4)
    return Violation{"the memory grows with the stream", std::to_string(peak[1]) + " bytes alive before a quarter of " + std::to_string(n) + " steps, " +
                                                             std::to_string(peak[2]) + " before the half, " + std::to_string(peak[3]) + " after it"};
  return {};
}

// ---------- C30 ----------

V grown(const vector<long>& blocks, const vector<long>& bytes) {
  bool a = true, b = true;
  string s;
  for (size_t i = 0; i < blocks.size(); i++) {
    s += (i ? ", " : "") + std::to_string(blocks[i]) + " (" + std::to_string(bytes[i]) + " bytes)";
    if (i) a = a && blocks[i] > blocks[i - 1], b = b && bytes[i] > bytes[i - 1] + 256;
  }
  if (a || b) return Violation{"memory is left behind", "blocks alive after 2, 4, 8 and 16 rounds of the same, with every program deleted: " + s};
  return {};
}
bool afterRound(int k) { return k == 2 || k == 4 || k == 8 || k == 16; }

// the same definition with other names: nothing remembered by contents may pile up either
json renamed(json d, const string& suffix) {
  auto name = [&](json& x, const char* k) {
    if (x.is_object() && x.contains(k) && x[k].is_string()) x[k] = x[k].get<string>() + suffix;
  };
  if (!d.is_object()) return d;
  name(d, "entryOperator");
  for (auto [list, keys] : {pair{"operators", vector<const char*>{"id"}}, pair{"connections", vector<const char*>{"from", "to"}}})
    if (d.contains(list) && d[list].is_array())
      for (auto& x : d[list])
        for (auto k : keys) name(x, k);
  if (d.contains("output") && d["output"].is_object()) {
    json o = json::object();
    for (auto& [k, v] : d["output"].items()) o[k + suffix] = v;
    d["output"] = o;
  }
  return d;
}

V c30(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  sim_alloc_reset(71);
  Host h;
  h.text = t.value("text", false);
  h.through(t.value("via", 0));
  vector<long> blocks, bytes;
  blocks.reserve(8), bytes.reserve(8);
  bool renew = t.value("renew", false);
  for (int k = 1; k <= 16; k++) {
    {
      string suffix = "#" + std::to_string(10 + k);  // never seen before
      for (auto& p : t["progs"]) h.ids.push_back(p["id"].get<string>() + suffix), h.defs.push_back((renew ? renamed(p["def"], suffix) : p["def"]).dump());
      for (auto& id : h.ids) {
        size_t p = &id - &h.ids[0];
        h.step({{"op", "create"}, {"p", p}});
      }
      for (auto s : steps) {
        if (s.contains("id")) s["id"] = s["id"].get<string>() + suffix;
        if (renew && s.contains("def")) s["def"] = renamed(s["def"], suffix);
        hashObs(log, h.step(s));
      }
      for (auto& [id, l] : map<string, bool>(h.live)) h.del(id);
      h.slots.clear(), h.ids.clear(), h.defs.clear(), h.live.clear();
      h.ids.shrink_to_fit(), h.defs.shrink_to_fit();
    }
    noteState(log.h);
    if (afterRound(k)) blocks.push_back(sim_alloc_blocks()), bytes.push_back(sim_alloc_bytes());
  }
  return grown(blocks, bytes);
}

// ---------- C22 ----------

V c22(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  addFinalSnaps(t, steps);
  PassOpts o = base(t);
  vector<json> native = steps;
  auto schemaRejects = [](const string& def) {
    nlohmann::json_schema::json_validator v(nullptr, nlohmann::json_schema::default_string_format_check);
    v.set_root_schema(rtbot_schema);
    try {
      v.validate(json::parse(def));
    } catch (const std::exception&) {
      return true;
    }
    return false;
  };
  for (auto& p : t["progs"]) {
    string d = p["def"].dump();
    if (schemaRejects(d)) return Violation{"the published schema rejects a documented definition", d};
    for (auto* m : {&glue::python(), &glue::javascript()})
      if (m->count("validate") && (*m)["validate"]({d}) != "{\"valid\":true}") return Violation{"validation rejects a documented definition", (*m)["validate"]({d})};
    if (::validate(d) != "{\"valid\":true}") return Violation{"validation rejects a documented definition", ::validate(d)};
    for (auto& op : p["def"]["operators"]) {
      string v = ::validateOperator(op["type"], op.dump());
      if (v != "{\"valid\":true}") return Violation{"validation rejects a documented operator", op.dump() + " " + v};
      for (auto* m : {&glue::python(), &glue::javascript()})
        if (m->count("validateOperator") && (*m)["validateOperator"]({op["type"].get<string>(), op.dump()}) != v) return Violation{"validation rejects a documented operator", op.dump()};
    }
  }
  vector<Obs> a;
  try {
    a = runPass(t, steps, o);
  } catch (const json::exception& e) {
    return Violation{"the text is not json", e.what()};
  } catch (const std::runtime_error& e) {
    return Violation{"a valid program is refused", e.what()};
  } catch (const std::logic_error& e) {
    return Violation{"the text is not exact", e.what()};
  }
  PassOpts q;
  vector<json> ns;
  for (auto& s : steps)
    if (!s.contains("bad") && s["op"] != "uneven") ns.push_back(s);
  auto b = runPass(t, ns, q);
  logAll(log, a), logAll(log, b);
  size_t j = 0;
  set<int> dead;
  for (size_t i = 0; i < steps.size(); i++) {
    auto& s = steps[i];
    if (s.contains("bad")) {
      string d = s["def"].dump();
      if (!schemaRejects(d)) continue;
      if (a[i].st == 0) return Violation{"a definition the schema rejects is accepted", d};
      bool reason = false;
      try {
        json r = json::parse(a[i].ret);
        reason = r.at("valid") == false && !r.at("error").get<string>().empty();
      } catch (const std::exception&) {
      }
      if (!reason) return Violation{"a refusal without a reason", d + ": " + a[i].ret};
      if (::deleteProgram(s["id"]) != "0") return Violation{"a refused program is live", d};
      if (::validate(d) != a[i].ret) return Violation{"validation and creation disagree", a[i].ret + " / " + ::validate(d)};
      continue;
    }
    if (s["op"] == "uneven") {  // and nothing of it may be left waiting
      if (a[i].st != 1) return Violation{"a batch of lists of different lengths is accepted", at(s, i)};
      continue;
    }
    size_t k = j++;
    int p = s.value("p", 0);
    if (dead.count(p)) continue;
    count(C_TWIN_CMP);
    if ((a[i].st == 1) != (b[k].st == 1)) return Violation{"text: an error in one run only", at(s, i) + ": " + a[i].ret + " / " + b[k].ret};
    if (a[i].st == 1) {
      dead.insert(p);
      continue;
    }
    if (!same(b[k].res, a[i].res)) return Violation{"text: results differ", at(s, i) + ": " + resDiff(b[k].res, a[i].res)};
    if (a[i].bytes != b[k].bytes) return Violation{"text: snapshots differ", at(s, i)};
    if (s["op"] == "query") {
      const json& d = t["progs"][p]["def"];
      json ports = json::array(), filter = d.value("output", json::object());
      set<string> in;
      for (auto& x : d["operators"])
        if (x["id"] == d["entryOperator"])
          for (auto& y : portsOf(x).in) in.insert(y);
      for (auto& x : in) ports.push_back(x);
      if (filter.empty()) filter = json::object();
      vector<string> l;
      string cur;
      size_t c1 = a[i].ret.find('\n'), c2 = a[i].ret.find('\n', c1 + 1);
      if (c1 == string::npos || c2 == string::npos) return Violation{"query", a[i].ret};
      json f2 = json::parse(a[i].ret.substr(c2 + 1));
      if (f2.is_null()) f2 = json::object();
      if (a[i].ret.substr(0, c1) != d["entryOperator"].get<string>() || json::parse(a[i].ret.substr(c1 + 1, c2 - c1 - 1)) != ports || f2 != filter)
        return Violation{"a query answers wrongly", at(s, i) + ": " + a[i].ret};
    }
  }
  return {};
}

