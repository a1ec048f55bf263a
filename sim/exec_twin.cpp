// One program: runs that have to agree, and runs judged by the model with additions.
#include "exec.h"

V c06(const json& t, Hash& log) {
  if (auto v = modelRun(t, log)) return v;
  if (!t.value("alt", false)) return {};
  // the same messages, arriving in other interleavings
  auto steps = stepsOf(t);
  Buffers b;
  vector<pair<string, Msg>> seq;
  for (auto& s : steps) {
    Fed f = b.fed(s);
    if (!f.is) continue;
    for (auto& x : inOrder(f.in)) seq.push_back(x);
  }
  PassOpts o;
  o.debugAll = true;
  auto run = [&](const vector<pair<string, Msg>>& q, bool batch) {
    vector<json> s;
    if (batch) {
      json m = json::object();
      for (auto& [p, x] : q) m[p].push_back({x.time, x.value});
      s.push_back({{"op", "call"}, {"p", 0}, {"m", m}, {"dbg", true}});
    } else
      for (auto& [p, x] : q) s.push_back({{"op", "call"}, {"p", 0}, {"m", single(p, x)}, {"dbg", true}});
    auto r = runPass(t, s, o);
    logAll(log, r);
    return std::make_pair(total(s, r, 0), anyError(r));
  };
  auto ref = run(seq, false);
  map<string, vector<Msg>> per;
  for (auto& [p, x] : seq) per[p].push_back(x);
  vector<string> ports;
  for (auto& [p, v] : per) ports.push_back(p);
  Rng r(t.value("altSeed", 7));
  for (int k = 0; k < 5; k++) {
    vector<pair<string, Msg>> q;
    if (k == 0)
      q = seq;
    else if (k == 1 || k == 2) {  // port after port
      if (k == 2) std::reverse(ports.begin(), ports.end());
      for (auto& p : ports)
        for (auto& m : per[p]) q.push_back({p, m});
    } else {  // random merges
      map<string, size_t> pos;
      vector<string> open = ports;
      while (!open.empty()) {
        size_t i = r.below(open.size());
        size_t burst = 1 + r.below(k == 3 ? 2 : 12);
        while (burst-- && pos[open[i]] < per[open[i]].size()) q.push_back({open[i], per[open[i]][pos[open[i]]++]});
        if (pos[open[i]] >= per[open[i]].size()) open.erase(open.begin() + (long)i);
      }
    }
    auto x = run(q, k == 0);
    count(C_TWIN_CMP);
    if (x.second != ref.second) return Violation{"interleaving: an error in one run only", "interleaving " + std::to_string(k)};
    if (!x.second && !same(ref.first, x.first))
      return Violation{"interleaving changes the emitted sequence", "interleaving " + std::to_string(k) + ": " + resDiff(ref.first, x.first)};
  }
  return {};
}

// ---------- C01 ----------

V c01(const json& t, Hash& log) {
  auto steps = stepsOf(t), plain = without(steps, kRestart);
  PassOpts a = base(t), b = base(t);
  a.iso = false, a.poison = 11, b.poison = 29;
  a.forked = a.text;
  auto oa = runPass(t, plain, a), ob = runPass(t, steps, b);
  logAll(log, oa), logAll(log, ob);
  return compare(plain, oa, steps, ob, kRestart, "restart");
}

// ---------- C02 ----------

V c02(const json& t, Hash& log) {
  auto s1 = stepsOf(t);
  auto s2 = without(s1, {"snap"});
  vector<json> s3;
  for (auto s : s1) {
    if (s["op"] == "snap") {
      s["op"] = "resnap";
      s3.push_back(s);
      s3.push_back({{"op", "hop"}, {"p", s["p"]}});
    } else
      s3.push_back(s);
  }
  addFinalSnaps(t, s1), addFinalSnaps(t, s2), addFinalSnaps(t, s3);
  // the last snapshots take part in the comparison
  size_t n = t["progs"].size();
  auto name = [&](vector<json>& v) {
    for (size_t i = v.size() - n; i < v.size(); i++) v[i]["op"] = "snap", v[i]["last"] = true;
  };
  name(s1), name(s2), name(s3);
  PassOpts a = base(t);
  auto run = [&](vector<json>& s, u64 poison) {
    PassOpts o = a;
    o.poison = poison;
    auto r = runPass(t, s, o);
    logAll(log, r);
    return r;
  };
  auto o1 = run(s1, 101), o2 = run(s2, 202), o3 = run(s3, 303);
  // outputs do not depend on snapshots; the last snapshots are identical
  auto cmp = [&](const vector<json>& sa, const vector<Obs>& oa, const vector<json>& sb, const vector<Obs>& ob, const string& what) -> V {
    vector<json> x, y;
    vector<Obs> ox, oy;
    auto take = [&](const vector<json>& s, const vector<Obs>& o, vector<json>& tx, vector<Obs>& to) {
      for (size_t i = 0; i < s.size(); i++)
        if ((s[i]["op"] != "snap" && s[i]["op"] != "resnap" && s[i]["op"] != "hop") || s[i].value("last", false)) tx.push_back(s[i]), to.push_back(o[i]);
    };
    take(sa, oa, x, ox), take(sb, ob, y, oy);
    return compare(x, ox, y, oy, {}, what);
  };
  if (auto v = cmp(s1, o1, s2, o2, "snapshot taken")) return v;
  // marks: same bytes in both runs, and after a restore
  size_t j = 0;
  set<int> dead;
  for (size_t i = 0; i < s1.size(); i++) {
    if (s1[i].value("last", false)) break;
    int p = s1[i].value("p", 0);
    while (j < s3.size() && s3[j]["op"] == "hop" && s1[i]["op"] != "hop") j++;
    if (o1[i].st == 1) dead.insert(p);
    if (s1[i]["op"] == "snap" && !dead.count(p)) {
      count(C_BYTES_CMP, 2);
      if (o3[j].st) return Violation{"restore failed", at(s3[j], j) + ": " + o3[j].ret};
      if (o1[i].bytes != o3[j].bytes) return Violation{"same history, different snapshots", at(s1[i], i) + ": " + bytesDiff(o1[i].bytes, o3[j].bytes)};
      if (o3[j].bytes != o3[j].bytes2) return Violation{"snapshot changes across a restore", at(s3[j], j) + ": " + bytesDiff(o3[j].bytes, o3[j].bytes2)};
    }
    j++;
  }
  return cmp(s1, o1, s3, o3, "snapshot restored");
}

// ---------- C03 ----------

V c03(const json& t, Hash& log) {
  if (auto v = modelRun(t, log)) return v;
  // without the messages the gate drops everything else is the same
  auto steps = stepsOf(t);
  map<string, u64> gate;
  Buffers b;
  vector<json> clean, dirty;
  for (auto& s : steps) {
    Fed f = b.fed(s);
    if (s["op"] == "buf" || s["op"] == "snap") continue;
    if (!f.is) {
      clean.push_back(s), dirty.push_back(s);
      continue;
    }
    json m = json::object(), all = json::object();
    for (auto& [port, x] : inOrder(f.in)) {
      string k = port;
      all[port].push_back({x.time, x.value});
      if (gate.count(k) && x.time <= gate[k]) {
        count(C_GATE_DROPS);
        continue;
      }
      gate[k] = x.time;
      m[port].push_back({x.time, x.value});
    }
    clean.push_back({{"op", "call"}, {"p", 0}, {"m", m}, {"dbg", true}});
    dirty.push_back({{"op", "call"}, {"p", 0}, {"m", all}, {"dbg", true}});
  }
  PassOpts o;
  auto a = runPass(t, clean, o), c = runPass(t, dirty, o);
  logAll(log, a);
  // the entry operator remembers the last message it received, also a dropped one: only the results are compared
  return compare(clean, a, dirty, c, {}, "dropped messages", false);
}

// ---------- C04 ----------

V c04(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  addFinalSnaps(t, steps);
  auto a = runPass(t, steps, base(t));
  logAll(log, a);
  PassOpts o;
  o.poison = 5;
  sim_alloc_reset(5);
  auto run = [&](int how) -> V {  // 0: one by one, 1: everything through the buffer, 2: direct batches
    vector<json> s;
    vector<vector<size_t>> group;
    Buffers b;
    for (auto& x : steps) {
      Fed f = b.fed(x);
      vector<size_t> g;
      auto add = [&](json y) { g.push_back(s.size()), s.push_back(y); };
      int p = x.value("p", 0);
      if (f.is) {
        if (how == 2)
          add({{"op", "call"}, {"p", p}, {"m", json::object()}, {"dbg", x.value("dbg", true)}});
        for (auto& [port, m] : inOrder(f.in)) {
          if (how == 0) add({{"op", "call"}, {"p", p}, {"m", single(port, m)}, {"dbg", x.value("dbg", true)}});
          if (how == 1) add({{"op", "buf"}, {"p", p}, {"port", port}, {"t", m.time}, {"v", m.value}});
          if (how == 2) s.back()["m"][port].push_back({m.time, m.value});
        }
        if (how == 1) add({{"op", "flush"}, {"p", p}, {"dbg", x.value("dbg", true)}});
      } else if (x["op"] != "buf")
        add(x);
      group.push_back(g);
    }
    auto r = runPass(t, s, o);
    logAll(log, r);
    set<int> dead;
    string what = how == 0 ? "one by one" : how == 1 ? "through the buffer" : "as direct batches";
    for (size_t i = 0; i < steps.size(); i++) {
      int p = steps[i].value("p", 0);
      if (dead.count(p)) continue;
      ProgMsgs res;
      bool err = false;
      Bytes bytes;
      for (size_t k : group[i]) {
        if (r[k].st == 1) {
          err = true;
          break;
        }
        append(res, r[k].res);
        if (!r[k].bytes.empty()) bytes = r[k].bytes;
      }
      if (steps[i]["op"] == "buf") continue;
      count(C_TWIN_CMP);
      if (err != (a[i].st == 1)) return Violation{what + ": an error in one run only", at(steps[i], i) + ": " + a[i].ret};
      if (err) {
        dead.insert(p);
        continue;
      }
      if (!same(res, a[i].res)) return Violation{what + ": results differ", at(steps[i], i) + ": " + resDiff(res, a[i].res)};
      if (!bytes.empty() && bytes != a[i].bytes) return Violation{what + ": snapshots differ", at(steps[i], i) + ": " + bytesDiff(bytes, a[i].bytes)};
    }
    return {};
  };
  for (int how = 0; how < 3; how++)
    if (auto v = run(how)) return v;
  return {};
}

// ---------- C05 ----------

V c05(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  addFinalSnaps(t, steps);
  auto with = [&](int how) {
    vector<json> s = steps;
    for (auto& x : s)
      if (how < 2 && (x["op"] == "call" || x["op"] == "flush")) x["dbg"] = how == 1;
    return s;
  };
  PassOpts o = base(t);
  auto sn = with(0), sd = with(1), sm = with(2);
  auto n = runPass(t, sn, o), d = runPass(t, sd, o), m = runPass(t, sm, o);
  logAll(log, n), logAll(log, d), logAll(log, m);
  auto restrict = [&](const ProgMsgs& r, const json& def) {
    if (!def.contains("output") || def["output"].empty()) return r;
    ProgMsgs x;
    for (auto& [op, ports] : def["output"].items()) {
      auto it = r.find(op);
      if (it == r.end()) continue;
      for (auto& p : ports) {
        auto jt = it->second.find(p.get<string>());
        if (jt != it->second.end()) x[op][p.get<string>()] = jt->second;
      }
    }
    return x;
  };
  set<int> dead;
  for (size_t i = 0; i < steps.size(); i++) {
    auto& s = steps[i];
    int p = s.value("p", 0);
    if (dead.count(p)) continue;
    count(C_TWIN_CMP, 2);
    if (n[i].st != d[i].st || m[i].st != d[i].st)
      return Violation{"an error in one kind of call only", at(s, i) + ": " + n[i].ret + " / " + d[i].ret + " / " + m[i].ret};
    if (d[i].st == 1) {
      dead.insert(p);
      continue;
    }
    if (s["op"] == "call" || s["op"] == "flush") {
      auto want = restrict(d[i].res, t["progs"][p]["def"]);
      if (!same(want, n[i].res)) return Violation{"normal call differs from the selection", at(s, i) + ": " + resDiff(want, n[i].res)};
      auto& w2 = s.value("dbg", true) ? d[i].res : want;
      if (!same(w2, m[i].res)) return Violation{"the kind of call changes later results", at(s, i) + ": " + resDiff(w2, m[i].res)};
    }
    if (s["op"] == "snap" && (n[i].bytes != d[i].bytes || m[i].bytes != d[i].bytes))
      return Violation{"the kind of call changes the state", at(s, i)};
  }
  return {};
}

// ---------- C08 with conflicting instructions ----------

V conflict(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  PassOpts o = base(t);
  o.debugAll = true;
  auto obs = runPass(t, steps, o);
  logAll(log, obs);
  const json& def = t["progs"][0]["def"];
  ModelProgram shape(def);
  string demux;
  for (auto& x : shape.ops)
    if (x.type == "Demultiplexer") demux = x.id;
  if (demux.empty()) return {};
  ModelOp& d = shape.ops[shape.index[demux]];
  map<string, u64> gate;
  for (size_t i = 0; i < steps.size(); i++) {
    if (steps[i]["op"] != "call") {
      if (obs[i].st) return Violation{"restart failed", obs[i].ret};
      continue;
    }
    map<string, PortMsgs> rx;
    for (auto& [port, m] : inOrder(msgsOf(steps[i]["m"]))) {
      if (gate.count(port) && m.time <= gate[port]) continue;
      gate[port] = m.time;
      for (auto& c : shape.conns)
        if (c.from == shape.entry && c.to == demux && c.fromPort == "o" + port.substr(1)) rx[c.toPort].push_back(m);
    }
    auto exp = d.step(rx);
    if (d.mustThrow && obs[i].st == 0) return Violation{"a conflicting instruction is not reported", at(steps[i], i) + " got " + show(obs[i].res)};
    if (obs[i].st) {
      if (!d.mayThrow) return Violation{"an error without a conflict", at(steps[i], i) + ": " + obs[i].ret};
      return {};
    }
    for (auto& port : d.ports.out) {
      PortMsgs got;
      auto it = obs[i].res.find(demux);
      if (it != obs[i].res.end() && it->second.count(port)) got = it->second.at(port);
      auto& e = exp[port];
      bool ok = got.size() == e.size();
      for (size_t k = 0; ok && k < e.size(); k++) ok = got[k].time == e[k].t && got[k].value == e[k].v;
      if (!ok) return Violation{d.mayThrow ? "a message is routed on a conflicting instruction" : "wrong messages from Demultiplexer", at(steps[i], i) + " port " + port + " got " + show(obs[i].res)};
    }
  }
  return {};
}

// ---------- C13 ----------

V c13(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  PassOpts o = base(t);
  o.debugAll = true;
  auto a = runPass(t, steps, o);
  logAll(log, a);
  json f = t;
  vector<map<string, string>> boundary(t["progs"].size());
  for (size_t i = 0; i < t["progs"].size(); i++) {
    f["progs"][i]["def"] = flatten(t["progs"][i]["def"], &boundary[i]);
    f["progs"][i]["def"].erase("output");
  }
  auto plain = without(steps, kRestart);
  auto b = runPass(f, plain, o);
  logAll(log, b);
  size_t j = 0;
  set<int> dead;
  for (size_t i = 0; i < steps.size(); i++) {
    auto& s = steps[i];
    if (kRestart.count(s["op"])) {
      if (a[i].st && dead.empty()) return Violation{"restart failed", at(s, i) + ": " + a[i].ret};
      continue;
    }
    size_t k = j++;
    int p = s.value("p", 0);
    if (dead.count(p)) continue;
    count(C_TWIN_CMP);
    if (a[i].st != b[k].st) return Violation{"an error in one form only", at(s, i) + ": " + a[i].ret + " / " + b[k].ret};
    if (a[i].st == 1) {
      dead.insert(p);
      continue;
    }
    // what the inline form emits at the places the original shows
    ProgMsgs want;
    for (auto& op : t["progs"][p]["def"]["operators"]) {
      string id = op["id"];
      for (auto& port : portsOf(op).out) {
        string src = id, sp = port;
        auto it = boundary[p].find(id + ":" + port);
        if (it != boundary[p].end()) {
          auto c = it->second.rfind(':');
          src = it->second.substr(0, c), sp = it->second.substr(c + 1);
        }
        auto x = b[k].res.find(src);
        if (x == b[k].res.end()) continue;
        auto y = x->second.find(sp);
        if (y != x->second.end()) want[id][port] = y->second;
      }
    }
    if (!same(want, a[i].res)) return Violation{"pipeline differs from its contents inline", at(s, i) + ": " + resDiff(want, a[i].res)};
  }
  return {};
}

