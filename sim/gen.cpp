// What is simulated for each property: programs, worlds and faults.
#include <algorithm>
#include <cmath>
#include <set>

#include "common.h"
#include "progen.h"
#include "world.h"

namespace {

// A small share of the runs is far larger than the others in one respect.
enum Scale { S_NONE, S_LONG, S_WINDOW, S_LAG, S_BATCH, S_OPS, S_PORTS, S_DEPTH, S_IDS, S_GAP, S_VALUES, S_PROGS, S_KINDS };

struct Gen {
  Rng r;
  bool thorough;
  string prop;
  WorkCfg w;
  HostCfg h;
  GenCfg c;
  vector<ProgRun> progs;
  Scale big = S_NONE;
  bool scaled = false;
  Gen(const string& p, u64 seed, bool th) : r(seed), thorough(th), prop(p) {
    c = cfgAll();
    r.left = 20'000'000;
    if (p != "C21" && r.chance(0.08)) big = (Scale)(1 + r.below(S_KINDS - 1));
  }

  void world() {
    randomWork(r, w, h, thorough);
    static const std::set<string> twins = {"C02", "C04", "C13", "C14", "C15", "C16", "C17", "C19", "C20"};
    if (twins.count(prop) && r.chance(0.25)) h.debugP = 0.5;
    fit();
  }
  void fit() {  // the generator must know what the streams look like
    c.spacing = w.spacing, c.base = (double)w.base;
    c.mag = w.valueKind == 9 ? 1e17 : w.valueKind == 7 ? 1e9 : w.valueKind == 10 ? 2e6 : w.valueKind == 4 ? 2.0 * w.ticks : w.valueKind == 8 ? 3.0 * w.ticks : 10;
  }
  // applied when everything else about the world is settled
  void scale() {
    if (big == S_NONE || scaled) return;
    scaled = true;
    bool slow = prop == "C14" || prop == "C15" || prop == "C19" || prop == "C22";
    auto small = [&](int ops) {
      c.minOps = 1, c.maxOps = std::min(c.maxOps, ops), c.maxPorts = std::min(c.maxPorts, std::max(2, c.minPorts)), c.depth = std::min(c.depth, 1), c.wideP = 0;
    };
    auto longer = [&](int ticks) {  // as many faults as in a short run
      double f = std::min(1.0, 60.0 / ticks);
      w.ticks = ticks;
      h.hopP *= f, h.crashP *= f, h.snapP *= f;
    };
    switch (big) {
      case S_LONG: small(3), longer((int)(slow ? r.range(150, 400) : r.range(400, 2600))); break;
      case S_WINDOW: {
        small(3);
        c.maxWindow = (int)(slow ? r.range(30, 100) : r.range(60, 400));
        longer(c.maxWindow * (int)r.range(1, 4) + 20);
        break;
      }
      case S_LAG:  // one port arrives late as a whole
        small(4), c.maxPorts = std::max(2, c.maxPorts), c.minPorts = std::max(2, c.minPorts);
        longer((int)(slow ? r.range(100, 300) : r.range(200, 2200)));
        w.lagTicks = w.ticks - (int)r.range(0, 40);
        break;
      case S_BATCH:
        small(4), longer((int)(slow ? r.range(100, 300) : r.range(300, 2600)));
        if (h.mode != H_BUFFER) h.mode = H_BATCH;
        h.flushEvery = (u64)w.ticks * 2000, h.crashP = 0;
        break;
      case S_OPS: c.minOps = 20, c.maxOps = (int)r.range(25, slow ? 40 : 80), w.ticks = std::min(w.ticks, 12), c.depth = 0; break;
      case S_PORTS:
        c.wideP = 0.9, c.wideMax = (int)r.range(15, 40), w.ticks = std::min(w.ticks, 20), c.maxOps = std::min(c.maxOps, 5);
        if (c.maxPorts > 1 && r.chance(0.5)) c.minPorts = 9, c.maxPorts = (int)r.range(10, 34);
        break;
      case S_DEPTH:
        if (c.w.count("Pipeline") && c.depth > 0) c.w["Pipeline"] = 400, c.depth = (int)r.range(4, 12), w.ticks = std::min(w.ticks, 25);
        break;
      case S_IDS: c.longIds = true, w.ticks = std::min(w.ticks, 15); break;
      case S_GAP: w.gapP = 0.06, w.gapMax = slow ? 400 : (int)r.pick(vector<int>{1000, 6000, 30000}), w.ticks = std::min(w.ticks, 40), small(4); break;
      case S_VALUES: w.valueKind = 9; break;
      case S_PROGS: w.ticks = std::min(w.ticks, 6), c.maxOps = std::min(c.maxOps, 3), c.depth = std::min(c.depth, 1); break;
      default: break;
    }
    fit();
  }
  void program() {
    scale();
    ProgRun p;
    p.info = genProgram(r, c);
    p.work = w;
    progs.push_back(p);
  }
  void restarts(double scale = 1) {
    static const vector<double> hp = {0.02, 0.1, 0.3, 0.6}, cp = {0, 0.02, 0.1};
    h.hopP = r.pick(hp) * scale, h.crashP = r.pick(cp) * scale;
  }
  json run(const string& scenario) {
    json t = traceOf(prop, scenario, progs);
    simulate(r, progs, h, t);
    return t;
  }
  // a hand-made program
  void given(json def, int ports, map<int, int> controlOf = {}) {
    ProgRun p;
    p.info.def = def, p.info.ports = ports, p.info.controlOf = controlOf;
    p.work = w;
    progs.push_back(p);
  }
};

void only(GenCfg& c, const map<string, int>& w) { c.w = w; }

json conn(const string& f, const string& fp, const string& t, const string& tp) {
  return {{"from", f}, {"fromPort", fp}, {"to", t}, {"toPort", tp}};
}
string num(const string& p, size_t i) { return p + std::to_string(i); }

// the same program, with the same names, in which some operators are configured differently, also within pipelines
void reconfigure(Rng& r, json& def, double p) {
  static const std::set<string> val = {"Add", "Scale", "Constant", "GreaterThan", "LessThan", "EqualTo"}, len = {"MovingAverage", "StandardDeviation"};
  for (auto& o : def["operators"]) {
    string t = o.at("type");
    if (t == "Pipeline") reconfigure(r, o["prog"], p);
    if (!r.chance(p)) continue;
    if (val.count(t) && o.contains("value") && o["value"].is_number()) o["value"] = o["value"].get<double>() + r.pick(vector<double>{1, -1, 0.5});
    if (len.count(t) && o.contains("n") && o["n"].is_number_integer()) o["n"] = o["n"].get<int>() + (int)r.range(1, 3);
    if (t == "FiniteImpulseResponse" && o.contains("coeff") && !o["coeff"].empty()) o["coeff"].back() = o["coeff"].back().get<double>() + 1;
  }
}

// an entry operator with the data and the instructions of a demultiplexer coming from outside
void demuxProgram(Gen& g) {
  g.scale();
  size_t n = g.big == S_PORTS ? g.r.range(11, 36) : g.r.chance(0.4) ? 1 : g.r.chance(0.08) ? 10 : g.r.range(2, 4);
  json ops = json::array(), cs = json::array();
  ops.push_back({{"type", "Input"}, {"id", "in"}, {"numPorts", n + 1}});
  ops.push_back({{"type", "Demultiplexer"}, {"id", "d"}, {"numPorts", n}});
  // which entry port carries the data: decides the order of arrivals within one call
  size_t data = g.r.below(n + 1);
  map<int, int> ctl;
  size_t k = 1;
  for (size_t i = 0; i <= n; i++)
    if (i == data)
      cs.push_back(conn("in", num("o", i + 1), "d", "i1"));
    else {
      cs.push_back(conn("in", num("o", i + 1), "d", num("c", k++)));
      ctl[(int)i] = (int)data;
    }
  for (size_t i = 1; i <= n; i++)
    if (g.r.chance(0.5)) {
      string id = num("x", i);
      ops.push_back({{"type", g.r.chance(0.5) ? "Count" : "CumulativeSum"}, {"id", id}});
      cs.push_back(conn("d", num("o", i), id, "i1"));
    }
  g.given({{"operators", ops}, {"connections", cs}, {"entryOperator", "in"}}, (int)n + 1, ctl);
}

void variableProgram(Gen& g) {
  g.scale();
  json ops = json::array(), cs = json::array();
  ops.push_back({{"type", "Input"}, {"id", "in"}, {"numPorts", 2}});
  json v = {{"type", "Variable"}, {"id", "v"}};
  if (g.r.chance(0.8)) v["value"] = g.r.chance(0.5) ? json(g.r.range(-5, 5)) : json((double)g.r.range(-40, 40) / 8);
  ops.push_back(v);
  bool sw = g.r.chance(0.5);
  cs.push_back(conn("in", sw ? "o2" : "o1", "v", "i1"));
  cs.push_back(conn("in", sw ? "o1" : "o2", "v", "c1"));
  if (g.r.chance(0.5)) {
    ops.push_back({{"type", "Count"}, {"id", "n"}});
    cs.push_back(conn("v", "o1", "n", "i1"));
  }
  g.given({{"operators", ops}, {"connections", cs}, {"entryOperator", "in"}}, 2);
}

const vector<string> kCompositeTypes = {
    "Add", "AutoRegressive", "Constant", "CosineResampler", "Count", "CumulativeSum", "Difference", "Join", "Division",
    "Minus", "Linear", "EqualTo", "GreaterThan", "LessThan", "HermiteResampler", "Identity", "MovingAverage",
    "FiniteImpulseResponse", "Variable", "PeakDetector", "StandardDeviation", "Demultiplexer", "Power", "Scale",
    "TimeShift"};

json compositeTrace(Gen& g, bool hops) {
  g.world();
  g.c.w.clear();
  for (auto& t : kCompositeTypes) g.c.w[t] = 4;
  g.c.depth = 0;
  g.c.colonIds = false;
  g.c.safeVariables = true;
  g.c.outputOp = true;
  json t;
  for (int tries = 0;; tries++) {
    if (tries > 10) g.c.maxOps = std::min(g.c.maxOps, 6);
    if (tries > 20) g.c.w.erase("Demultiplexer");
    g.progs.clear();
    g.program();
    auto& def = g.progs[0].info.def;
    string out;
    for (auto& o : def["operators"])
      if (o["type"] == "Output") out = o["id"];
    if (out.empty()) continue;
    // only binary operators with two inputs exist in and/or form elsewhere
    bool ok = true;
    for (auto& o : def["operators"])
      if (o["type"] == "And" || o["type"] == "Or") ok = false;
    if (!ok) continue;
    g.h.mode = H_DIRECT;
    if (hops) g.restarts();
    g.h.crashP = 0;
    t = g.run("composite");
    t["exit"] = out;
    if (g.r.chance(0.3)) {  // an option only the native interface has
      for (auto& o : t["progs"][0]["def"]["operators"])
        if (o["type"] == "Difference" && g.r.chance(0.5)) o["useOldestTime"] = g.r.chance(0.5);
    }
    return t;
  }
}

// an operator with too little to work with; what only the published schema excludes: see `published`
json impossible(Rng& r, bool published) {
  json o = {{"id", "@imp"}};
  switch (r.below(published ? 8 : 5)) {
    case 0: o["type"] = "Join", o["numPorts"] = r.below(2); break;
    case 1: o["type"] = "Demultiplexer", o["numPorts"] = 0; break;
    case 2: o["type"] = "Linear", o["coeff"] = r.chance(0.5) ? json::array() : json{2.5}; break;
    case 3:
      o["type"] = "Function", o["points"] = json::array();
      if (r.chance(0.5)) o["points"].push_back({1.0, 2.0});
      break;
    case 4: o["type"] = "ConstantResampler", o["interval"] = 0; break;
    case 5: o["type"] = r.chance(0.5) ? "Input" : "Output", o["numPorts"] = 0; break;
    case 6: o["type"] = "AutoRegressive", o["coeff"] = json::array(); break;
    default: o["type"] = "Function", o["points"] = {{1.0, 2.0}, {2.0}};
  }
  return o;
}

json brokenDef(Rng& r, json def, string& how) {
  auto& ops = def["operators"];
  size_t k = r.below(ops.size());
  switch (r.below(13)) {
    case 0: how = "text"; return def.dump().substr(0, def.dump().size() - 1 - r.below(def.dump().size() - 2));
    case 1: how = "type"; ops[k]["type"] = "NoSuchOperator"; return def;
    case 2: how = "duplicate id"; {
      json o = {{"type", "Identity"}, {"id", ops[k]["id"]}};
      ops.push_back(o);
      return def;
    }
    case 3: how = "unknown operator in connection";
      def["connections"].push_back({{"from", ops[k]["id"]}, {"to", "@missing"}, {"fromPort", "o1"}, {"toPort", "i1"}});
      return def;
    case 4: how = "unknown port in connection";
      def["connections"].push_back({{"from", def["entryOperator"]}, {"to", ops[k]["id"]}, {"fromPort", "o77"}, {"toPort", "i1"}});
      return def;
    case 5: how = "entry operator missing"; def.erase("entryOperator"); return def;
    case 6: how = "entry operator unknown"; def["entryOperator"] = "@missing"; return def;
    case 7: how = "entry operator with control inputs"; {
      ops.push_back({{"type", "Variable"}, {"id", "@ctl"}});
      def["entryOperator"] = "@ctl";
      return def;
    }
    case 8: how = "no operators"; def.erase("operators"); return def;
    case 9: how = "no connections"; def.erase("connections"); return def;
    case 10: how = "missing parameter"; {
      vector<pair<size_t, string>> c;
      for (size_t i = 0; i < ops.size(); i++)
        for (auto p : {"n", "coeff", "points", "interval", "prog"})
          if (ops[i].contains(p)) c.push_back({i, p});
      if (c.empty()) ops.push_back({{"type", "MovingAverage"}, {"id", "@ma"}});
      else {
        auto x = r.pick(c);
        ops[x.first].erase(x.second);
      }
      return def;
    }
    case 11: how = "impossible parameter"; ops.push_back(impossible(r, false)); return def;
    default: how = "operator without id"; ops[k].erase("id"); return def;
  }
}

// what the published schema must reject
json schemaBroken(Rng& r, json def, string& how) {
  auto& ops = def["operators"];
  size_t k = r.below(ops.size());
  switch (r.below(8)) {
    case 7: how = "impossible parameter", ops.push_back(impossible(r, true)); break;
    case 0: how = "type", ops[k]["type"] = "NoSuchOperator"; break;
    case 1: how = "no operators", def.erase("operators"); break;
    case 2: how = "operators is no array", def["operators"] = "none"; break;
    case 3: how = "no id", ops[k].erase("id"); break;
    case 4: how = "id is no string", ops[k]["id"] = 5; break;
    case 5: how = "parameter missing", ops.push_back({{"type", "MovingAverage"}, {"id", "@ma"}}); break;
    default: how = "parameter of the wrong type", ops.push_back({{"type", "MovingAverage"}, {"id", "@ma"}, {"n", "x"}});
  }
  return def;
}

json scenario(const string& P, u64 seed, bool thorough) {
  Gen g(P, seed, thorough);
  Rng& r = g.r;
  auto& c = g.c;
  auto& h = g.h;
  auto& w = g.w;

  if (P == "C01") {
    if (r.chance(0.12)) return compositeTrace(g, true);
    g.world();
    bool text = r.chance(0.12);
    c.textApi = text;
    if (r.chance(0.3)) c.maxOps = 5;
    g.restarts();
    h.debugP = r.chance(0.2) ? 0.5 : 1;
    int n = r.chance(0.2) ? 2 : 1;
    for (int i = 0; i < n; i++) g.program();
    json t = g.run("restart");
    t["text"] = text;
    t["iso"] = r.chance(0.1);
    return t;
  }
  if (P == "C02") {
    g.world();
    h.snapP = r.chance(0.5) ? 0.1 : 0.5;
    bool text = r.chance(0.1);
    c.textApi = text;
    g.program();
    if (r.chance(0.15)) g.program();
    json t = g.run("snapshots");
    t["text"] = text;
    if (r.chance(0.2)) t["indent"] = 1;
    return t;
  }
  if (P == "C03") {
    g.world();
    pickTimeScale(r, w.spacing, w.base, true);
    w.link.dup = r.chance(0.7) ? 0.3 : 0;
    w.link.delay = r.chance(0.7) ? r.range(500, 9000) : 0;
    w.link.fifo = r.chance(0.3);
    w.link.skew = r.chance(0.5) ? 0.3 : 0;
    w.link.loss = r.chance(0.3) ? 0.2 : 0;
    w.aligned = r.chance(0.5);
    w.ticks = std::min(w.ticks, 120);
    g.fit();
    c.depth = r.chance(0.2) ? 1 : 0;
    c.w["Input"] = 4;
    if ((double)w.base > 1e18) c.w.erase("TimeShift"), c.w.erase("Pipeline"), c.w.erase("ConstantResampler"), c.w.erase("CosineResampler"), c.w.erase("HermiteResampler");
    c.minOps = 1, c.maxOps = 4, c.maxPorts = r.chance(0.3) ? 12 : 4, c.wideP = 0.1;
    if (r.chance(0.6)) g.restarts();
    if (r.chance(0.2)) h.snapP = 0.1;
    g.program();
    json t = g.run("gate");
    t["text"] = false;
    t["iso"] = r.chance(0.03);
    return t;
  }
  if (P == "C04") {
    g.world();
    h.mode = r.chance(0.8) ? H_BATCH : H_MIXED;
    h.flushEvery = r.pick(vector<u64>{1500, 5000, 20000, 100000});
    if (r.chance(0.3)) g.restarts(0.3);
    if (r.chance(0.3)) h.snapP = 0.1;
    bool text = r.chance(0.25);
    c.textApi = text;
    c.maxPorts = 4;
    g.program();
    json t = g.run("batches");
    t["text"] = text;
    return t;
  }
  if (P == "C05") {
    g.world();
    h.debugP = 0.5;
    if (r.chance(0.3)) g.restarts(0.3);
    bool text = r.chance(0.2);
    c.textApi = text;
    g.program();
    auto& def = g.progs[0].info.def;
    if (!def.contains("output") || r.chance(0.4)) {  // a random selection
      json sel = json::object();
      int n = (int)r.range(0, 4);
      for (int i = 0; i < n; i++) {
        auto& o = def["operators"][r.below(def["operators"].size())];
        json ps = json::array();
        for (auto& p : portsOf(o).out)
          if (r.chance(0.6)) ps.push_back(p);
        if (r.chance(0.1)) ps.push_back("o99");
        if (!ps.empty() && r.chance(0.1)) ps.push_back(ps[r.below(ps.size())]);  // listed twice
        sel[o["id"].get<string>()] = ps;
      }
      if (r.chance(0.1)) sel["@nobody"] = {"o1"};
      def["output"] = sel;
    }
    json t = g.run("selection");
    t["text"] = text;
    return t;
  }
  if (P == "C06" || P == "C07") {
    g.world();
    map<string, int> wt;
    if (P == "C06")
      for (auto t : {"Join", "Plus", "Minus", "Multiplication", "Linear", "And", "Or"}) wt[t] = t == string("Join") ? 8 : 3;
    else
      for (auto t : {"Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream", "LessThanStream", "Linear"}) wt[t] = t == string("Linear") ? 8 : 4;
    c.depth = 0;
    c.outputOp = r.chance(0.3);
    c.minPorts = 2, c.maxPorts = r.chance(0.2) ? 8 : 4;
    c.wideP = 0.12;
    bool direct = r.chance(0.6);
    c.directSources = direct;
    if (!direct) {
      for (auto t : {"Identity", "GreaterThan", "LessThan", "MovingAverage", "TimeShift", "PeakDetector", "Join", "ConstantResampler"}) wt[t] = 2;
      if (P == "C07") wt["Plus"] = wt["Division"] = 6;
    }
    only(c, wt);
    c.minOps = 1, c.maxOps = direct ? 4 : 9;
    w.sampleP = r.chance(0.3) ? 1 : 0.4 + 0.6 * r.unit();
    w.aligned = r.chance(0.9);
    w.perPortLinks = r.chance(0.7);
    if (r.chance(0.5)) w.partitionP = 0.1;
    if (r.chance(0.5)) g.restarts(0.5);
    g.fit();
    g.program();
    json t = g.run(direct ? "direct" : "dag");
    t["alt"] = P == "C06" && direct;
    return t;
  }
  if (P == "C08") {
    g.world();
    int kind = (int)r.below(10);
    if (r.chance(0.6)) g.restarts(0.5);
    if (kind < 6) {
      w.link.skew = 0;
      w.sampleP = r.chance(0.4) ? 1 : 0.3 + 0.6 * r.unit();
      w.perPortLinks = r.chance(0.6);
      demuxProgram(g);
      return g.run("external");
    }
    if (kind < 8) {
      c.depth = 0;
      only(c, {{"Demultiplexer", 8}, {"Identity", 1}, {"GreaterThan", 2}, {"Add", 1}, {"Join", 1}, {"MovingAverage", 1}, {"Difference", 1}, {"Count", 1}});
      c.minPorts = 1, c.maxPorts = 2;
      g.program();
      return g.run("derived");
    }
    // conflicting instructions
    w.link = Link();
    w.ticks = std::min(w.ticks, 60);
    h.mode = H_DIRECT;
    demuxProgram(g);
    json t = g.run("conflict");
    auto& steps = t["steps"];
    auto& ctl = g.progs[0].info.controlOf;
    double p = 0.5 / (1 + (double)steps.size() * r.unit());
    json out = json::array();
    for (auto& s : steps) {
      if (s["op"] == "call")
        for (auto& [port, v] : s["m"].items()) {
          int i = std::stoi(port.substr(1)) - 1;
          if (!ctl.count(i)) continue;
          if (r.chance(p)) v[0][1] = r.pick(vector<double>{2, -1, 0.5, 1e-9, 0.999999, 1.5});
          else if (r.chance(p)) v = json();  // the instruction is missing
        }
      if (s["op"] == "call" && s["m"].begin().value().is_null()) continue;
      out.push_back(s);
    }
    t["steps"] = out;
    return t;
  }
  if (P == "C09") {
    g.world();
    if (r.chance(0.6)) g.restarts(0.5);
    if (r.chance(0.7)) {
      w.aligned = r.chance(0.5);
      w.jitter = r.chance(0.7);
      w.sampleP = r.chance(0.4) ? 1 : 0.2 + 0.7 * r.unit();
      w.perPortLinks = r.chance(0.8);
      if (r.chance(0.5)) w.partitionP = 0.15;
      variableProgram(g);
      return g.run("external");
    }
    c.depth = 0;
    only(c, {{"Variable", 8}, {"Identity", 1}, {"GreaterThan", 2}, {"Add", 1}, {"Join", 1}, {"MovingAverage", 1}, {"TimeShift", 2}, {"Count", 1}});
    g.program();
    return g.run("derived");
  }
  if (P == "C10" || P == "C11") {
    g.world();
    map<string, int> wt;
    bool win = P == "C10";
    vector<string> core = win ? vector<string>{"MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "PeakDetector", "Difference", "RelativeStrengthIndex", "AutoRegressive", "CumulativeSum", "Count"}
                              : vector<string>{"ConstantResampler", "CosineResampler", "HermiteResampler"};
    for (auto& t : core) wt[t] = win ? 4 : 8;
    for (auto t : {"Identity", "GreaterThan", "LessThan", "Scale", "Join", "TimeShift", "Minus"}) wt[t] = 1;
    if (win) wt["ConstantResampler"] = 1;
    only(c, wt);
    c.depth = 0;
    c.minOps = 1, c.maxOps = 6;
    c.maxPorts = 2;
    c.bigWindow = true;
    c.outputOp = r.chance(0.3);
    if (r.chance(0.5)) w.gapP = 0.1;
    if (r.chance(0.3)) w.ticks = (int)r.range(40, 200);
    if (r.chance(0.6)) g.restarts(0.5);
    g.fit();
    if (win && r.chance(0.04)) {
      g.progs.clear();
      json t = compositeTrace(g, true);
      return t;
    }
    g.program();
    return g.run(win ? "windows" : "grid");
  }
  if (P == "C31") {
    g.world();
    static const map<string, int> wt = {{"Identity", 3}, {"Scale", 4}, {"Add", 4}, {"Constant", 3}, {"Power", 4}, {"GreaterThan", 6}, {"LessThan", 6}, {"EqualTo", 6}, {"Function", 8}, {"TimeShift", 3}};
    auto types = wt;
    if (r.chance(0.2)) types["Pipeline"] = 4;
    if (r.chance(0.2)) types["Difference"] = 2, types["Join"] = 2;
    only(c, types);
    c.depth = 2, c.minOps = 1, c.maxOps = 12, c.maxPorts = 2;
    c.directSources = r.chance(0.3);
    if (r.chance(0.3)) w.valueKind = 10;
    g.fit();
    c.edges = w.valueKind;
    if (r.chance(0.3)) g.restarts(0.3);
    bool text = r.chance(0.15);
    c.textApi = text;
    g.program();
    json t = g.run("pointwise");
    t["text"] = text;
    return t;
  }
  if (P == "C12") {
    g.world();
    c.maxOps = r.chance(0.2) ? 25 : 10;
    if (r.chance(0.2)) g.restarts(0.2);
    g.program();
    return g.run("dag");
  }
  if (P == "C13") {
    if (r.chance(0.2)) return compositeTrace(g, r.chance(0.3));
    g.world();
    c.w["Pipeline"] = 60;
    c.safeVariables = true;
    c.depth = r.chance(0.4) ? 3 : 2;
    if (r.chance(0.25)) g.restarts(0.3);
    for (int i = 0; i < 20; i++) {
      g.progs.clear();
      g.program();
      bool has = false;
      for (auto& o : g.progs[0].info.def["operators"])
        if (o["type"] == "Pipeline") has = true;
      if (has) break;
    }
    return g.run("inline");
  }
  if (P == "C14") {
    g.world();
    w.ticks = std::min(w.ticks, 40);
    int n = g.big == S_PROGS ? (int)r.range(17, 70) : (int)r.range(2, 4);
    bool text = r.chance(0.25);
    c.textApi = text;
    c.maxOps = 6;
    if (r.chance(0.3)) c.w["Pipeline"] *= 4;
    h.snapP = 0.1;
    g.restarts(0.3);
    for (int i = 0; i < n; i++) {
      if (i && r.chance(0.4)) {
        ProgRun p = g.progs[r.below(g.progs.size())];  // the same definition again, or one with the same names
        if (r.chance(0.5)) reconfigure(r, p.info.def, 0.6);
        g.progs.push_back(p);
      } else
        g.program();
    }
    json t = g.run("neighbours");
    if (r.chance(0.3))  // ids that contain each other
      for (int i = 0; i < n; i++) t["progs"][i]["id"] = string((size_t)i + 1, 'p');
    t["text"] = text;
    json out = json::array();
    for (auto& s : t["steps"]) {
      double q = 0.06;
      if (r.chance(q)) {  // a neighbour appears, fails, disappears
        string how;
        json d = r.chance(0.5) ? brokenDef(r, g.progs[0].info.def, how) : g.progs[r.below(g.progs.size())].info.def;
        out.push_back({{"op", "create"}, {"p", -1}, {"id", num("n", r.below(3))}, {"def", d}});
      }
      if (r.chance(q)) out.push_back({{"op", "del"}, {"p", -1}, {"id", num("n", r.below(3))}});
      if (r.chance(q)) {
        json m = s.contains("m") ? s["m"] : json{{"i1", {{w.base + 5, 1.0}}}};
        out.push_back({{"op", "call"}, {"p", -1}, {"id", num("n", r.below(3))}, {"m", m}});
      }
      if (r.chance(q)) out.push_back({{"op", "buf"}, {"p", -1}, {"id", num("n", r.below(3))}, {"port", r.chance(0.5) ? "i1" : "zz"}, {"t", w.base + r.below(40)}, {"v", 1.0}});
      if (r.chance(q)) out.push_back({{"op", "flush"}, {"p", -1}, {"id", num("n", r.below(3))}});
      if (r.chance(q / 2)) {  // an interesting program fails
        out.push_back({{"op", "call"}, {"p", r.below(n)}, {"m", {{"zz", {{5, 1.0}}}}}});
      }
      if (r.chance(q / 2)) {  // or starts over
        size_t p = r.below(n);
        out.push_back({{"op", "del"}, {"p", p}});
        out.push_back({{"op", "create"}, {"p", p}});
      }
      out.push_back(s);
    }
    t["steps"] = out;
    return t;
  }
  if (P == "C15") {
    g.world();
    w.ticks = std::min(w.ticks, 30);
    c.maxOps = 4;
    bool text = r.chance(0.25);
    c.textApi = text;
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; i++) g.program();
    json t = g.run("lifecycle");
    t["text"] = text;
    t["defs"] = json::array();
    for (int i = 0; i < n; i++) t["defs"].push_back({{"def", g.progs[i].info.def}});
    for (int i = 0; i < 3; i++) {
      string how;
      json d = brokenDef(r, g.progs[r.below(n)].info.def, how);
      t["defs"].push_back({{"def", d}, {"bad", how}});
    }
    t["progs"] = json::array();
    // the messages were simulated per program; ids are assigned to definitions freely
    json msgs = t["steps"], out = json::array();
    vector<string> ids = {"a", "b", "ab"};
    if (r.chance(0.3)) ids = {"", "a", "é \""};
    if (g.big == S_IDS) ids.push_back(string(r.range(200, 3000), 'a')), ids.push_back(ids.back() + "a");
    if (g.big == S_PROGS)
      for (int i = 0; i < 70; i++) {
        ids.push_back(num("p", i));
        for (int k = 0; k < 6; k++) t["steps"].insert(t["steps"].begin() + r.below(t["steps"].size() + 1), json{{"op", "none"}});
      }
    int slots = 3;
    double q = r.chance(0.5) ? 0.15 : 0.4;
    auto id = [&] { return ids[r.chance(g.big == S_PROGS ? 0.1 : 0.6) ? 0 : r.below(ids.size())]; };
    out.push_back({{"op", "create"}, {"id", id()}, {"d", r.below(n)}});
    if (g.big == S_PROGS)
      for (auto& i : ids)
        if (r.chance(0.9)) out.push_back({{"op", "create"}, {"id", i}, {"d", r.below(n)}});
    for (auto& s : msgs) {
      while (r.chance(q)) switch (r.below(9)) {
          case 0:
          case 1: out.push_back({{"op", "create"}, {"id", id()}, {"d", r.below(n)}}); break;
          case 2: out.push_back({{"op", "create"}, {"id", id()}, {"d", n + r.below(3)}}); break;
          case 3: out.push_back({{"op", "createb"}, {"id", id()}, {"slot", r.below(slots)}}); break;
          case 4: out.push_back({{"op", "del"}, {"id", id()}}); break;
          case 5: out.push_back({{"op", "snap"}, {"id", id()}, {"slot", r.below(slots)}}); break;
          case 6: out.push_back({{"op", "flush"}, {"id", id()}, {"dbg", r.chance(0.8)}}); break;
          case 7: out.push_back({{"op", "buf"}, {"id", id()}, {"port", "i1"}, {"t", w.base + r.below(1000)}, {"v", 2.0}}); break;
          default: out.push_back({{"op", "query"}, {"id", id()}});
        }
      if (s["op"] == "call" || s["op"] == "buf" || s["op"] == "flush") {
        json x = s;
        x.erase("p");
        x["id"] = id();
        out.push_back(x);
      }
    }
    t["steps"] = out;
    return t;
  }
  if (P == "C16") {
    g.world();
    w.ticks = std::min(w.ticks, 60);
    h.mode = H_BUFFER;
    h.flushEvery = r.pick(vector<u64>{1500, 5000, 20000});
    bool text = r.chance(0.25);
    c.textApi = text;
    c.maxPorts = 4;
    c.maxOps = 6;
    int n = r.chance(0.4) ? 2 : 1;
    bool conflict = !text && r.chance(0.3);
    for (int i = 0; i < n; i++) {
      if (conflict && i == 0) {
        w.link.skew = 0;
        demuxProgram(g);
      } else
        g.program();
    }
    if (r.chance(0.4)) g.restarts(0.3);
    json t = g.run("buffer");
    t["text"] = text;
    json out = json::array();
    double q = r.pick(vector<double>{0.01, 0.05, 0.15});
    if (g.big == S_BATCH) q /= (double)t["steps"].size();
    for (auto& s : t["steps"]) {
      size_t p = r.below(n);
      if (r.chance(q)) out.push_back({{"op", "buf"}, {"p", p}, {"port", r.pick(vector<string>{"zz", "a", "i0", "i2x", ""})}, {"t", w.base + 7}, {"v", 1.0}});
      if (r.chance(q)) out.push_back({{"op", "flush"}, {"p", p}, {"dbg", r.chance(0.5)}});
      if (r.chance(q / 2)) out.push_back({{"op", "call"}, {"p", p}, {"m", json::object()}, {"dbg", true}});
      if (r.chance(q / 2) && s["op"] == "buf") {  // a direct call while messages are waiting
        out.push_back({{"op", "call"}, {"p", s["p"]}, {"m", {{s["port"].get<string>(), {{s["t"], s["v"]}}}}}, {"dbg", true}});
      }
      if (r.chance(q / 3)) {
        out.push_back({{"op", "del"}, {"p", p}});
        out.push_back({{"op", "create"}, {"p", p}});
      }
      if (conflict && s["op"] == "buf" && s["p"] == 0 && r.chance(q)) {
        json x = s;
        x["v"] = 0.5;
        out.push_back(x);
        continue;
      }
      out.push_back(s);
    }
    t["steps"] = out;
    return t;
  }
  if (P == "C17") {
    g.world();
    w.ticks = std::min(w.ticks, 80);
    bool text = r.chance(0.15);
    c.textApi = text;
    if (h.mode == H_BUFFER || h.mode == H_MIXED) h.mode = H_BATCH;
    g.program();
    json t = g.run("redelivery");
    t["text"] = text;
    json out = json::array();
    double sp = r.pick(vector<double>{0.02, 0.1, 0.3}), cp = r.pick(vector<double>{0.02, 0.05, 0.15});
    int slots = (int)r.range(1, 4);
    vector<size_t> taken;
    auto snap = [&] {
      taken.push_back(r.below(slots));
      out.push_back({{"op", "snap"}, {"p", 0}, {"slot", taken.back()}});
    };
    size_t first = r.below(t["steps"].size() + 1) / 2, i = 0;  // the latest moment of the first snapshot
    for (auto& s : t["steps"]) {
      if (r.chance(sp) || (taken.empty() && i++ >= first)) snap();
      if (!taken.empty() && r.chance(cp)) out.push_back({{"op", "recover"}, {"p", 0}, {"slot", r.pick(taken)}, {"back", r.chance(0.3) ? 0 : r.below(12)}, {"process", r.chance(0.5)}});
      out.push_back(s);
    }
    if (taken.empty()) snap();
    out.push_back({{"op", "recover"}, {"p", 0}, {"slot", r.pick(taken)}, {"back", r.below(5)}, {"process", r.chance(0.5)}});
    t["steps"] = out;
    return t;
  }
  if (P == "C18") {
    g.world();
    if (r.chance(0.25)) {
      c.depth = 0;
      c.clampShift = true;
      only(c, {{"TimeShift", 10}, {"Identity", 2}, {"Scale", 1}, {"MovingAverage", 1}, {"GreaterThan", 1}});
      w.base = r.pick(vector<u64>{0, 1, 5, (u64)(10 * w.spacing)});
      w.ticks = std::min(w.ticks, 60);
      g.fit();
      g.program();
      return g.run("clamp");
    }
    c.w["TimeShift"] = 10;
    if (r.chance(0.4)) g.restarts(0.4);
    g.program();
    return g.run("order");
  }
  if (P == "C19") {
    g.world();
    w.ticks = std::min(w.ticks, 30);
    c.maxOps = 6;
    if (h.mode == H_MIXED) h.mode = H_DIRECT;
    h.mode = r.chance(0.4) ? H_BUFFER : r.chance(0.5) ? H_BATCH : H_DIRECT;
    g.program();
    if (r.chance(0.4)) g.program();
    json t = g.run("memory");
    json out = json::array();
    double q = r.pick(vector<double>{0.03, 0.1, 0.3});
    int n = (int)g.progs.size();
    for (int p = 0; p < n; p++) out.push_back({{"op", "snap"}, {"p", p}, {"slot", p}});
    auto k = [&] { return r.chance(0.5) ? 1 + r.below(6) : r.chance(0.7) ? 1 + r.below(60) : 1 + r.below(2000); };
    for (auto s : t["steps"]) {
      if (r.chance(q / 2)) {
        size_t p = r.below(n);
        out.push_back({{"op", "snap"}, {"p", p}, {"slot", p}});
      }
      if (r.chance(q)) out.push_back({{"op", "snap"}, {"p", r.below(n)}, {"oom", k()}});
      if (r.chance(q)) s["oom"] = k();
      out.push_back(s);
    }
    if (r.chance(0.6)) out.push_back({{"op", "sweep"}, {"p", r.below(n)}});
    t["steps"] = out;
    return t;
  }
  if (P == "C20") {
    g.world();
    c.maxOps = r.chance(0.3) ? 20 : 10;
    g.program();
    json t = g.run("export");
    t["restartAt"] = r.below(t["steps"].size() + 1);
    return t;
  }
  if (P == "C21") {
    pickTimeScale(r, w.spacing, w.base);
    w.ticks = thorough ? 9000 : 2400;
    w.jitter = r.chance(0.3);
    w.valueKind = (int)r.below(7);
    w.link.dup = r.chance(0.3) ? 0.05 : 0;
    if (r.chance(0.2)) h.mode = H_BATCH, h.flushEvery = 3000;
    g.fit();
    c.aligned = true;
    c.maxOps = 6;
    c.depth = 1;
    c.maxWindow = 5;
    c.wideP = 0;
    g.progs.clear();
    g.program();
    h.debugP = 0;
    json t = g.run("bounded");
    return t;
  }
  if (P == "C22") {
    g.world();
    c.textApi = true;
    h.debugP = 0.5;
    if (r.chance(0.2)) pickTimeScale(r, w.spacing, w.base, true), g.fit();
    if ((double)w.base > 1e18) c.w.erase("TimeShift"), c.w.erase("ConstantResampler"), c.w.erase("CosineResampler"), c.w.erase("HermiteResampler");
    if (r.chance(0.3)) g.restarts(0.3);
    g.program();
    if (r.chance(0.2)) g.program();
    json t = g.run("text");
    t["text"] = true;
    if (r.chance(0.3)) t["indent"] = r.range(0, 4);
    json out = json::array();
    for (auto& s : t["steps"]) {
      if (r.chance(0.05)) {
        string how;
        json d = schemaBroken(r, g.progs[0].info.def, how);
        out.push_back({{"op", "create"}, {"p", -1}, {"id", "bad"}, {"def", d}, {"bad", how}});
      }
      if (r.chance(0.05)) out.push_back({{"op", "query"}, {"p", r.below(g.progs.size())}});
      out.push_back(s);
    }
    t["steps"] = out;
    return t;
  }
  throw std::logic_error("no scenario for " + P);
}

}  // namespace

// how the calls of the text interface are made
static void textCalls(const string& P, json& t, u64 seed) {
  if (!t.value("text", false)) return;
  Rng r(mix64(seed ^ 0x7e87));
  if (r.chance(0.5)) t["via"] = r.range(1, 2);
  double mix = r.chance(0.5) ? 0.5 : 0, map = P == "C22" && r.chance(0.5) ? 0.5 : 0, uneven = P == "C22" && r.chance(0.3) ? 0.1 : 0;
  json out = json::array();
  for (auto& s : t["steps"]) {
    if (s["op"] == "call" && s.contains("m") && s["m"].size() > 1 && r.chance(mix)) s["mix"] = true;
    if (s["op"] == "call" && r.chance(map)) s["map"] = true;
    if (s["op"] == "call" && s.value("p", 0) >= 0 && r.chance(uneven)) {
      json u = s;
      u["op"] = "uneven";
      out.push_back(u);
    }
    out.push_back(s);
  }
  t["steps"] = out;
}

// a history of another property, with more that fails, as one round of many
static json rounds(u64 seed, bool thorough) {
  Rng r(mix64(seed ^ 0x30));
  if (r.chance(0.1)) {
    for (int i = 0;; i++) {
      json t = generate(r.chance(0.5) ? "C01" : "C13", mix64(seed + i), thorough);
      if (t.value("scenario", "") != "composite") continue;
      t["property"] = "C30";
      return t;
    }
  }
  string of = r.pick(vector<string>{"C01", "C02", "C04", "C05", "C14", "C14", "C16", "C19", "C22"});
  json t = generate(of, seed, thorough);
  while (t.value("scenario", "") == "composite" || !t.contains("progs") || t["progs"].empty() || t["steps"].size() > 3000)
    t = generate(of, seed = mix64(seed), thorough);
  static const std::set<string> known = {"call", "uneven", "buf", "flush", "create", "createb", "del", "snap", "query", "resnap", "hop", "crash", "restore"};
  // not where JSON is handled: nlohmann's destructors allocate, and terminate when they cannot
  static const std::set<string> mayFail = {"call", "buf", "flush", "snap"};
  json out = json::array(), last;
  int n = (int)t["progs"].size();
  double q = r.pick(vector<double>{0, 0.05, 0.2}), oom = t.value("text", false) ? 0 : r.pick(vector<double>{0, 0.05, 0.2});
  auto note = [&](const json& s) {  // times near those of the streams: a resampler fills every gap
    if (s["op"] == "call") last = s["m"];
    if (s["op"] == "buf") last = {{s["port"].get<string>(), {{s["t"], s["v"]}}}};
  };
  for (auto& s : t["steps"])
    if (last.is_null() || last.empty()) note(s);
  if (last.is_null() || last.empty()) last = {{"i1", {{5, 1.0}}}};
  auto near = [&]() -> json { return last.begin().value().empty() ? json(5) : last.begin().value()[0][0]; };
  auto other = [&] { return "n" + std::to_string(r.below(3)); };
  for (json s : t["steps"]) {
    if (!known.count(s["op"])) continue;
    s.erase("bad");
    if (!s.contains("m") || !s["m"].empty()) note(s);
    while (r.chance(q)) {
      json def = t["progs"][r.below(n)]["def"];
      string how;
      if (r.chance(0.6) && def.is_object()) def = r.chance(0.5) ? brokenDef(r, def, how) : schemaBroken(r, def, how);
      size_t p = r.below(n);
      switch (r.below(9)) {
        case 0: out.push_back({{"op", "create"}, {"p", -1}, {"id", other()}, {"def", def}}); break;
        case 1: out.push_back({{"op", "create"}, {"p", p}}); break;
        case 2: out.push_back({{"op", "buf"}, {"p", -1}, {"id", other()}, {"port", r.chance(0.5) ? "i1" : "zz"}, {"t", near()}, {"v", 1.0}}); break;
        case 3: out.push_back({{"op", "buf"}, {"p", p}, {"port", r.chance(0.5) ? "i1" : "zz"}, {"t", near()}, {"v", 1.0}}); break;
        case 4: out.push_back({{"op", "del"}, {"p", p}}); break;
        case 5: out.push_back({{"op", "snap"}, {"p", p}, {"slot", "x"}}); break;
        case 6: out.push_back({{"op", "createb"}, {"p", -1}, {"id", other()}, {"slot", "x"}}); break;
        case 7: out.push_back({{"op", "call"}, {"p", -1}, {"id", other()}, {"m", last}}); break;
        default: out.push_back({{"op", "createb"}, {"p", p}, {"slot", "x"}});
      }
      if (r.chance(oom) && mayFail.count(out.back()["op"]) && out.back()["op"] != "call") out.back()["oom"] = 1 + r.below(r.chance(0.5) ? 20 : 500);
    }
    if (r.chance(oom) && mayFail.count(s["op"])) s["oom"] = 1 + r.below(r.chance(0.5) ? 20 : 500);
    out.push_back(s);
    if (s.contains("oom") && (s["op"] == "call" || s["op"] == "flush")) {
      // processing cut short: the program is not used any further
      int p = s.value("p", 0);
      json del = {{"op", "del"}, {"p", p}};
      if (s.contains("id")) del["id"] = s["id"];
      out.push_back(del);
      if (p >= 0) out.push_back({{"op", "create"}, {"p", p}});
    }
  }
  t["steps"] = out, t["property"] = "C30", t["renew"] = r.chance(0.5);
  return t;
}

json generate(const string& P, u64 seed, bool thorough) {
  if (P == "C30") return rounds(seed, thorough);
  if (P == "C29") {
    Rng r(mix64(seed ^ 0x29));
    string of = "C" + std::to_string(101 + r.below(22)).substr(1);
    if (of == "C21" && !r.chance(0.05)) of = "C19";
    json t = generate(of, seed, thorough);
    t["property"] = P, t["of"] = of;
    return t;
  }
  for (;; seed = mix64(seed)) try {
      json t = scenario(P, seed, thorough);
      textCalls(P, t, seed);
      return t;
    } catch (const Rng::Exhausted&) {  // too large a run was drawn
    }
}
