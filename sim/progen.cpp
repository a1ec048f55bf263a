#include "progen.h"

#include <cmath>
#include <set>

#include "world.h"

const vector<string> kSimpleTypes = {"Identity", "Scale", "Add", "Constant", "Power", "GreaterThan", "LessThan",
                                     "EqualTo", "Count", "CumulativeSum", "MovingAverage", "StandardDeviation",
                                     "FiniteImpulseResponse", "PeakDetector", "Difference", "RelativeStrengthIndex",
                                     "AutoRegressive", "TimeShift", "Function", "ConstantResampler", "CosineResampler",
                                     "HermiteResampler"};
const vector<string> kJoinTypes = {"Join", "Plus", "Minus", "Multiplication", "Division", "And", "Or",
                                   "GreaterThanStream", "LessThanStream", "Linear"};
const vector<string> kAllTypes = [] {
  vector<string> v = kSimpleTypes;
  v.insert(v.end(), kJoinTypes.begin(), kJoinTypes.end());
  for (auto s : {"Demultiplexer", "Variable", "Input", "Output"}) v.push_back(s);
  return v;
}();

GenCfg cfgAll() {
  GenCfg c;
  for (auto& t : kAllTypes) c.w[t] = 4;
  c.w["Input"] = c.w["Output"] = 1;
  c.w["Pipeline"] = 4;
  c.depth = 2;
  return c;
}

static string num(const string& p, size_t i) { return p + std::to_string(i); }

Ports portsOf(const json& op) {
  Ports p;
  string t = op.at("type");
  auto fill = [](vector<string>& v, const string& pre, size_t n) {
    for (size_t i = 1; i <= n; i++) v.push_back(num(pre, i));
  };
  if (t == "Input" || t == "Output") {
    size_t n = op.value("numPorts", 1);
    fill(p.in, "i", n), fill(p.out, "o", n);
  } else if (t == "Join") {
    size_t n = op.value("numPorts", 2);
    fill(p.in, "i", n), fill(p.out, "o", n);
  } else if (t == "Demultiplexer") {
    size_t n = op.value("numPorts", 1);
    fill(p.in, "i", 1), fill(p.ctrl, "c", n), fill(p.out, "o", n);
  } else if (t == "Variable") {
    fill(p.in, "i", 1), fill(p.ctrl, "c", 1), fill(p.out, "o", 1);
  } else if (t == "Linear") {
    fill(p.in, "i", op.at("coeff").size()), fill(p.out, "o", 1);
  } else if (t == "Pipeline") {
    map<string, pair<string, string>> i, o;
    pipelinePorts(op.at("prog"), i, o);
    fill(p.in, "i", i.size()), fill(p.out, "o", o.size());
  } else if (t == "Plus" || t == "Minus" || t == "Multiplication" || t == "Division" || t == "And" || t == "Or" ||
             t == "GreaterThanStream" || t == "LessThanStream") {
    fill(p.in, "i", 2), fill(p.out, "o", 1);
  } else {
    fill(p.in, "i", 1), fill(p.out, "o", 1);
  }
  return p;
}

vector<Conn> connsOf(const json& prog) {
  map<string, Ports> pm;
  for (auto& o : prog.at("operators")) pm[o.at("id")] = portsOf(o);
  vector<Conn> v;
  for (auto& c : prog.at("connections")) {
    Conn k{c.at("from"), c.value("fromPort", ""), c.at("to"), c.value("toPort", "")};
    if (k.fromPort.empty() && pm[k.from].out.size() == 1) k.fromPort = pm[k.from].out[0];
    if (k.toPort.empty() && pm[k.to].in.size() == 1) k.toPort = pm[k.to].in[0];
    v.push_back(k);
  }
  return v;
}

void pipelinePorts(const json& prog, map<string, pair<string, string>>& ins, map<string, pair<string, string>>& outs) {
  set<string> usedIn, usedOut;
  for (auto& c : connsOf(prog)) usedIn.insert(c.to + ":" + c.toPort), usedOut.insert(c.from + ":" + c.fromPort);
  map<string, pair<string, string>> i, o;  // ordered by "id:port"
  for (auto& op : prog.at("operators")) {
    Ports p = portsOf(op);
    string id = op.at("id");
    for (auto& x : p.in)
      if (!usedIn.count(id + ":" + x)) i[id + ":" + x] = {id, x};
    for (auto& x : p.out)
      if (!usedOut.count(id + ":" + x)) o[id + ":" + x] = {id, x};
  }
  int n = 0;
  for (auto& [k, v] : i) ins[num("i", ++n)] = v;
  n = 0;
  for (auto& [k, v] : o) outs[num("o", ++n)] = v;
}

json flatten(const json& def, map<string, string>* boundary) {
  json out = def;
  out["operators"] = json::array();
  out["connections"] = json::array();
  map<string, map<string, pair<string, string>>> ins, outs;
  map<string, vector<Conn>> inner;
  for (auto& op : def.at("operators")) {
    if (op.at("type") != "Pipeline") {
      out["operators"].push_back(op);
      continue;
    }
    string id = op.at("id");
    pipelinePorts(op.at("prog"), ins[id], outs[id]);
    map<string, string> sub;
    json f = flatten(op.at("prog"), &sub);
    auto resolve = [&](pair<string, string>& p) {
      auto it = sub.find(p.first + ":" + p.second);
      if (it != sub.end()) {
        auto k = it->second.rfind(':');
        p = {it->second.substr(0, k), it->second.substr(k + 1)};
      }
    };
    // inputs of a nested pipeline resolve through its own inputs
    for (auto& [k, p] : ins[id]) {
      auto it = sub.find(p.first + ":" + p.second);
      if (it != sub.end()) resolve(p);
    }
    for (auto& [k, p] : outs[id]) resolve(p);
    for (auto& [k, p] : ins[id]) p.first = id + "/" + p.first;
    for (auto& [k, p] : outs[id]) {
      p.first = id + "/" + p.first;
      if (boundary) (*boundary)[id + ":" + k] = p.first + ":" + p.second;
    }
    if (boundary)
      for (auto& [k, p] : ins[id]) (*boundary)[id + ":" + k] = p.first + ":" + p.second;
    for (auto o2 : f["operators"]) {
      o2["id"] = id + "/" + o2["id"].get<string>();
      out["operators"].push_back(o2);
    }
    for (auto& c : connsOf(f)) inner[id].push_back({id + "/" + c.from, c.fromPort, id + "/" + c.to, c.toPort});
  }
  auto add = [&](const Conn& c) {
    out["connections"].push_back({{"from", c.from}, {"fromPort", c.fromPort}, {"to", c.to}, {"toPort", c.toPort}});
  };
  for (auto c : connsOf(def)) {
    if (outs.count(c.from)) {
      auto p = outs[c.from].at(c.fromPort);
      c.from = p.first, c.fromPort = p.second;
    }
    if (ins.count(c.to)) {
      auto p = ins[c.to].at(c.toPort);
      c.to = p.first, c.toPort = p.second;
    }
    add(c);
  }
  for (auto& [id, v] : inner)
    for (auto& c : v) add(c);
  return out;
}

namespace {

struct Builder {
  Rng& r;
  const GenCfg& cfg;
  int depth;
  bool inPipeline;
  json ops = json::array(), conns = json::array();
  vector<Stream> streams;
  set<string> ids;
  int idStyle;
  int nextCls = 1000;
  int opCount = 0, pipelineTries = 0;
  map<string, int> wt;

  Builder(Rng& r, const GenCfg& cfg, int depth, bool inPipeline) : r(r), cfg(cfg), depth(depth), inPipeline(inPipeline) {
    idStyle = cfg.longIds && r.chance(0.8) ? 6 : (int)r.below(6);
    wt = cfg.w;
    if (depth <= 0) wt.erase("Pipeline");
    if (cfg.textApi) wt.erase("Pipeline"), wt.erase("RelativeStrengthIndex");
    // swarm: every program leaves out some operator types
    if (r.chance(0.5))
      for (auto it = wt.begin(); it != wt.end();)
        if (wt.size() > 2 && r.chance(0.35))
          it = wt.erase(it);
        else
          ++it;
  }

  string newId() {
    for (int tries = 0;; tries++) {
      string s;
      switch (tries < 20 ? idStyle : 0) {
        case 0: s = "op" + std::to_string(ids.size() + (tries > 20 ? tries : 0)); break;
        case 1: s = std::to_string(r.below(40)); break;
        case 2: s = string(1, 'a' + r.below(26)) + std::to_string(r.below(12)); break;
        case 3: {
          static const vector<string> w = {"sensor", "avg", "A", "B", "i1", "o1", "out", "x_y", "n-1", "c1", "Z"};
          s = r.pick(w) + (r.chance(0.6) ? std::to_string(r.below(30)) : "");
          break;
        }
        case 6: s = string(r.range(100, 1500), 'a') + std::to_string(ids.size()); break;
        case 4: s = string(r.range(1, 70), 'a' + r.below(3)) + std::to_string(r.below(100)); break;
        default: {
          static const vector<string> w = {"é", "a b", "\"q\"", "\\", "µ", "日本", ".", "#", " "};
          s = r.pick(w) + std::to_string(r.below(60));
          if (cfg.colonIds && r.chance(0.2)) s += ":x";
        }
      }
      if (ids.insert(s).second) return s;
    }
  }

  void connect(const Stream& s, const json& op, const string& toPort) {
    json c;
    c["from"] = s.op;
    Ports p = portsOf(op);
    json src;
    for (auto& o : ops)
      if (o["id"] == s.op) src = o;
    if (portsOf(src).out.size() > 1 || r.chance(0.5)) c["fromPort"] = s.port;
    c["to"] = op["id"];
    if (!(p.in.size() == 1 && p.ctrl.empty()) || r.chance(0.5)) c["toPort"] = toPort;
    conns.push_back(c);
  }

  // nullopt: leave the input open (pipelines only)
  std::optional<Stream> source(std::function<bool(const Stream&)> ok = nullptr, double openP = 0.12) {
    if (inPipeline && (streams.empty() || r.chance(openP))) return std::nullopt;
    vector<const Stream*> c;
    for (auto& s : streams)
      if (!ok || ok(s)) c.push_back(&s);
    if (c.empty()) return std::nullopt;
    // favour fresh streams, so that chains grow; but keep wide fan-outs possible
    if (r.chance(0.4)) return *c[c.size() - 1 - r.below(std::min<size_t>(3, c.size()))];
    return *c[r.below(c.size())];
  }

  Stream openStream() {  // what an open pipeline input may carry
    Stream s;
    s.root = 90 + (int)r.below(2);
    s.cls = nextCls++;
    s.spacing = cfg.spacing;
    s.mag = cfg.mag;
    return s;
  }

  double val(double m) {  // a configuration value
    switch (r.below(5)) {
      case 0: return (double)r.range(-3, 3);
      case 1: return (double)r.range(-40, 40) / 8;
      case 2: return (r.unit() * 2 - 1) * std::min(m, 100.0);
      case 3: return (double)r.range(1, 9) / 10;
      default: return (double)r.range(-10, 10);
    }
  }
  json jnum(double v) {  // integral values sometimes as a json integer
    if (v == std::floor(v) && std::fabs(v) < 1e9 && r.chance(0.5)) return json((int64_t)v);
    return json(v);
  }
  int window(int lo) {
    if (cfg.bigWindow && r.chance(0.15)) return (int)r.range(20, 60);
    return (int)r.range(lo, std::max(lo, cfg.maxWindow));
  }
  double edge() {
    double st = 0, v = genValue(r, cfg.edges, (int)r.below(20), st);
    if (r.chance(0.4)) v = std::nextafter(v, r.chance(0.5) ? INFINITY : -INFINITY);
    return v;
  }
  vector<double> coeffs(int n, double bound) {
    vector<double> c;
    for (int i = 0; i < n; i++) c.push_back(r.chance(0.5) ? bound * (double)r.range(-8, 8) / 8 / n : bound * (r.unit() * 2 - 1) / n);
    return c;
  }

  Stream derive(const Stream& s, const json& op, const string& port) {
    Stream o = s;
    o.op = op["id"];
    o.port = port;
    return o;
  }

  bool addSimple(const string& t) {
    auto src = source([&](const Stream& s) { return !(cfg.clampShift && s.shifted); });
    if (!src && !inPipeline) return false;
    Stream s = src ? *src : openStream();
    json op;
    op["type"] = t;
    op["id"] = newId();
    Stream o = derive(s, op, "o1");
    auto newCls = [&] { o.cls = nextCls++; };
    if (t == "Identity") {
    } else if (t == "Scale") {
      double v = val(10);
      op["value"] = jnum(v), o.mag = s.mag * std::max(std::fabs(v), 1e-3), o.pos = s.pos && v > 0;
    } else if (t == "Add") {
      double v = val(s.mag);
      op["value"] = jnum(v), o.mag = s.mag + std::fabs(v), o.pos = s.pos && v >= 0;
    } else if (t == "Constant") {
      double v = val(10);
      op["value"] = jnum(v), o.mag = std::fabs(v) + 1e-9, o.pos = v > 0;
    } else if (t == "Power") {
      static const vector<double> e = {1, 2, 3, 0, 2, 3, -1, -2, 4, 0.5, 1.5, 7};
      double v = r.pick(e);
      if (cfg.edges < 0 || !s.pos && (v < 0 || v != std::floor(v))) v = e[r.below(6)];
      if (s.pos && r.chance(0.5)) v = r.chance(0.5) ? 0.5 : -1;
      if (std::pow(std::max(s.mag, 1.0), v) > 1e40) v = 1;
      op["value"] = jnum(v), o.mag = std::pow(std::max(s.mag, 1.0), std::max(v, 1.0));
    } else if (t == "GreaterThan" || t == "LessThan" || t == "EqualTo") {
      double v = t == "EqualTo" ? (double)r.range(-3, 3) : val(s.mag) * 0.5;
      if (cfg.edges >= 0 && r.chance(0.7)) v = edge();
      op["value"] = jnum(v), newCls(), o.spacing *= 2;
    } else if (t == "Count") {
      o.mag = 1000, o.pos = true;
    } else if (t == "CumulativeSum") {
      o.mag = s.mag * 300, o.pos = s.pos;
    } else if (t == "MovingAverage") {
      op["n"] = window(1), newCls();
    } else if (t == "StandardDeviation") {
      op["n"] = window(2), newCls();
    } else if (t == "FiniteImpulseResponse") {
      op["coeff"] = coeffs(window(1), r.chance(0.5) ? 1 : 10), newCls(), o.mag *= 10, o.pos = false;
    } else if (t == "PeakDetector") {
      op["n"] = window(1), newCls(), o.spacing *= 3;
    } else if (t == "Difference") {
      newCls(), o.mag *= 2, o.pos = false;
    } else if (t == "RelativeStrengthIndex") {
      op["n"] = window(1), newCls(), o.mag = 100, o.pos = false;
    } else if (t == "AutoRegressive") {
      op["coeff"] = coeffs((int)r.range(1, 5), 0.9), o.mag *= 10, o.pos = false;
    } else if (t == "TimeShift") {
      o.shifted = true;
      if (r.chance(0.1)) {  // defaults: 1 x 1
      } else if (cfg.clampShift && r.chance(0.5)) {
        op["dt"] = -(int64_t)(cfg.base + s.spacing * r.range(0, 20) + r.below(3));
        if (r.chance(0.4)) op["times"] = r.range(1, 3);
      } else {
        int64_t dt = (int64_t)(r.chance(0.6) ? s.spacing * r.range(1, 4) : r.range(1, 9));
        int times = r.chance(0.5) ? 1 : (int)r.range(0, 4);
        if (cfg.negShift && !s.shifted && r.chance(0.4) && (double)dt * std::max(times, 1) < cfg.base) dt = -dt;
        op["dt"] = dt;
        if (times != 1 || r.chance(0.3)) op["times"] = times;
      }
      // the published schema asks for a positive dt: a shift into the past is a negative number of times
      if (op.contains("dt") && op["dt"].get<int64_t>() < 0 && (cfg.textApi || r.chance(0.2)))
        op["dt"] = -op["dt"].get<int64_t>(), op["times"] = -op.value("times", 1);
      newCls();
    } else if (t == "Function") {
      int n = (int)r.range(2, 7);
      json pts = json::array();
      double x = -s.mag * r.unit();
      vector<json> v;
      double mx = 0;
      for (int i = 0; i < n; i++) {
        double y = val(100);
        mx = std::max(mx, std::fabs(y));
        v.push_back({jnum(x), jnum(y)});
        x += std::max(std::fabs(x) * 1e-3, r.chance(0.5) ? (double)r.range(1, 5) : 0.25 + r.unit() * s.mag);
        if (s.mag < 1e5 && r.chance(0.5)) x = std::ceil(x);
      }
      if (cfg.edges >= 0 && r.chance(0.5)) {  // points right where the values are
        std::set<double> xs;
        for (int i = 0; i < n; i++) {
          double st = 0, e = genValue(r, cfg.edges, (int)r.below(20), st);
          if (std::fabs(e) <= 1e6 && std::all_of(xs.begin(), xs.end(), [&](double y) { return std::fabs(y - e) > 1e-3; })) xs.insert(e);
        }
        if (xs.size() >= 2) {
          v.clear();
          for (double e : xs) v.push_back({jnum(e), jnum(val(100))});
        }
      }
      if (r.chance(0.4)) r.shuffle(v);
      for (auto& p : v) pts.push_back(p);
      op["points"] = pts;
      if (r.chance(0.6)) op["interpolationType"] = r.chance(0.5) ? "hermite" : "linear";
      bool herm = op.value("interpolationType", "linear") == string("hermite");
      o.mag = mx * std::pow(1 + 2 * s.mag, herm ? 3 : 1);
      if (o.mag > 1e40) return false;
      o.pos = false;
    } else if (t == "ConstantResampler" || t == "CosineResampler" || t == "HermiteResampler") {
      double f = r.chance(0.3) ? r.range(1, 6) : 0.2 + 4 * r.unit() * r.unit();
      u64 dt = (u64)std::max(1.0, s.spacing * f);
      op[t == "ConstantResampler" ? "interval" : "dt"] = dt;
      newCls(), o.spacing = (double)dt;
      if (t == "HermiteResampler") o.pos = false, o.mag *= 10;
    } else
      return false;
    if (o.mag > 1e60) return false;
    ops.push_back(op);
    if (src) connect(*src, op, "i1");
    streams.push_back(o);
    return true;
  }

  bool addJoin(const string& t) {
    json op;
    op["type"] = t;
    op["id"] = newId();
    size_t n = 2;
    if (t == "Join") {
      n = r.chance(0.6) ? 2 : r.chance(cfg.wideP) ? r.range(9, cfg.wideMax) : r.range(2, 5);
      if (n != 2 || r.chance(0.8)) op["numPorts"] = n;
    } else if (t == "Linear") {
      n = r.chance(0.5) ? 2 : r.chance(cfg.wideP * 2) ? r.range(9, cfg.wideMax) : r.range(2, 5);
      json c = json::array();
      for (size_t i = 0; i < n; i++) c.push_back(jnum(val(5)));
      op["coeff"] = c;
    }
    auto first = source();
    if (!first && !inPipeline) return false;
    vector<std::optional<Stream>> src = {first};
    Stream f = first ? *first : openStream();
    double mag = f.mag, prod = f.mag;
    bool same = true;
    for (size_t i = 1; i < n; i++) {
      bool strict = cfg.aligned;
      bool near = r.chance(0.85);
      auto s = source([&](const Stream& x) { return strict ? x.cls == f.cls : !near || x.root == f.root; }, strict ? 0 : 0.12);
      if (!s && !inPipeline) return false;
      if (!s && strict) return false;
      if (s) mag = std::max(mag, s->mag), prod *= s->mag;
      if (!s || s->cls != f.cls) same = false;
      src.push_back(s);
    }
    if (strict_and_open(first)) return false;
    if (prod > 1e60) return false;
    ops.push_back(op);
    for (size_t i = 0; i < n; i++)
      if (src[i]) connect(*src[i], op, num("i", i + 1));
    int cls = same ? f.cls : nextCls++;
    bool filters = t == "Division" || t == "GreaterThanStream" || t == "LessThanStream";
    if (filters) cls = nextCls++;
    for (auto& port : portsOf(op).out) {
      Stream o = derive(f, op, port);
      o.cls = cls;
      o.pos = false;
      o.mag = t == "Multiplication" ? prod : t == "Division" ? mag * 1e3 : t == "Linear" ? mag * 20 : t == "And" || t == "Or" ? 1 : 2 * mag;
      if (t == "Join") o.mag = mag;
      if (filters) o.spacing *= 2;
      for (auto& s : src)
        if (s && s->shifted) o.shifted = true;
      streams.push_back(o);
    }
    return true;
  }
  bool strict_and_open(const std::optional<Stream>& f) { return cfg.aligned && !f; }

  // a stream with the timestamps of s and values 0 or 1
  Stream binary(const Stream& s) {
    auto mk = [&](const string& type, double v, const Stream& from) {
      json op = {{"type", type}, {"id", newId()}};
      if (type != "Identity") op["value"] = jnum(v);
      ops.push_back(op);
      connect(from, op, "i1");
      return derive(from, op, "o1");
    };
    Stream a = r.chance(0.5) ? mk("Add", val(s.mag), s) : s;
    Stream b = r.chance(0.3) ? mk("Constant", r.range(0, 1), s) : mk("Scale", -1, s);
    json op = {{"type", r.chance(0.5) ? "And" : "Or"}, {"id", newId()}};
    ops.push_back(op);
    bool sw = r.chance(0.5);
    connect(a, op, sw ? "i2" : "i1");
    connect(b, op, sw ? "i1" : "i2");
    Stream o = derive(s, op, "o1");
    o.mag = 1, o.pos = false;
    return o;
  }

  bool addDemux() {
    auto src = source(nullptr, 0);
    if (!src) return false;
    size_t n = r.chance(0.5) ? 1 : r.chance(cfg.wideP) ? r.range(11, std::max(11, cfg.wideMax)) : r.range(2, 4);
    vector<Stream> ctl;
    for (size_t i = 0; i < n; i++) ctl.push_back(i && r.chance(0.3) ? ctl[0] : binary(*src));
    // the data may be a subsequence of the stream the instructions are derived from
    Stream data = *src;
    if (!cfg.aligned && r.chance(0.4)) {
      json f = {{"type", r.chance(0.5) ? "GreaterThan" : "Identity"}, {"id", newId()}};
      if (f["type"] == "GreaterThan") f["value"] = jnum(val(data.mag) * 0.5);
      ops.push_back(f);
      connect(data, f, "i1");
      data = derive(data, f, "o1");
    }
    json op = {{"type", "Demultiplexer"}, {"id", newId()}};
    if (n != 1 || r.chance(0.7)) op["numPorts"] = n;
    ops.push_back(op);
    vector<int> order;
    for (int i = 0; i <= (int)n; i++) order.push_back(i);
    r.shuffle(order);
    for (int i : order)
      if (i == 0)
        connect(data, op, "i1");
      else
        connect(ctl[i - 1], op, num("c", i));
    for (size_t i = 0; i < n; i++) {
      Stream o = derive(data, op, num("o", i + 1));
      o.cls = nextCls++, o.spacing *= 2;
      streams.push_back(o);
    }
    return true;
  }

  bool addVariable() {
    auto src = source(nullptr, cfg.safeVariables ? 0 : 0.12);
    if (!src && !inPipeline) return false;
    if (cfg.safeVariables && !src) return false;
    Stream f = src ? *src : openStream();
    auto q = source([&](const Stream& s) { return cfg.safeVariables || cfg.aligned ? s.cls == f.cls && s.op == f.op : s.root == f.root || r.chance(0.2); }, 0);
    if (!q) return false;  // the control input can not stay open
    json op = {{"type", "Variable"}, {"id", newId()}};
    if (r.chance(0.7)) op["value"] = jnum(val(10));
    ops.push_back(op);
    if (r.chance(0.5)) {
      if (src) connect(*src, op, "i1");
      connect(*q, op, "c1");
    } else {
      connect(*q, op, "c1");
      if (src) connect(*src, op, "i1");
    }
    Stream o = derive(*q, op, "o1");
    o.cls = nextCls++, o.mag = std::max(f.mag, 10.0), o.pos = false;
    streams.push_back(o);
    return true;
  }

  bool addPorts(const string& t) {  // Input or Output used in the middle
    size_t n = r.chance(0.6) ? 1 : r.range(2, 3);
    json op = {{"type", t}, {"id", newId()}};
    if (n != 1 || r.chance(0.5)) op["numPorts"] = n;
    vector<std::optional<Stream>> src;
    for (size_t i = 0; i < n; i++) {
      auto s = source();
      if (!s && !inPipeline) return false;
      src.push_back(s);
    }
    ops.push_back(op);
    for (size_t i = 0; i < n; i++) {
      if (src[i]) connect(*src[i], op, num("i", i + 1));
      Stream o = derive(src[i] ? *src[i] : openStream(), op, num("o", i + 1));
      streams.push_back(o);
    }
    return true;
  }

  bool addPipeline() {
    if (depth <= 0 || (cfg.depth > 3 && pipelineTries++ > 1)) return false;
    GenCfg sub = cfg;
    sub.minOps = 1, sub.maxOps = cfg.depth > 3 ? 2 : 5;
    // every stream that can enter looks like the ones we have
    Builder b(r, sub, depth - 1, true);
    b.grow();
    if (b.ops.empty()) return false;
    json prog = b.finish();
    map<string, pair<string, string>> ins, outs;
    pipelinePorts(prog, ins, outs);
    if (ins.empty() || outs.empty() || ins.size() > 6) return false;
    int copies = r.chance(0.25) ? 2 : 1;
    for (int c = 0; c < copies; c++) {
      json op = {{"type", "Pipeline"}, {"id", newId()}, {"prog", prog}};
      vector<Stream> src;
      Stream f;
      for (size_t i = 0; i < ins.size(); i++) {
        auto s = source([&](const Stream& x) { return !i || r.chance(0.2) || x.root == f.root; });
        if (!s && inPipeline) {
          src.push_back(openStream());
          src.back().op = "";
          if (!i) f = src[0];
          continue;
        }
        if (!s) return c > 0;
        src.push_back(*s);
        if (!i) f = *s;
      }
      // inner resamplers were laid out for the spacing of the entry streams
      for (auto& s : src)
        if (s.mag > cfg.mag * 100 || s.spacing > cfg.spacing * 8 || s.spacing < cfg.spacing / 8) return c > 0;
      ops.push_back(op);
      for (size_t i = 0; i < src.size(); i++)
        if (!src[i].op.empty()) connect(src[i], op, num("i", i + 1));
      for (auto& [port, p] : outs) {
        Stream in, o = derive(f, op, port);
        for (auto& s : b.streams)
          if (s.op == p.first && s.port == p.second) in = s;
        o.cls = nextCls++, o.spacing = in.spacing, o.mag = in.mag * 100, o.pos = false;
        o.shifted = true;
        if (o.mag > 1e60) continue;
        streams.push_back(o);
      }
    }
    count(C_PIPELINES);
    return true;
  }

  void grow() {
    int target = (int)r.range(std::min(cfg.minOps, cfg.maxOps), cfg.maxOps);
    vector<string> bag;
    for (auto& [t, n] : wt)
      for (int i = 0; i < n; i++) bag.push_back(t);
    if (bag.empty()) return;
    for (int tries = 0; opCount < target && tries < target * 6; tries++) {
      string t = r.pick(bag);
      if (cfg.depth > 3 && depth > 0 && wt.count("Pipeline") && !pipelineTries && (inPipeline || !streams.empty())) t = "Pipeline";
      bool ok = false;
      size_t before = ops.size();
      if (t == "Demultiplexer")
        ok = addDemux();
      else if (t == "Variable")
        ok = addVariable();
      else if (t == "Input" || t == "Output")
        ok = addPorts(t);
      else if (t == "Pipeline")
        ok = addPipeline();
      else if (std::find(kJoinTypes.begin(), kJoinTypes.end(), t) != kJoinTypes.end())
        ok = addJoin(t);
      else
        ok = addSimple(t);
      if (ok) opCount += (int)(ops.size() - before);
      if (cfg.directSources) dropDerived();
    }
  }
  size_t entryStreams = 0;
  void dropDerived() {
    if (streams.size() > entryStreams) streams.resize(entryStreams);
  }

  json finish() {
    vector<json> o(ops.begin(), ops.end());
    if (r.chance(0.5)) r.shuffle(o);
    vector<json> c(conns.begin(), conns.end());
    if (r.chance(0.5)) r.shuffle(c);
    json p;
    p["operators"] = json::array();
    p["connections"] = json::array();
    for (auto& x : o) p["operators"].push_back(x);
    for (auto& x : c) p["connections"].push_back(x);
    return p;
  }
};

}  // namespace

ProgInfo genProgram(Rng& r, const GenCfg& cfg) {
  ProgInfo info;
  Builder b(r, cfg, cfg.depth, false);
  json in = {{"type", "Input"}, {"id", b.newId()}};
  int n = r.chance(0.4) ? 1 : cfg.maxPorts >= 3 && r.chance(cfg.wideP) ? (int)r.range(10, 12) : (int)r.range(1, cfg.maxPorts);
  if (cfg.minPorts > n) n = (int)r.range(cfg.minPorts, std::max(cfg.minPorts, cfg.maxPorts));
  if (n != 1 || r.chance(0.5)) in["numPorts"] = n;
  b.ops.push_back(in);
  for (int i = 0; i < n; i++) {
    Stream s;
    s.op = in["id"], s.port = num("o", i + 1);
    s.root = 0;
    s.cls = cfg.aligned ? 0 : i;
    s.spacing = cfg.spacing, s.mag = cfg.mag;
    b.streams.push_back(s);
  }
  b.entryStreams = b.streams.size();
  b.grow();
  if (cfg.directSources) {
    b.streams.clear();
    for (auto& op : b.ops)
      for (auto& p : portsOf(op).out) {
        Stream s;
        s.op = op["id"], s.port = p;
        b.streams.push_back(s);
      }
  }
  json out = json::object();
  bool selected = r.chance(0.7);
  if (cfg.outputOp && r.chance(0.7)) {
    size_t k = r.chance(0.6) ? 1 : r.chance(cfg.wideP) ? 10 : r.range(2, 4);
    json op = {{"type", "Output"}, {"id", b.newId()}};
    if (k != 1 || r.chance(0.5)) op["numPorts"] = k;
    b.ops.push_back(op);
    json sel = json::array();
    for (size_t i = 0; i < k; i++) {
      b.connect(b.streams[b.streams.size() - 1 - r.below(std::min<size_t>(b.streams.size(), 5))], op, num("i", i + 1));
      if (r.chance(0.8)) sel.push_back(num("o", i + 1));
    }
    out[op["id"].get<string>()] = sel;
  }
  if (selected)
    for (auto& op : b.ops)
      if (r.chance(0.25)) {
        vector<string> ps = portsOf(op).out;
        r.shuffle(ps);
        json sel = json::array();
        for (auto& p : ps)
          if (r.chance(0.7)) sel.push_back(p);
        if (r.chance(0.05)) sel.push_back("nowhere");
        if (!sel.empty() && r.chance(0.05)) sel.push_back(sel[r.below(sel.size())]);
        out[op["id"].get<string>()] = sel;
      }
  if (r.chance(0.03)) out["nobody"] = {"o1"}, count(C_UNKNOWN_OPS);
  info.def = b.finish();
  if (!out.empty() || r.chance(0.5) || cfg.textApi) info.def["output"] = out;
  info.def["entryOperator"] = in["id"];
  if (cfg.textApi || r.chance(0.2)) info.def["apiVersion"] = "v1";
  info.ports = n;
  count(C_OPS, b.ops.size());
  return info;
}
