#include "world.h"

#include <algorithm>
#include <cmath>

const int kValueKinds = 9;

double genValue(Rng& r, int kind, int tick, double& st) {
  switch (kind) {
    case 0: return (double)r.range(-10, 10);
    case 1: return (double)r.range(0, 3);
    case 2: return (double)r.range(-80, 80) / 8;
    case 3: return (r.unit() * 2 - 1) * 10;
    case 4: return st += (double)r.range(-2, 2);                     // random walk
    case 5: return (double)(tick % 7) - 3 + (tick % 3) * 0.25;       // periodic
    case 6: {                                                        // around the thresholds of the logical operators
      static const vector<double> v = {0, 1, 0.5, 0.49999999, -0.5, 0.50000001, 2, -1};
      return r.pick(v);
    }
    case 7: {  // special values
      static const vector<double> v = {0, -0.0, 1, -1, 1e-9, 1e9, -1e9, 0.1, 3, 1e-300, 5e-324, 123456789.123};
      return r.pick(v);
    }
    case 9: {  // very large and very small
      static const vector<double> v = {9007199254740993.0, -9007199254740991.0, 1e15, 1e15 + 1, -1e15, 1234567890123456.0, 1e17, 5e-324, 2.2250738585072014e-308, 1e-200, -1e-310, 4294967296.0, 4294967295.0, -2147483649.0, 0.30000000000000004, 0};
      return r.pick(v);
    }
    case 10: {  // hardly different
      static const vector<double> v = {0.1, 1, 3, -2, 1000.5, 1e6};
      double x = r.pick(v);
      return r.chance(0.5) ? x : std::nextafter(x, r.chance(0.5) ? INFINITY : -INFINITY);
    }
    default: return st += r.unit() * 3;  // increasing
  }
}

void pickTimeScale(Rng& r, double& spacing, u64& base, bool extreme) {
  static const vector<double> sp = {1, 1, 5, 10, 37, 1000, 60000, 1e9};
  spacing = r.pick(sp);
  switch (r.below(extreme ? 9 : 6)) {
    case 0: base = 0; break;
    case 1: base = 1; break;
    case 2: base = 1000; break;
    case 3: base = 1700000000000ull; break;
    case 4: base = 1700000000000000000ull; break;
    case 5: base = 4294967296ull - (u64)(10 * spacing); break;
    case 6: base = (1ull << 63) - (u64)(7 * spacing); break;
    case 7: base = (1ull << 53) - 3; break;
    default: base = ~0ull - (u64)(2000 * spacing);
  }
  if ((int64_t)base < 0 && !extreme) base = 0;
}

void randomWork(Rng& r, WorkCfg& w, HostCfg& h, bool thorough) {
  pickTimeScale(r, w.spacing, w.base);
  w.ticks = r.chance(0.08) ? (int)r.range(100, thorough ? 1500 : 400) : (int)r.range(4, 60);
  w.jitter = r.chance(0.5);
  w.aligned = r.chance(0.85);
  w.sampleP = r.chance(0.5) ? 1 : 0.5 + 0.5 * r.unit();
  w.gapP = r.chance(0.4) ? 0.05 : 0;
  w.partitionP = r.chance(0.3) ? 0.05 : 0;
  w.valueKind = (int)r.below(kValueKinds);
  if (r.chance(0.6)) {
    if (r.chance(0.5)) w.link.loss = 0.02 + 0.2 * r.unit();
    if (r.chance(0.5)) w.link.dup = 0.02 + 0.2 * r.unit();
    if (r.chance(0.5)) w.link.delay = r.range(100, 6000);
    if (r.chance(0.3)) w.link.skew = 0.05;
    w.link.fifo = r.chance(0.5);
  }
  w.perPortLinks = r.chance(0.5);
  static const vector<HostMode> modes = {H_DIRECT, H_DIRECT, H_BATCH, H_BUFFER, H_MIXED};
  h.mode = r.pick(modes);
  h.flushEvery = r.range(500, 9000);
  h.stallP = r.chance(0.3) ? 0.05 : 0;
  if (r.chance(0.2)) h.emptyBatchP = 0.1;
}

json traceOf(const string& property, const string& scenario, const vector<ProgRun>& progs) {
  json t;
  t["property"] = property;
  t["scenario"] = scenario;
  t["progs"] = json::array();
  for (size_t i = 0; i < progs.size(); i++) t["progs"].push_back({{"id", "p" + std::to_string(i)}, {"def", progs[i].info.def}});
  t["steps"] = json::array();
  return t;
}

namespace {
struct Pending {
  u64 seq;
  int port;
  Msg m;
};
struct World {
  Rng& r;
  vector<ProgRun>& progs;
  const HostCfg& host;
  json& steps;
  Sim sim;
  struct PS {
    vector<Link> links;
    vector<double> vstate;
    vector<u64> clock;      // per port (all equal when aligned)
    vector<u64> cutUntil;   // partition
    vector<u64> lastArrival;
    vector<int> kind;
    vector<Pending> inbox;
    HostMode mode;
    bool flushPlanned = false;
    int buffered = 0;
  };
  vector<PS> ps;
  u64 stalledUntil = 0;
  u64 arrivals = 0;

  World(Rng& r, vector<ProgRun>& p, const HostCfg& h, json& s) : r(r), progs(p), host(h), steps(s) {}

  string port(int i) { return "i" + std::to_string(i + 1); }
  void step(json s) {
    s["vt"] = sim.now;
    steps.push_back(std::move(s));
  }
  bool dbg() { return host.debugP >= 1 || r.chance(host.debugP); }

  void call(int p, const vector<Pending>& v) {
    json m = json::object();
    for (auto& x : v) m[port(x.port)].push_back({x.m.time, x.m.value});
    step({{"op", "call"}, {"p", p}, {"m", m}, {"dbg", dbg()}});
  }
  void deliver(int p) {  // the host handles its inbox
    auto& s = ps[p];
    if (sim.now < stalledUntil) {
      if (!s.flushPlanned) {
        s.flushPlanned = true;
        sim.at(stalledUntil, [=] { ps[p].flushPlanned = false, deliver(p); });
      }
      return;
    }
    vector<Pending> in = std::move(s.inbox);
    s.inbox.clear();
    HostMode mode = s.mode;
    if (mode == H_MIXED) mode = (HostMode)r.below(3);
    if (mode == H_DIRECT)
      for (auto& x : in) call(p, {x});
    else if (mode == H_BATCH) {
      if (!in.empty() || r.chance(host.emptyBatchP)) call(p, in);
    } else {
      for (auto& x : in) step({{"op", "buf"}, {"p", p}, {"port", port(x.port)}, {"t", x.m.time}, {"v", x.m.value}});
      if (!in.empty() || r.chance(host.emptyBatchP)) step({{"op", "flush"}, {"p", p}, {"dbg", dbg()}});
    }
  }
  void arrive(int p, int port, Msg m) {
    auto& s = ps[p];
    s.inbox.push_back({arrivals++, port, m});
    if (s.mode == H_DIRECT || (s.mode == H_MIXED && r.chance(0.3)))
      deliver(p);
    else if (!s.flushPlanned) {
      s.flushPlanned = true;
      sim.after(1 + r.below(host.flushEvery), [=] { ps[p].flushPlanned = false, deliver(p); });
    }
  }
  void send(int p, int port, Msg m, bool reliable) {
    auto& s = ps[p];
    Link l = s.links[port];
    if (!reliable && r.chance(l.loss)) {
      count(C_LOST);
      return;
    }
    u64 d = 1 + (l.delay ? r.below(l.delay) : 0);
    if (l.delay && d > 1000) count(C_DELAYED);
    u64 at = sim.now + d;
    at = std::max(at, s.cutUntil[port]);
    if (l.fifo || reliable) at = std::max(at, s.lastArrival[port]);
    else if (at < s.lastArrival[port]) count(C_REORDER);
    s.lastArrival[port] = std::max(s.lastArrival[port], at);
    sim.at(at, [=] { arrive(p, port, m); });
    if (r.chance(l.dup)) {
      count(C_DUP);
      u64 at2 = at + 1 + r.below(2 * l.delay + 500);
      if (l.fifo || reliable) s.lastArrival[port] = std::max(s.lastArrival[port], at2);
      sim.at(at2, [=] { arrive(p, port, m); });
    }
  }
  void tick(int p, int k) {
    auto& pr = progs[p];
    auto& s = ps[p];
    auto& w = pr.work;
    int n = pr.info.ports;
    if (r.chance(host.stallP)) {
      count(C_STALLS);
      stalledUntil = std::max(stalledUntil, sim.now + 1000 + r.below(8000));
    }
    for (int i = 0; i < n; i++)
      if (r.chance(w.partitionP / n)) {
        count(C_PARTITIONS);
        s.cutUntil[i] = std::max(s.cutUntil[i], sim.now + 1000 + r.below(15000));
      }
    u64 gap = r.chance(w.gapP) ? (count(C_GAPS), 1 + r.below(w.gapMax)) : 0;
    auto advance = [&](int i) {
      double d = w.spacing;
      if (w.jitter) d = std::max(1.0, std::floor(w.spacing * (0.2 + 1.8 * r.unit())));
      s.clock[i] += (u64)d + (u64)(gap * w.spacing);
    };
    if (w.aligned) {
      advance(0);
      for (int i = 1; i < n; i++) s.clock[i] = s.clock[0];
    } else
      for (int i = 0; i < n; i++) advance(i);
    vector<int> order;
    for (int i = 0; i < n; i++) order.push_back(i);
    if (n > 1) r.shuffle(order);
    for (int i : order) {
      bool ctl = pr.info.controlOf.count(i);
      u64 t = s.clock[ctl ? pr.info.controlOf[i] : i];
      if (!ctl && !r.chance(w.sampleP)) continue;
      if (!ctl && r.chance(s.links[i].skew)) {
        count(C_SKEWS);
        u64 back = (u64)(w.spacing * r.range(0, 5));
        t = t > back ? t - back : t;
      }
      double v = ctl ? (double)r.below(2) : genValue(r, s.kind[i], k, s.vstate[i]);
      send(p, i, Msg(t, v), ctl);
    }
    if (k + 1 < w.ticks) sim.after(1000 * (1 + gap), [=] { tick(p, k + 1); });
  }
  void faults(int ticks) {
    u64 end = (u64)ticks * 1000;
    for (int k = 0; k < ticks; k++) {
      u64 at = (u64)k * 1000 + r.below(1000);
      int p = (int)r.below(progs.size());
      if (r.chance(host.hopP)) sim.at(at, [=] { step({{"op", "hop"}, {"p", p}}); });
      if (r.chance(host.crashP)) sim.at(at, [=] { step({{"op", "crash"}}); });
      if (r.chance(host.snapP)) sim.at(at, [=] { step({{"op", "snap"}, {"p", p}, {"slot", 0}}); });
    }
    (void)end;
  }
  void run() {
    ps.resize(progs.size());
    int ticks = 0;
    for (size_t p = 0; p < progs.size(); p++) {
      auto& s = ps[p];
      auto& w = progs[p].work;
      int n = progs[p].info.ports;
      for (int i = 0; i < n; i++) {
        Link l = w.link;
        if (w.perPortLinks && r.chance(0.5)) {
          if (r.chance(0.5)) l = Link();
          if (r.chance(0.5)) l.delay = r.range(0, 20000), l.fifo = r.chance(0.8);
        }
        s.links.push_back(l);
        s.vstate.push_back(0);
        s.clock.push_back(w.base);
        s.cutUntil.push_back(0);
        s.lastArrival.push_back(0);
        s.kind.push_back(r.chance(0.7) ? w.valueKind : (int)r.below(kValueKinds));
      }
      if (w.lagTicks) {
        size_t i = r.below(n);
        s.links[i].loss = s.links[i].delay = 0, s.links[i].fifo = true;
        s.cutUntil[i] = (u64)w.lagTicks * 1000;
        count(C_PARTITIONS);
      }
      s.mode = host.mode;
      ticks = std::max(ticks, w.ticks);
      sim.at(r.below(1000), [=] { tick((int)p, 0); });
    }
    faults(ticks);
    sim.run();
    for (size_t p = 0; p < progs.size(); p++)
      if (!ps[p].inbox.empty()) deliver((int)p);
    sim.run();
    count(C_SIMTIME_MS, sim.now);
  }
};
}  // namespace

void simulate(Rng& r, vector<ProgRun>& progs, const HostCfg& host, json& trace) {
  World w(r, progs, host, trace["steps"]);
  w.run();
}
