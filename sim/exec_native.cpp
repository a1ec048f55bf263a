// Operators connected by hand through the native interface, a composite in the middle.
#include "exec.h"

#include "rtbot/Composite.h"

namespace {

struct Graph {
  rtbot::Op_ptr<u64, double> src;
  map<string, std::shared_ptr<rtbot::Operator<u64, double>>> ops;  // owned here (inline variant)
  std::shared_ptr<rtbot::Composite<u64, double>> comp;
  vector<std::shared_ptr<rtbot::Operator<u64, double>>> sinks;
};
typedef rtbot::Operator<u64, double> Op;

void createIn(rtbot::Composite<u64, double>& c, const json& o) {
  string t = o["type"], id = o["id"];
  auto n = [&] { return o["n"].get<size_t>(); };
  auto v = [&] { return o["value"].get<double>(); };
  auto coeff = [&] { return o["coeff"].get<vector<double>>(); };
  if (t == "Input") c.createInput(id, o.value("numPorts", 1));
  else if (t == "Output") c.createOutput(id, o.value("numPorts", 1));
  else if (t == "Add") c.createAdd(id, v());
  else if (t == "AutoRegressive") c.createAutoregressive(id, coeff());
  else if (t == "Constant") c.createConstant(id, v());
  else if (t == "CosineResampler") c.createCosineResampler(id, o["dt"].get<u64>());
  else if (t == "HermiteResampler") c.createHermiteResampler(id, o["dt"].get<u64>());
  else if (t == "Count") c.createCount(id);
  else if (t == "CumulativeSum") c.createCumulativeSum(id);
  else if (t == "Difference") c.createDifference(id, o.value("useOldestTime", true));
  else if (t == "Join") c.createJoin(id, o.value("numPorts", 2));
  else if (t == "Division") c.createDivision(id);
  else if (t == "Minus") c.createMinus(id);
  else if (t == "Linear") c.createLinear(id, coeff());
  else if (t == "EqualTo") c.createEqualTo(id, v());
  else if (t == "GreaterThan") c.createGreaterThan(id, v());
  else if (t == "LessThan") c.createLessThan(id, v());
  else if (t == "Identity") c.createIdentity(id);
  else if (t == "MovingAverage") c.createMovingAverage(id, n());
  else if (t == "FiniteImpulseResponse") c.createFiniteImpulseResponse(id, coeff());
  else if (t == "Variable") c.createVariable(id, o.value("value", 0.0));
  else if (t == "PeakDetector") c.createPeakDetector(id, n());
  else if (t == "StandardDeviation") c.createStandardDeviation(id, n());
  else if (t == "Demultiplexer") c.createDemultiplexer(id, o.value("numPorts", 1));
  else if (t == "Power") c.createPower(id, v());
  else if (t == "Scale") c.createScale(id, v());
  else if (t == "TimeShift") c.createTimeShift(id, (u64)o.value("dt", (int64_t)1), o.value("times", 1));
  else throw std::logic_error("not in composites: " + t);
}

struct Native {
  json def;
  string entry, exit;
  bool composite;
  std::unique_ptr<Op> src;
  std::unique_ptr<rtbot::Composite<u64, double>> comp;
  map<string, std::unique_ptr<Op>> ops;
  vector<std::unique_ptr<Op>> sinks;
  Native(const json& d, const string& exit, bool composite) : def(d), entry(d["entryOperator"]), exit(exit), composite(composite) { build(); }
  void build() {
    src.reset(), comp.reset(), ops.clear(), sinks.clear();
    size_t ins = 1, outs = 1;
    for (auto& o : def["operators"]) {
      if (o["id"] == entry) ins = o.value("numPorts", 1);
      if (o["id"] == exit) outs = o.value("numPorts", 1);
    }
    src.reset(new rtbot::Input<u64, double>("@src", ins));
    for (size_t i = 1; i <= outs; i++) {
      if (i % 2) sinks.emplace_back(new rtbot::CumulativeSum<u64, double>("@sink" + std::to_string(i)));
      else sinks.emplace_back(new rtbot::Count<u64, double>("@sink" + std::to_string(i)));
    }
    auto o = [](const string& p, size_t i) { return p + std::to_string(i); };
    if (composite) {
      comp.reset(new rtbot::Composite<u64, double>("@comp"));
      for (auto& x : def["operators"]) createIn(*comp, x);
      for (auto& c : connsOf(def)) comp->createInternalConnection(c.from, c.to, c.fromPort, c.toPort);
      for (size_t i = 1; i <= ins; i++) src->connect(comp.get(), o("o", i), o("i", i));
      for (size_t i = 1; i <= outs; i++) comp->connect(sinks[i - 1].get(), o("o", i), "i1");
      return;
    }
    for (auto& x : def["operators"]) {
      string id = x["id"];
      if (x["type"] == "Difference" && x.contains("useOldestTime"))
        ops[id].reset(new rtbot::Difference<u64, double>(id, x["useOldestTime"].get<bool>()));
      else
        ops[id] = rtbot::FactoryOp::readOp(x.dump());
    }
    for (auto& c : connsOf(def)) ops.at(c.from)->connect(ops.at(c.to).get(), c.fromPort, c.toPort);
    for (size_t i = 1; i <= ins; i++) src->connect(ops.at(entry).get(), o("o", i), o("i", i));
    for (size_t i = 1; i <= outs; i++) ops.at(exit)->connect(sinks[i - 1].get(), o("o", i), "i1");
  }
  vector<Op*> all() {
    vector<Op*> v = {src.get()};
    if (composite) v.push_back(comp.get());
    for (auto& [id, p] : ops) v.push_back(p.get());
    for (auto& p : sinks) v.push_back(p.get());
    return v;
  }
  void hop() {
    vector<Bytes> s;
    for (auto p : all()) s.push_back(p->collect());
    build();
    size_t i = 0;
    for (auto p : all()) {
      Bytes::const_iterator it = s[i].begin();
      p->restore(it);
      if (it != s[i].end()) throw std::logic_error("restore left bytes");
      i++;
    }
  }
  Obs feed(const OpMsgs& m) {
    Obs o;
    try {
      for (auto& [p, l] : m)
        for (auto& x : l) {
          src->receiveData(x, p);
          append(o.res, src->executeData());
        }
    } catch (const std::exception& e) {
      o.st = 1, o.ret = e.what();
    }
    count(C_CALLS), count(C_MSGS, countMsgs(m));
    return o;
  }
};

}  // namespace

V composite(const json& t, Hash& log) {
  const json& def = t["progs"][0]["def"];
  auto run = [&](bool comp, bool hops, u64 poison) {
    sim_alloc_reset(poison);
    Native n(def, t["exit"], comp);
    vector<Obs> r;
    for (auto& s : t["steps"]) {
      if (s["op"] == "call") r.push_back(n.feed(msgsOf(s["m"])));
      if (s["op"] == "hop" && hops) {
        count(C_RESTARTS);
        n.hop();
      }
    }
    logAll(log, r);
    return r;
  };
  vector<json> calls;
  for (auto& s : t["steps"])
    if (s["op"] == "call") calls.push_back(s);
  string P = t["property"];
  auto ref = run(false, false, 3);
  if (P == "C10") {  // the inline variant against the model
    auto hopped = run(false, true, 4);
    ModelProgram m(def);
    auto opts = optsOf(P);
    for (size_t i = 0; i < calls.size(); i++) {
      if (hopped[i].st || m.abandoned) break;
      ProgMsgs res = hopped[i].res;
      for (auto it = res.begin(); it != res.end();)
        if (it->first[0] == '@') it = res.erase(it);
        else ++it;
      if (auto v = m.call(msgsOf(calls[i]["m"]), res, opts)) return v;
    }
    return {};
  }
  auto got = run(true, P == "C01" || t.value("hops", true), 5);
  for (size_t i = 0; i < calls.size(); i++) {
    count(C_TWIN_CMP);
    if (ref[i].st != got[i].st) return Violation{"composite: an error in one run only", at(calls[i], i) + ": " + ref[i].ret + got[i].ret};
    if (ref[i].st) break;
    if (!same(ref[i].res, got[i].res)) return Violation{"composite: results differ", at(calls[i], i) + ": " + resDiff(ref[i].res, got[i].res)};
  }
  return {};
}


// operators built, connected, fed, rebuilt from their state and destroyed, again and again
V leaks(const json& t, Hash& log) {
  sim_alloc_reset(72);
  vector<long> blocks, bytes;
  blocks.reserve(8), bytes.reserve(8);
  for (int k = 1; k <= 16; k++) {
    {
      Native n(t["progs"][0]["def"], t["exit"], k % 2);
      for (auto& s : t["steps"]) {
        if (s["op"] == "call") hashObs(log, n.feed(msgsOf(s["m"])));
        if (s["op"] == "hop") n.hop();
      }
    }
    if (afterRound(k)) blocks.push_back(sim_alloc_blocks()), bytes.push_back(sim_alloc_bytes());
  }
  return grown(blocks, bytes);
}
