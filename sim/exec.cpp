// Executes a trace against the real code and checks the property: what the executors share.
#include "exec.h"

extern const set<string> kRestart;
const set<string> kRestart = {"hop", "crash"};

PassOpts base(const json& t) {
  PassOpts o;
  o.text = t.value("text", false);
  o.via = t.value("via", 0);
  o.iso = t.value("iso", false);
  return o;
}
vector<json> without(const vector<json>& s, const set<string>& ops) {
  vector<json> r;
  for (auto& x : s)
    if (!ops.count(x["op"])) r.push_back(x);
  return r;
}
string at(const json& s, size_t i) {
  string d = s.dump();
  return "step " + std::to_string(i) + " " + (d.size() > 400 ? d.substr(0, 400) + "..." : d);
}
void logAll(Hash& h, const vector<Obs>& v) {
  for (auto& o : v) {
    hashObs(h, o);
    Hash s;
    if (!o.bytes.empty()) s.add(o.bytes.data(), o.bytes.size()), noteState(s.h);
    else if (!o.res.empty()) hashObs(s, o), noteState(s.h);
  }
}
string bytesDiff(const Bytes& a, const Bytes& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return "sizes " + std::to_string(a.size()) + "/" + std::to_string(b.size()) + ", first difference at " + std::to_string(i);
}
string resDiff(const ProgMsgs& a, const ProgMsgs& b) { return "expected " + show(a) + " got " + show(b); }

V compare(const vector<json>& sa, const vector<Obs>& a, const vector<json>& sb, const vector<Obs>& b, const set<string>& skip,
          const string& what, bool bytes) {
  set<string> dead;
  size_t j = 0;
  auto key = [](const json& s) { return s.contains("id") ? "id " + s["id"].get<string>() : std::to_string(s.value("p", 0)); };
  auto skipped = [&](const json& s, const Obs& o, size_t i) -> V {
    if (kRestart.count(s["op"]) && o.st == 1) {
      if (s["op"] == "crash" ? dead.empty() : !dead.count(key(s))) return Violation{what + ": restart failed", at(s, i) + ": " + o.ret};
    }
    return {};
  };
  for (size_t i = 0; i < sa.size(); i++) {
    if (skip.count(sa[i]["op"])) {
      if (auto v = skipped(sa[i], a[i], i)) return v;
      continue;
    }
    while (j < sb.size() && skip.count(sb[j]["op"])) {
      if (auto v = skipped(sb[j], b[j], j)) return v;
      j++;
    }
    if (j >= sb.size()) throw std::logic_error("passes are not aligned");
    const Obs &x = a[i], &y = b[j];
    string k = key(sa[i]);
    if (!dead.count(k) && sa[i]["op"] != "crash") {
      count(C_TWIN_CMP);
      if (x.st != y.st)
        return Violation{what + ": an error in one run only", at(sa[i], i) + ": " + std::to_string(x.st) + " " + x.ret + " / " +
                                                                   std::to_string(y.st) + " " + y.ret};
      if (x.st == 1 && sa[i]["op"] != "create") dead.insert(k);
      if (x.st == 0) {
        if (!same(x.res, y.res)) return Violation{what + ": results differ", at(sa[i], i) + ": " + resDiff(x.res, y.res)};
        if (bytes && (!x.bytes.empty() || !y.bytes.empty())) {
          count(C_BYTES_CMP);
          if (x.bytes != y.bytes) return Violation{what + ": snapshots differ", at(sa[i], i) + ": " + bytesDiff(x.bytes, y.bytes)};
        }
      }
    }
    j++;
  }
  for (; j < sb.size(); j++) {
    if (!skip.count(sb[j]["op"])) throw std::logic_error("passes are not aligned");
    if (auto v = skipped(sb[j], b[j], j)) return v;
  }
  return {};
}

void addFinalSnaps(const json& t, vector<json>& s) {
  for (size_t p = 0; p < t.at("progs").size(); p++) s.push_back({{"op", "snap"}, {"p", p}});
}

// the messages of a call in the order the engine takes them
vector<pair<string, Msg>> inOrder(const OpMsgs& m) {
  vector<pair<string, Msg>> v;
  for (auto& [p, l] : m)
    for (auto& x : l) v.push_back({p, x});
  return v;
}
json single(const string& port, const Msg& m) { return {{port, json::array({json::array({m.time, m.value})})}}; }
void append(ProgMsgs& a, const ProgMsgs& b) {
  for (auto& [op, pm] : b)
    for (auto& [p, v] : pm) a[op][p].insert(a[op][p].end(), v.begin(), v.end());
}

// ---------- the reference model ----------

Fed Buffers::fed(const json& s) {
  Fed f;
  int p = s.value("p", 0);
  string op = s["op"];
  if (op == "call") f.is = true, f.in = msgsOf(s["m"]);
  if (op == "buf") buf[p][s["port"]].push_back(Msg(s["t"].get<u64>(), s["v"].get<double>()));
  if (op == "flush") f.is = true, f.in = std::move(buf[p]), buf[p].clear();
  if (op == "crash") buf.clear();
  if (op == "hop") buf[p].clear();
  return f;
}

V judge(const json& t, const vector<json>& steps, const vector<Obs>& obs, const ModelProgram::Opts& o) {
  vector<ModelProgram> m;
  for (auto& p : t["progs"]) m.emplace_back(p["def"]);
  Buffers b;
  for (size_t i = 0; i < steps.size(); i++) {
    auto& s = steps[i];
    Fed f = b.fed(s);
    if (kRestart.count(s["op"]) && obs[i].st) return Violation{"restart failed", at(s, i) + ": " + obs[i].ret};
    if (!f.is) continue;
    auto& mp = m.at(s.value("p", 0));
    if (mp.abandoned) continue;
    if (obs[i].st) return Violation{"exception", at(s, i) + ": " + obs[i].ret};
    if (auto v = mp.call(f.in, obs[i].res, o)) {
      v->detail = at(s, i) + ": " + v->detail;
      return v;
    }
    if (mp.abandoned) count(C_ABANDONED);
  }
  return {};
}

ModelProgram::Opts optsOf(const string& P) {
  ModelProgram::Opts o;
  if (P == "C03") o.types = {"Input"};
  if (P == "C06") o.types = {"Join", "Plus", "Minus", "Multiplication", "Linear", "And", "Or"}, o.values = false;
  if (P == "C07") o.types = {"Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream", "LessThanStream", "Linear"};
  if (P == "C08") o.types = {"Demultiplexer"};
  if (P == "C09") o.types = {"Variable"};
  if (P == "C10")
    o.types = {"MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "PeakDetector", "Difference",
               "RelativeStrengthIndex", "AutoRegressive", "CumulativeSum", "Count"};
  if (P == "C31") o.types = {"Identity", "Scale", "Add", "Constant", "Power", "GreaterThan", "LessThan", "EqualTo", "Function", "TimeShift"};
  if (P == "C11") o.types = {"ConstantResampler", "CosineResampler", "HermiteResampler"};
  if (P == "C18") o.types = {"TimeShift"}, o.order = true;
  return o;
}

V modelRun(const json& t, Hash& log) {
  auto steps = stepsOf(t);
  PassOpts o = base(t);
  o.debugAll = true;
  auto obs = runPass(t, steps, o);
  logAll(log, obs);
  string P = t["property"];
  auto opts = optsOf(P);
  if (auto v = judge(t, steps, obs, opts)) return v;
  if (P == "C06") {  // joins emit the values they were given
    ModelProgram::Opts j;
    j.types = {"Join"};
    if (auto v = judge(t, steps, obs, j)) return v;
  }
  return {};
}

// total emissions per operator and port of one program
ProgMsgs total(const vector<json>& steps, const vector<Obs>& obs, int p) {
  ProgMsgs r;
  for (size_t i = 0; i < obs.size(); i++)
    if (steps[i].value("p", 0) == p && obs[i].st == 0) append(r, obs[i].res);
  return r;
}
bool anyError(const vector<Obs>& v) {
  for (auto& o : v)
    if (o.st == 1) return true;
  return false;
}

V execute(const json& t, Hash& log) {
  string P = t["property"];
  if (t.contains("of")) {  // any scenario of another property
    json u = t;
    u["property"] = t["of"], u.erase("of");
    return execute(u, log);
  }
  if (P == "C30") return t.value("scenario", "") == "composite" ? leaks(t, log) : c30(t, log);
  if (t.value("scenario", "") == "composite") return composite(t, log);
  if (P == "C01") return c01(t, log);
  if (P == "C02") return c02(t, log);
  if (P == "C03") return c03(t, log);
  if (P == "C04") return c04(t, log);
  if (P == "C05") return c05(t, log);
  if (P == "C06") return c06(t, log);
  if (P == "C08" && t["scenario"] == "conflict") return conflict(t, log);
  if (P == "C13") return c13(t, log);
  if (P == "C14") return c14(t, log);
  if (P == "C15") return c15(t, log);
  if (P == "C16") return c16(t, log);
  if (P == "C17") return c17(t, log);
  if (P == "C19") return c19(t, log);
  if (P == "C20") return c20(t, log);
  if (P == "C21") return c21(t, log);
  if (P == "C22") return c22(t, log);
  return modelRun(t, log);
}
