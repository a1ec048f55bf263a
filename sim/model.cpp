#include "model.h"

#include <algorithm>
#include <cmath>

static string N(const string& p, size_t i) { return p + std::to_string(i); }

// ---- resamplers: functions of the whole history, written from the documentation ----
namespace {

long double cosineAt(const Msg& a, const Msg& b, u64 t) {
  long double mu = (long double)(t - a.time) / (long double)(b.time - a.time);
  long double w = (1 - cosl(mu * 3.14159265358979323846264L)) / 2;
  return a.value * (1 - w) + b.value * w;
}

long double hermite(long double y0, long double y1, long double y2, long double y3, long double mu) {
  long double m0 = (y2 - y0) / 2, m1 = (y3 - y1) / 2;
  long double mu2 = mu * mu, mu3 = mu2 * mu;
  return (2 * mu3 - 3 * mu2 + 1) * y1 + (mu3 - 2 * mu2 + mu) * m0 + (mu3 - mu2) * m1 + (-2 * mu3 + 3 * mu2) * y2;
}

// the artificial point to the left of the first: the line fitted to the first four, one average spacing to the left
long double leadingPoint(const vector<Msg>& h) {
  long double sx = 0, sy = 0, sxx = 0, sxy = 0;
  for (int i = 0; i < 4; i++) {
    long double x = (long double)(h[i].time - h[0].time), y = h[i].value;
    sx += x, sy += y, sxx += x * x, sxy += x * y;
  }
  long double d = 4 * sxx - sx * sx;
  long double m = (4 * sxy - sx * sy) / d, n = (sxx * sy - sxy * sx) / d;
  u64 avg = (u64)((double)(h[3].time - h[0].time) / 3);
  return n - m * (long double)avg;
}

bool near(double a, double b, double tol) {
  // next to zero there is less precision, or none after a square
  return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol + 1e-150;
}

}  // namespace

map<string, vector<Exp>> ModelOp::step(const map<string, PortMsgs>& in) {
  map<string, vector<Exp>> out;
  mustThrow = mayThrow = false;
  auto one = [&](const Msg& m, double v, double tol) { out["o1"].push_back({m.time, v, tol}); };
  static const PortMsgs none;
  auto got = [&](const string& p) -> const PortMsgs& {
    auto it = in.find(p);
    return it == in.end() ? none : it->second;
  };
  for (auto& [p, v] : in)
    for (auto& m : v)
      if (!std::isfinite(m.value) || std::fabs(m.value) > 1e120) broken = true;
  if (broken || opaque) return {};

  if (type == "Input") {
    for (size_t i = 0; i < ports.in.size(); i++)
      for (auto& m : got(ports.in[i])) {
        auto& g = gate[ports.in[i]];
        if (g && m.time <= *g) continue;
        g = m.time;
        out[ports.out[i]].push_back({m.time, m.value, 0});
      }
    return out;
  }
  if (type == "Output") {
    for (size_t i = 0; i < ports.in.size(); i++)
      for (auto& m : got(ports.in[i])) out[ports.out[i]].push_back({m.time, m.value, 0});
    return out;
  }
  if (ports.in.size() > 1 && ports.ctrl.empty()) {  // synchronizing operators
    for (auto& p : ports.in)
      for (auto& m : got(p)) q[p].push_back(m);
    for (;;) {
      u64 latest = 0;
      bool empty = false;
      for (auto& p : ports.in) {
        if (q[p].empty()) {
          empty = true;
          break;
        }
        latest = std::max(latest, q[p].front().time);
      }
      if (empty) break;
      bool all = true;
      for (auto& p : ports.in) {
        while (!q[p].empty() && q[p].front().time < latest) q[p].pop_front();
        if (q[p].empty() || q[p].front().time != latest) all = false;
      }
      if (!all) continue;
      vector<double> x;
      for (auto& p : ports.in) x.push_back(q[p].front().value), q[p].pop_front();
      Msg m(latest, 0);
      auto rel = [](double v) { return std::fabs(v) * 1e-12; };
      if (type == "Join")
        for (size_t i = 0; i < x.size(); i++) out[ports.out[i]].push_back({latest, x[i], 0});
      else if (type == "Plus")
        one(m, x[0] + x[1], rel(std::max(std::fabs(x[0]), std::fabs(x[1]))));
      else if (type == "Minus")
        one(m, x[0] - x[1], rel(std::max(std::fabs(x[0]), std::fabs(x[1]))));
      else if (type == "Multiplication")
        one(m, x[0] * x[1], rel(x[0] * x[1]));
      else if (type == "Division") {
        if (x[1] != 0) one(m, x[0] / x[1], rel(x[0] / x[1]));
      } else if (type == "And")
        one(m, x[0] >= 0.5 && x[1] >= 0.5 ? 1 : 0, 0);
      else if (type == "Or")
        one(m, x[0] >= 0.5 || x[1] >= 0.5 ? 1 : 0, 0);
      else if (type == "GreaterThanStream") {
        if (x[0] > x[1]) one(m, x[0], 0);
      } else if (type == "LessThanStream") {
        if (x[0] < x[1]) one(m, x[0], 0);
      } else if (type == "Linear") {
        long double s = 0;
        double mag = 0;
        for (size_t i = 0; i < x.size(); i++) {
          double c = def["coeff"][i];
          s += (long double)c * x[i], mag += std::fabs(c * x[i]);
        }
        one(m, (double)s, mag * 1e-12);
      } else
        opaque = true;
    }
    return out;
  }
  if (type == "Demultiplexer") {
    for (auto& [p, v] : in)
      for (auto& m : v) q[p].push_back(m);
    auto& d = q["i1"];
    bool routed = false;
    while (!d.empty()) {
      bool all = true;
      for (auto& c : ports.ctrl) {
        while (!q[c].empty() && q[c].front().time < d.front().time) q[c].pop_front();
        if (q[c].empty())
          all = false;
        else if (q[c].front().time != d.front().time || (q[c].front().value != 0 && q[c].front().value != 1)) {
          mayThrow = true;
        }
      }
      if (mayThrow) {
        bool spoken = true;
        for (auto& c : ports.ctrl)
          if (q[c].empty()) spoken = false;
        mustThrow = spoken && !routed;  // one message is routed per arrival: the next one may report it
        break;
      }
      if (!all) break;
      for (size_t i = 0; i < ports.ctrl.size(); i++) {
        if (q[ports.ctrl[i]].front().value == 1) out[ports.out[i]].push_back({d.front().time, d.front().value, 0});
        q[ports.ctrl[i]].pop_front();
      }
      d.pop_front();
      routed = true;
    }
    return out;
  }
  if (type == "Variable") {
    // the order of definitions and queries within one call is not visible here: a query that a newer one may have
    // replaced before it became answerable is optional
    auto& h = hist["i1"];
    u64 before = h.empty() ? 0 : h.back().time;
    bool hadDef = !h.empty();
    for (auto& m : got("i1")) h.push_back(m);
    vector<Msg> qs;
    if (pendingQuery) qs.push_back(*pendingQuery);
    for (auto& m : got("c1")) qs.push_back(m);
    pendingQuery.reset();
    for (size_t i = 0; i < qs.size(); i++) {
      u64 t = qs[i].time;
      if (h.empty() || h.back().time < t) {
        if (i + 1 == qs.size()) pendingQuery = qs[i];
        continue;
      }
      double v = def.value("value", 0.0);
      auto it = std::upper_bound(h.begin(), h.end(), t, [](u64 a, const Msg& m) { return a < m.time; });
      if (it != h.begin()) v = std::prev(it)->value;
      bool optional = i + 1 < qs.size() && !(hadDef && before >= t);
      out["o1"].push_back({t, v, 0, optional});
    }
    return out;
  }

  auto& h = hist["i1"];
  for (auto& m : got("i1")) {
    h.push_back(m);
    double x = m.value;
    maxAbs = std::max(maxAbs, std::fabs(x));
    size_t k = h.size();
    if (type == "Identity")
      one(m, x, 0);
    else if (type == "Scale") {
      double v = x * def["value"].get<double>();
      one(m, v, std::fabs(v) * 1e-12);
    } else if (type == "Add") {
      double c = def["value"];
      one(m, x + c, (std::fabs(x) + std::fabs(c)) * 1e-13);
    } else if (type == "Constant")
      one(m, def["value"].get<double>(), 0);
    else if (type == "Power") {
      double v = std::pow(x, def["value"].get<double>());
      one(m, v, std::fabs(v) * 1e-12);
      if (!std::isfinite(v)) broken = true;
    } else if (type == "GreaterThan") {
      if (x > def["value"].get<double>()) one(m, x, 0);
    } else if (type == "LessThan") {
      if (x < def["value"].get<double>()) one(m, x, 0);
    } else if (type == "EqualTo") {
      if (x == def["value"].get<double>()) one(m, x, 0);
    } else if (type == "Count")
      one(m, (double)k, 0);
    else if (type == "CumulativeSum") {
      sum += x;
      maxSum = std::max(maxSum, (double)fabsl(sum));
      one(m, (double)sum, std::max(maxAbs, maxSum) * (1e-15 * (k + 4)));
    } else if (type == "MovingAverage" || type == "StandardDeviation") {
      size_t n = def["n"];
      if (k < n) continue;
      long double s = 0;
      for (size_t i = k - n; i < k; i++) s += h[i].value;
      s /= n;
      double tol = maxAbs * (1e-15 * (k + 10));
      if (type == "MovingAverage")
        one(m, (double)s, tol);
      else {
        long double d = 0;
        for (size_t i = k - n; i < k; i++) d += (h[i].value - s) * (h[i].value - s);
        one(m, (double)sqrtl(d / (n - 1)), tol * 4);
      }
    } else if (type == "FiniteImpulseResponse") {
      auto& c = def["coeff"];
      size_t n = c.size();
      if (k < n) continue;
      long double s = 0;
      double mag = 0;
      for (size_t i = 0; i < n; i++) {
        long double t = (long double)c[i].get<double>() * h[k - 1 - i].value;
        s += t, mag += (double)fabsl(t);
      }
      one(m, (double)s, mag * 1e-12);
    } else if (type == "PeakDetector") {
      size_t n = def["n"];
      if (k < n) continue;
      const Msg& mid = h[k - n + n / 2];
      bool peak = true;
      for (size_t i = k - n; i < k; i++)
        if (h[i].value > mid.value) peak = false;
      if (peak) one(mid, mid.value, 0);
    } else if (type == "Difference") {
      if (k < 2) continue;
      // stamped with the newer of the two, unless configured otherwise (native interface only)
      one(def.value("useOldestTime", true) ? m : h[k - 2], x - h[k - 2].value, maxAbs * 1e-15);
    } else if (type == "RelativeStrengthIndex") {
      size_t n = def["n"];
      if (k < n + 1) continue;
      auto split = [&](size_t i, long double& g, long double& l) {
        double d = h[i].value - h[i - 1].value;
        if (d > 0) g += d;
        if (d < 0) l -= d;
      };
      if (k == n + 1) {
        gain = loss = 0;
        for (size_t i = 1; i <= n; i++) split(i, gain, loss);
        gain /= n, loss /= n;
      } else {
        long double g = 0, l = 0;
        split(k - 1, g, l);
        gain = (gain * (n - 1) + g) / n;
        loss = (loss * (n - 1) + l) / n;
      }
      double v = loss > 0 ? (double)(100 - 100 / (1 + gain / loss)) : 100;
      // a ratio of two numbers that have almost vanished is not determined
      one(m, v, gain + loss < 1e-250 ? 100 : 1e-9);
    } else if (type == "AutoRegressive") {
      // the boundary condition is zero before the first message
      auto& c = def["coeff"];
      long n = (long)c.size();
      long double s = x;
      double mag = std::fabs(x);
      long seen = (long)own.size() + (long)out["o1"].size();
      for (long i = 0; i < n; i++) {
        long j = seen - n + i;
        double y = j < 0 ? 0 : j < (long)own.size() ? own[j].value : out["o1"][j - own.size()].v;
        s += (long double)c[i].get<double>() * y, mag += std::fabs(c[i].get<double>() * y);
      }
      one(m, (double)s, mag * 1e-12);
    } else if (type == "TimeShift") {
      int64_t shift = def.value("dt", (int64_t)1) * (int64_t)def.value("times", 1);
      Msg o = m;
      if (shift < 0 && m.time <= (u64)-shift)
        o.time = 0;
      else
        o.time = m.time + (u64)shift;
      one(o, x, 0);
    } else if (type == "Function") {
      vector<pair<double, double>> p;
      for (auto& a : def["points"]) p.push_back({a[0], a[1]});
      std::sort(p.begin(), p.end());
      size_t n = p.size(), i = 0;
      while (i + 2 < n && x >= p[i + 1].first) i++;
      long double dx = p[i + 1].first - p[i].first, dy = p[i + 1].second - p[i].second, mu = (x - p[i].first) / dx;
      double top = 0;
      for (auto& a : p) top = std::max(top, std::fabs(a.second));
      if (def.value("interpolationType", "linear") == string("linear")) {
        long double v = p[i].second + dy * mu;
        one(m, (double)v, (double)(top * (2 + fabsl(mu))) * 1e-12);
      } else {
        auto slope = [&](size_t a) -> long double {
          size_t lo = a ? a - 1 : 0, hi = std::min(a + 1, n - 1);
          return ((long double)p[hi].second - p[lo].second) / ((long double)p[hi].first - p[lo].first);
        };
        long double m0 = slope(i), m1 = slope(i + 1), mu2 = mu * mu, mu3 = mu2 * mu;
        long double t[4] = {(2 * mu3 - 3 * mu2 + 1) * p[i].second, (mu3 - 2 * mu2 + mu) * m0,
                            (-2 * mu3 + 3 * mu2) * p[i + 1].second, (mu3 - mu2) * m1};
        long double a = 1 + fabsl(mu);
        long double bound = a * a * a * 3 * (2 * top + fabsl(m0) + fabsl(m1));
        one(m, (double)(t[0] + t[1] + t[2] + t[3]), (double)bound * 1e-12);
      }
    } else if (type == "ConstantResampler") {
      u64 dt = def["interval"];
      if (k == 1) {
        grid = m.time + dt;
        continue;
      }
      for (; *grid <= m.time; *grid += dt) {
        double v = *grid == m.time ? x : h[k - 2].value;
        out["o1"].push_back({*grid, v, 0});
      }
    } else if (type == "CosineResampler") {
      u64 dt = def["dt"];
      if (k == 1) {
        grid = m.time + dt;
        continue;
      }
      for (; *grid <= m.time; *grid += dt)
        out["o1"].push_back({*grid, (double)cosineAt(h[k - 2], h[k - 1], *grid),
                             (std::fabs(h[k - 2].value) + std::fabs(x)) * 1e-9});
    } else if (type == "HermiteResampler") {
      // interpolation needs two inputs on either side, so the grid is covered up to the last but one input
      u64 dt = def["dt"];
      if (k == 1) grid = m.time + dt;
      if (k < 4) continue;
      long double lead = k == 4 ? leadingPoint(h) : 0;
      for (size_t i = k == 4 ? 0 : k - 3; i + 2 < k; i++)
        for (; *grid <= h[i + 1].time; *grid += dt) {
          long double y0 = i ? h[i - 1].value : lead;
          long double mu = (long double)(*grid - h[i].time) / (long double)(h[i + 1].time - h[i].time);
          double mag = (double)fabsl(y0) + std::fabs(h[i].value) + std::fabs(h[i + 1].value) + std::fabs(h[i + 2].value);
          if (!i) mag += 10 * maxAbs;
          out["o1"].push_back({*grid, (double)hermite(y0, h[i].value, h[i + 1].value, h[i + 2].value, mu), mag * 1e-9});
        }
    } else {
      opaque = true;
    }
  }
  return out;
}

ModelProgram::ModelProgram(const json& d) : def(d) {
  entry = def.at("entryOperator");
  conns = connsOf(def);
  for (auto& o : def.at("operators")) {
    ModelOp m;
    m.def = o, m.id = o.at("id"), m.type = o.at("type"), m.ports = portsOf(o);
    m.opaque = m.type == "Pipeline";
    index[m.id] = ops.size();
    ops.push_back(m);
  }
  // which operators lie behind a time shift (pipelines: look inside)
  std::function<void(const json&, bool&, bool&)> look = [&](const json& o, bool& s, bool& c) {
    if (o["type"] == "TimeShift") {
      s = true;
      if (o.value("dt", (int64_t)1) * (int64_t)o.value("times", 1) < 0) c = true;
    }
    if (o["type"] == "Pipeline")
      for (auto& i : o["prog"]["operators"]) look(i, s, c);
  };
  for (auto& o : ops) {
    bool s = false, c = false;
    look(o.def, s, c);
    shifted[o.id] = s, clamped[o.id] = c;
  }
  for (size_t i = 0; i < ops.size(); i++)
    for (auto& c : conns)
      if (shifted[c.from]) shifted[c.to] = true, clamped[c.to] = clamped[c.to] || clamped[c.from];
}

static string show(const vector<Exp>& v) {
  string s;
  for (size_t i = 0; i < v.size() && i < 12; i++) {
    char b[80];
    snprintf(b, sizeof b, " %llu:%.17g%s", (unsigned long long)v[i].t, v[i].v, v[i].optional ? "?" : "");
    s += b;
  }
  return "[" + s + " ]" + (v.size() > 12 ? "..." + std::to_string(v.size()) : "");
}
static string show(const PortMsgs& v) {
  string s;
  for (size_t i = 0; i < v.size() && i < 12; i++) {
    char b[80];
    snprintf(b, sizeof b, " %llu:%.17g", (unsigned long long)v[i].time, v[i].value);
    s += b;
  }
  return "[" + s + " ]" + (v.size() > 12 ? "..." + std::to_string(v.size()) : "");
}

std::optional<Violation> ModelProgram::call(const OpMsgs& in, const ProgMsgs& res, const Opts& o) {
  count(C_MODEL_STEPS);
  static const OpMsgs noOps;
  static const PortMsgs noMsgs;
  auto emitted = [&](const string& op, const string& port) -> const PortMsgs& {
    auto a = res.find(op);
    if (a == res.end()) return noMsgs;
    auto b = a->second.find(port);
    return b == a->second.end() ? noMsgs : b->second;
  };
  // nothing but the operators and ports of the program may appear
  if (o.ops)
    for (auto& [op, pm] : res) {
      if (!index.count(op)) return Violation{"unknown operator in result", op};
      auto& outs = ops[index[op]].ports.out;
      for (auto& [port, v] : pm)
        if (std::find(outs.begin(), outs.end(), port) == outs.end()) return Violation{"unknown port in result", op + ":" + port};
    }
  for (auto& [port, v] : in)
    for (auto& m : v) maxAdmitted = std::max(maxAdmitted, m.time);
  std::optional<Violation> bad;
  for (auto& op : ops) {
    map<string, PortMsgs> rx;
    if (op.id == entry)
      rx = in;
    else
      for (auto& c : conns)
        if (c.to == op.id) {
          auto& v = emitted(c.from, c.fromPort);
          if (!v.empty()) rx[c.toPort] = v;
        }
    for (auto& [p, v] : rx) count(C_MODEL_MSGS, v.size());
    auto exp = op.step(rx);
    static const OpMsgs nothing;
    auto a = res.find(op.id);
    const OpMsgs& act = a == res.end() ? nothing : a->second;
    bool judge = o.ops && !op.opaque && !op.broken && (o.types.empty() || o.types.count(op.type));
    if (op.broken) abandoned = true;
    if (judge && !op.mayThrow) {
      for (auto& port : op.ports.out) {
        auto& e = exp[port];
        auto& g = emitted(op.id, port);
        size_t j = 0;
        bool ok = true, valueOnly = false;
        string first;
        for (size_t i = 0; ok && i < e.size(); i++) {
          bool match = j < g.size() && g[j].time == e[i].t;
          if (!match && e[i].optional) continue;
          if (!match)
            ok = false;
          else {
            // (a negated comparison, so that a NaN is a mismatch)
            if (o.values && !near(g[j].value, e[i].v, e[i].tol)) ok = false, valueOnly = true, first = "; first: " + show(vector<Exp>{e[i]}) + " / " + show(PortMsgs{g[j]});
            j++;
          }
        }
        if (ok && j != g.size()) ok = false;
        if (!ok && !bad)
          bad = Violation{string(valueOnly ? "wrong value from " : "wrong messages from ") + op.type,
                          op.id + ":" + port + " expected " + show(e) + " got " + show(g) + first};
      }
    }
    if (op.mustThrow && judge && !bad) bad = Violation{"missing error from " + op.type, op.id};
    op.observed(act);
    if (o.order) {
      for (auto& [port, v] : act)
        for (auto& m : v) {
          auto& l = lastOut[op.id];
          if (!clamped[op.id] && l.count(port) && m.time <= l[port] && !bad)
            bad = Violation{"timestamps do not increase",
                            op.type + " " + op.id + ":" + port + " " + std::to_string(m.time) + " after " + std::to_string(l[port])};
          l[port] = m.time;
          if (!shifted[op.id] && m.time > maxAdmitted && !bad)
            bad = Violation{"timestamp from the future",
                            op.type + " " + op.id + ":" + port + " " + std::to_string(m.time) + " > " + std::to_string(maxAdmitted)};
        }
    }
    if (bad) return bad;
  }
  return bad;
}
