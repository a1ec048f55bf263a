#include "host.h"

#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <new>
#include <stdexcept>

#include "rtbot/bindings.h"

OpMsgs msgsOf(const json& m) {
  OpMsgs r;
  for (auto& [port, v] : m.items()) {
    auto& l = r[port];
    for (auto& x : v) l.push_back(Msg(x[0].get<u64>(), x[1].get<double>()));
  }
  return r;
}
size_t countMsgs(const OpMsgs& m) {
  size_t n = 0;
  for (auto& [p, v] : m) n += v.size();
  return n;
}
ProgMsgs normalized(const ProgMsgs& r) {
  ProgMsgs o;
  for (auto& [op, pm] : r)
    for (auto& [p, v] : pm)
      if (!v.empty()) o[op][p] = v;
  return o;
}
bool sameMsg(const Msg& a, const Msg& b) {
  if (a.time != b.time) return false;
  // the text interface writes every value that is not finite as null
  if (!std::isfinite(a.value) && !std::isfinite(b.value)) return a.value == b.value || std::isnan(a.value) || std::isnan(b.value);
  return memcmp(&a.value, &b.value, 8) == 0;
}
bool same(const ProgMsgs& a0, const ProgMsgs& b0) {
  ProgMsgs a = normalized(a0), b = normalized(b0);
  if (a.size() != b.size()) return false;
  for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) {
    if (i->first != j->first || i->second.size() != j->second.size()) return false;
    for (auto k = i->second.begin(), l = j->second.begin(); k != i->second.end(); ++k, ++l) {
      if (k->first != l->first || k->second.size() != l->second.size()) return false;
      for (size_t n = 0; n < k->second.size(); n++)
        if (!sameMsg(k->second[n], l->second[n])) return false;
    }
  }
  return true;
}
string show(const ProgMsgs& r) {
  string s = "{";
  size_t n = 0;
  for (auto& [op, pm] : normalized(r))
    for (auto& [p, v] : pm) {
      s += " " + op + ":" + p + "[";
      for (auto& m : v) {
        if (n++ > 40) return s + "...";
        char b[64];
        snprintf(b, sizeof b, "%s%llu:%.17g", s.back() == '[' ? "" : " ", (unsigned long long)m.time, m.value);
        s += b;
      }
      s += "]";
    }
  return s + " }";
}
void hashObs(Hash& h, const Obs& o) {
  h.u(o.st);
  for (auto& [op, pm] : normalized(o.res)) {
    h.str(op);
    for (auto& [p, v] : pm) {
      h.str(p);
      for (auto& m : v) {
        h.u(m.time);
        double d = std::isnan(m.value) ? NAN : m.value;
        h.add(&d, 8);
      }
    }
  }
  h.u(o.bytes.size());
  h.add(o.bytes.data(), o.bytes.size());
}
vector<json> stepsOf(const json& trace) {
  vector<json> v;
  for (auto& s : trace.at("steps")) v.push_back(s);
  return v;
}

ProgMsgs parseResult(const string& text) {
  ProgMsgs r;
  json j = json::parse(text);
  if (j.is_null()) return r;
  for (auto& [op, pm] : j.items())
    for (auto& [p, v] : pm.items())
      for (auto& m : v) {
        // exact 64-bit times: the text must carry an unsigned integer
        if (!m.at("time").is_number_unsigned()) throw std::logic_error("time is not an unsigned integer: " + m.dump());
        r[op][p].push_back(Msg(m.at("time").get<u64>(), m.at("value").is_null() ? NAN : m.at("value").get<double>()));
      }
  return r;
}

Obs Host::guarded(const std::function<void(Obs&)>& f) {
  Obs o;
  long k = armOom;
  armOom = 0;
  if (k) count(C_OOM_ARMED);
  try {
    sim_alloc_arm(k);
    f(o);
    o.allocs = sim_alloc_count();
    sim_alloc_arm(0);
  } catch (const std::bad_alloc&) {
    sim_alloc_arm(0);
    o = Obs();
    o.st = 2, o.ret = "bad_alloc";
    count(C_OOM_FIRED);
  } catch (const std::exception& e) {
    sim_alloc_arm(0);
    o = Obs();
    o.st = 1, o.ret = e.what();
    count(C_THROWS);
  } catch (...) {
    sim_alloc_arm(0);
    o = Obs();
    o.st = 1, o.ret = "unknown exception";
    count(C_THROWS);
  }
  for (auto& [op, pm] : o.res)
    for (auto& [p, v] : pm) count(C_EMISSIONS, v.size());
  return o;
}

// calls a function of the text interface by the name under which one of the modules exports it
string Host::exported(const char* name, const std::vector<glue::Arg>& args) {
  auto& t = via == 1 ? glue::python() : glue::javascript();
  auto it = t.find(name);
  if (it == t.end()) throw std::runtime_error(string("the module for ") + (via == 1 ? "Python" : "JavaScript") + " has no function " + name);
  count(C_CALLS_MODULE);
  return it->second(args);
}
static bool refused(const string& ret) { return !ret.empty(); }

Obs Host::create(const string& id, const string& def) {
  count(C_CREATES);
  return guarded([&](Obs& o) {
    o.ret = via ? exported("createProgram", {id, def}) : text ? ::createProgram(id, def) : reg->createProgram(id, def);
    if (refused(o.ret)) o.st = 1, count(C_BAD_CREATES);
  });
}
Obs Host::createFrom(const string& id, const Bytes& b) {
  return guarded([&](Obs& o) {
    if (text)
      ::createProgram(id, b);
    else
      reg->createProgram(id, b);
  });
}
Obs Host::del(const string& id) {
  count(C_DELETES);
  return guarded([&](Obs& o) {
    bool ok = via ? exported("deleteProgram", {id}) == "1" : text ? ::deleteProgram(id) == "1" : reg->deleteProgram(id);
    o.ret = ok ? "1" : "0";
  });
}
Obs Host::snap(const string& id) {
  count(C_SNAPSHOTS);
  return guarded([&](Obs& o) { o.bytes = text ? ::serializeProgram(id) : reg->serialize(id); });
}
Obs Host::call(const string& id, const OpMsgs& m, bool dbg) {
  count(C_CALLS);
  size_t n = countMsgs(m);
  count(C_MSGS, n);
  if (n > 1) count(C_BATCHES);
  if (dbg) count(C_CALLS_DEBUG);
  if (text) {
    count(C_CALLS_TEXT);
    vector<uint64_t> t;
    vector<double> v;
    vector<string> ports;
    for (auto& [p, l] : m)
      for (auto& x : l) t.push_back(x.time), v.push_back(x.value), ports.push_back(p);
    if (mix) {  // ports in turns, the messages of one port in order
      vector<size_t> turn(t.size()), at(t.size());
      map<string, size_t> seen;
      for (size_t i = 0; i < t.size(); i++) turn[i] = seen[ports[i]]++, at[i] = i;
      std::stable_sort(at.begin(), at.end(), [&](size_t a, size_t b) { return turn[a] < turn[b]; });
      auto t0 = t;
      auto v0 = v;
      auto p0 = ports;
      for (size_t i = 0; i < at.size(); i++) t[i] = t0[at[i]], v[i] = v0[at[i]], ports[i] = p0[at[i]];
    }
    bool js = via == 2;  // which takes times of 32 bits in batches
    for (auto x : t) js = js && x < (1ull << 32);
    if (uneven) {
      if (t.size() % 3 == 0) t.push_back(t.empty() ? 1 : t.back());
      else if (t.size() % 3 == 1) v.pop_back();
      else ports.pop_back();
    }
    string out;
    Obs o = guarded([&](Obs& o) {
      if (js) out = exported(dbg ? "processBatchDebug" : "processBatch", {id, t, v, ports});
      else if (wholeMap && !uneven) out = dbg ? ::processMessageMapDebug(id, m) : ::processMessageMap(id, m);
      else out = dbg ? ::processBatchDebug(id, t, v, ports) : ::processBatch(id, t, v, ports);
    });
    if (o.st == 0) o.res = parseResult(out), o.ret = out;
    return o;
  }
  return guarded([&](Obs& o) { o.res = dbg ? reg->processMessageMapDebug(id, m) : reg->processMessageMap(id, m); });
}
Obs Host::buf(const string& id, const string& port, Msg m) {
  count(C_BUFFERED);
  return guarded([&](Obs& o) {
    if (via)
      o.ret = exported("addToMessageBuffer", {id, port, (u64)m.time, m.value});
    else if (text)
      o.ret = ::addToMessageBuffer(id, port, m.time, m.value);
    else
      o.ret = reg->addToMessageBuffer(id, port, m) ? "1" : "0";
  });
}
Obs Host::flush(const string& id, bool dbg) {
  count(C_FLUSHES);
  if (text) {
    count(C_CALLS_TEXT);
    string out;
    Obs o = guarded([&](Obs& o) { out = via ? exported(dbg ? "processMessageBufferDebug" : "processMessageBuffer", {id}) : dbg ? ::processMessageBufferDebug(id) : ::processMessageBuffer(id); });
    if (o.st == 0) o.res = parseResult(out), o.ret = out;
    return o;
  }
  return guarded([&](Obs& o) { o.res = dbg ? reg->processMessageBufferDebug(id) : reg->processMessageBuffer(id); });
}

Obs Host::step(const json& s) {
  string op = s.at("op");
  int p = s.value("p", 0);
  string id = s.contains("id") ? s["id"].get<string>() : p < (int)ids.size() ? ids[p] : "?";
  bool dbg = s.value("dbg", true);
  armOom = s.value("oom", 0);
  mix = s.value("mix", false), wholeMap = s.value("map", false), uneven = op == "uneven";
  if (op == "call" || op == "uneven") return call(id, msgsOf(s.at("m")), dbg);
  if (op == "buf") return buf(id, s.at("port"), Msg(s.at("t").get<u64>(), s.at("v").get<double>()));
  if (op == "flush") return flush(id, dbg);
  if (op == "create") {
    Obs o = create(id, s.contains("def") ? (s["def"].is_string() ? s["def"].get<string>() : s["def"].dump()) : defs.at(p));
    if (o.st == 0) live[id] = true;
    return o;
  }
  if (op == "createb") {
    auto it = slots.find(s.at("slot").dump());
    Obs o;
    if (it == slots.end()) {
      o.st = 3;
      return o;
    }
    o = createFrom(id, it->second);
    if (o.st == 0) live[id] = true;
    return o;
  }
  if (op == "del") {
    Obs o = del(id);
    live.erase(id);
    return o;
  }
  if (op == "snap") {
    Obs o = snap(id);
    if (o.st == 0 && s.contains("slot")) slots[s["slot"].dump()] = o.bytes;
    return o;
  }
  if (op == "query")
    return guarded([&](Obs& o) {
      if (via)
        o.ret = exported("getProgramEntryOperatorId", {id}) + "\n" + exported("getProgramEntryPorts", {id}) + "\n" + exported("getProgramOutputFilter", {id});
      else if (text)
        o.ret = ::getProgramEntryOperatorId(id) + "\n" + ::getProgramEntryPorts(id) + "\n" + ::getProgramOutputFilter(id);
      else
        o.ret = reg->getProgramEntryOperatorId(id) + "\n" + json(reg->getProgramEntryPorts(id)).dump() + "\n" +
                json(reg->getProgramOutputFilter(id)).dump();
    });
  if (op == "resnap") {  // snapshot, restore it under another id, snapshot that
    Obs o = snap(id);
    if (o.st) return o;
    Obs c = createFrom("@tmp", o.bytes);
    if (c.st) return c;
    Obs o2 = snap("@tmp");
    del("@tmp");
    if (o2.st) return o2;
    o.bytes2 = o2.bytes;
    return o;
  }
  if (op == "hop") {  // graceful restart of one program
    if (!live.count(id)) return Obs();
    count(C_RESTARTS);
    Obs o = snap(id);
    if (o.st) return o;
    del(id);
    Obs c = createFrom(id, o.bytes);
    o.st = c.st, o.ret = c.ret;
    if (o.st) live.erase(id);
    return o;
  }
  if (op == "crash") {  // the whole host restarts
    count(C_CRASHES);
    map<string, Bytes> b;
    Obs last;
    for (auto& [i, l] : live) {
      last = snap(i);
      if (last.st) return last;
      b[i] = last.bytes;
    }
    if (text)
      for (auto& [i, x] : b) del(i);
    else
      reg.reset(new rtbot::FactoryOp());
    for (auto& [i, x] : b) {
      last = createFrom(i, x);
      if (last.st) return last;
    }
    Obs o;
    return o;
  }
  if (op == "restore") {  // drop the program, go back to a snapshot (or to the start)
    count(C_RESTARTS);
    del(id);
    auto it = slots.find(s.value("slot", json()).dump());
    Obs o = it == slots.end() ? create(id, defs.at(p)) : createFrom(id, it->second);
    if (o.st == 0) live[id] = true;
    else live.erase(id);
    return o;
  }
  throw std::logic_error("unknown step " + op);
}

// --- passes ---

namespace {
struct Out {
  string b;
  void u(u64 x) { b.append((char*)&x, 8); }
  void s(const string& x) { u(x.size()), b += x; }
  void by(const Bytes& x) { u(x.size()), b.append((const char*)x.data(), x.size()); }
};
struct In {
  const string& b;
  size_t i = 0;
  void need(size_t n) {
    if (i + n > b.size()) throw std::logic_error("short read from a simulated process");
  }
  u64 u() {
    need(8);
    u64 x;
    memcpy(&x, b.data() + i, 8);
    i += 8;
    return x;
  }
  string s() {
    u64 n = u();
    need(n);
    string r = b.substr(i, n);
    i += n;
    return r;
  }
  Bytes by() {
    string r = s();
    return Bytes(r.begin(), r.end());
  }
};
void put(Out& o, const Obs& x) {
  o.u(x.st), o.s(x.ret), o.by(x.bytes), o.by(x.bytes2), o.u(x.allocs), o.u(x.res.size());
  for (auto& [op, pm] : x.res) {
    o.s(op), o.u(pm.size());
    for (auto& [p, v] : pm) {
      o.s(p), o.u(v.size());
      for (auto& m : v) {
        u64 d;
        memcpy(&d, &m.value, 8);
        o.u(m.time), o.u(d);
      }
    }
  }
}
Obs get(In& i) {
  Obs x;
  x.st = (int)i.u(), x.ret = i.s(), x.bytes = i.by(), x.bytes2 = i.by(), x.allocs = (long)i.u();
  for (u64 n = i.u(); n; n--) {
    string op = i.s();
    auto& pm = x.res[op];
    for (u64 k = i.u(); k; k--) {
      string p = i.s();
      auto& v = pm[p];
      for (u64 l = i.u(); l; l--) {
        u64 t = i.u(), d = i.u();
        double y;
        memcpy(&y, &d, 8);
        v.push_back(Msg(t, y));
      }
    }
  }
  return x;
}

// runs f in a process of its own; its output comes back
string inChild(const std::function<string()>& f) {
  int fd[2];
  if (pipe(fd)) throw std::logic_error("pipe");
  pid_t pid = fork();
  if (pid < 0) throw std::logic_error("fork");
  if (pid == 0) {
    close(fd[0]);
    string o = f();
    size_t k = 0;
    while (k < o.size()) {
      ssize_t n = write(fd[1], o.data() + k, o.size() - k);
      if (n <= 0) _exit(3);
      k += (size_t)n;
    }
    close(fd[1]);
    _exit(0);
  }
  close(fd[1]);
  string o;
  char buf[65536];
  for (;;) {
    ssize_t n = read(fd[0], buf, sizeof buf);
    if (n <= 0) break;
    o.append(buf, (size_t)n);
  }
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) {  // die the same way, the runner sees it
    signal(WTERMSIG(st), SIG_DFL);
    raise(WTERMSIG(st));
    _exit(3);
  }
  if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
  return o;
}

void setup(Host& h, const json& trace, const PassOpts& o) {
  h.text = o.text;
  h.through(o.via);
  for (auto& p : trace.at("progs")) {
    h.ids.push_back(p.at("id"));
    h.defs.push_back(p.at("def").is_string() ? p["def"].get<string>() : p.at("def").dump(trace.value("indent", -1)));
  }
}
}  // namespace

vector<Obs> runPass(const json& trace, const vector<json>& steps, const PassOpts& o) {
  if (o.forked) {
    PassOpts p = o;
    p.forked = false;
    string s = inChild([&] {
      Out out;
      auto v = runPass(trace, steps, p);
      for (auto& x : v) put(out, x);
      return out.b;
    });
    vector<Obs> r;
    In in{s};
    for (size_t i = 0; i < steps.size(); i++) r.push_back(get(in));
    return r;
  }
  auto one = [&](Host& h, const json& s) {
    if (o.debugAll && (s["op"] == "call" || s["op"] == "flush")) {
      json t = s;
      t["dbg"] = true;
      return h.step(t);
    }
    return h.step(s);
  };
  auto createAll = [&](Host& h) {
    if (o.create)
      for (size_t i = 0; i < h.ids.size(); i++)
        if (o.only < 0 || o.only == (int)i) {
          Obs c = h.create(h.ids[i], h.defs[i]);
          if (c.st == 0) h.live[h.ids[i]] = true;
          if (c.st) throw std::runtime_error("valid program refused: " + c.ret);
        }
  };
  vector<Obs> r;
  if (!o.iso) {
    sim_alloc_reset(o.poison);
    Host h;
    setup(h, trace, o);
    createAll(h);
    for (auto& s : steps) r.push_back(one(h, s));
    if (h.text)
      for (auto& [i, l] : map<string, bool>(h.live)) h.del(i);
    return r;
  }
  // every crash ends a process: segments run in processes of their own, only snapshots get across
  size_t pos = 0;
  map<string, Bytes> carry, slots;
  bool first = true;
  while (pos < steps.size() || first) {
    size_t end = pos;
    while (end < steps.size() && steps[end]["op"] != "crash") end++;
    bool crash = end < steps.size();
    string s = inChild([&] {
      sim_alloc_reset(o.poison + pos);
      Host h;
      setup(h, trace, o);
      Out out;
      if (first)
        createAll(h);
      else
        for (auto& [id, b] : carry) {
          Obs c = h.createFrom(id, b);
          if (c.st) throw std::runtime_error("snapshot refused: " + c.ret);
          h.live[id] = true;
        }
      h.slots = slots;
      for (size_t i = pos; i < end; i++) put(out, one(h, steps[i]));
      if (crash) count(C_PROC_CRASHES);
      out.u(h.live.size());
      for (auto& [id, l] : h.live) out.s(id), out.by(h.snap(id).bytes);
      out.u(h.slots.size());
      for (auto& [k, b] : h.slots) out.s(k), out.by(b);
      return out.b;
    });
    In in{s};
    for (size_t i = pos; i < end; i++) r.push_back(get(in));
    if (crash) r.push_back(Obs());
    carry.clear(), slots.clear();
    for (u64 n = in.u(); n; n--) {
      string id = in.s();
      carry[id] = in.by();
    }
    for (u64 n = in.u(); n; n--) {
      string id = in.s();
      slots[id] = in.by();
    }
    first = false;
    pos = end + (crash ? 1 : 0);
  }
  return r;
}
