// The runner: many seeded runs in parallel, each in a process of its own; minimisation and replay; evidence.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>

#include "common.h"
#include "host.h"

const char* counterNames[C_N] = {
    "calls", "debug calls", "calls through the text interface", "calls by way of what the modules export", "messages buffered", "buffer flushes", "batches",
    "messages handed over", "messages emitted", "snapshots", "program restarts", "host restarts", "process crashes",
    "messages redelivered", "program creations", "refused creations", "deletions", "calls that threw",
    "allocation failures armed", "allocation failures injected", "messages lost", "messages duplicated",
    "messages reordered", "messages delayed beyond a tick", "gaps", "host stalls", "clock skews",
    "messages dropped by the gate", "calls judged by the model", "messages judged by the model", "twin comparisons",
    "snapshot comparisons", "runs left by the model", "pipelines", "operators", "selections of unknown operators",
    "simulated milliseconds", "truncations", "partitions"};
static u64 spare[C_N];
u64* counters = spare;

namespace {

double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// a set of 64-bit hashes shared by all processes
struct SharedSet {
  size_t cap;
  std::atomic<u64>* t;
  std::atomic<u64>* n;
  void init(size_t c) {
    cap = c;
    t = (std::atomic<u64>*)mmap(nullptr, (cap + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    n = t + cap;
  }
  void add(u64 h) {
    if (!h) h = 1;
    if (*n * 4 > cap * 3) return;  // full: the count is a lower bound from here
    for (size_t i = h % cap;; i = (i + 1) % cap) {
      u64 x = t[i].load();
      if (x == h) return;
      if (!x) {
        if (t[i].compare_exchange_strong(x, h)) {
          ++*n;
          return;
        }
        if (x == h) return;
      }
    }
  }
};
SharedSet states, histories;

enum Status { S_NONE, S_OK, S_VIOLATION, S_INTERNAL };
struct Slot {  // what a run reports
  int status;
  u64 hash;
  char kind[256];
  char detail[6000];
};
struct Found {
  std::atomic<int> used;
  u64 index;
  char kind[256];
  char detail[6000];
};
const int kFound = 64;
struct Shared {
  std::atomic<u64> next, done, twice, nontrivial, known;
  std::atomic<int> stop, internal, found;
  char internalText[2000];
  Found f[kFound];
};
Shared* sh;

template <class T>
T* shared(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) _exit(2);
  return (T*)p;
}
void put(char* d, size_t n, const string& s) {
  size_t k = std::min(n - 1, s.size());
  memcpy(d, s.data(), k);
  d[k] = 0;
}

#ifdef SIM_SANITIZED
const bool kSanitized = true;
const int kCpuSeconds = 90;
Slot* reportTo = nullptr;  // of the run that is going on
void reported(const string& what, const string& text) {
  if (!reportTo || reportTo->kind[0]) return;
  put(reportTo->kind, sizeof reportTo->kind, what), put(reportTo->detail, sizeof reportTo->detail, text);
}
#else
const bool kSanitized = false;
const int kCpuSeconds = 20;
#endif

void runBody(const json& trace, Slot* s) {
  Hash log;
#ifdef SIM_SANITIZED
  reportTo = s;
#endif
  try {
    auto v = execute(trace, log);
    sim_alloc_arm(0);
    s->hash = log.h;
    if (kSanitized) v.reset();  // what other properties demand is not asked here
    if (v) {
      put(s->kind, sizeof s->kind, v->kind), put(s->detail, sizeof s->detail, v->detail);
      s->status = S_VIOLATION;
    } else
      s->status = S_OK;
  } catch (const std::exception& e) {
    sim_alloc_arm(0);
    string w = e.what();
    if (kSanitized) {
      s->status = S_OK;
      return;
    }
    if (w.find("passes are not aligned") != string::npos) {
      put(s->detail, sizeof s->detail, w);
      s->status = S_INTERNAL;
      return;
    }
    put(s->kind, sizeof s->kind, "unexpected error"), put(s->detail, sizeof s->detail, w);
    s->status = S_VIOLATION;
  }
}

pid_t spawn(const std::function<void()>& f) {
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(2);
  }
  if (pid) return pid;
  rlimit l{kCpuSeconds, kCpuSeconds + 2};
  setrlimit(RLIMIT_CPU, &l);
  rlimit a{6ull << 30, 6ull << 30};
  if (!kSanitized) setrlimit(RLIMIT_AS, &a);
  rlimit c{0, 0};
  setrlimit(RLIMIT_CORE, &c);
  int fd = open("/dev/null", O_RDWR);
  dup2(fd, 1);
  if (!getenv("SIM_DEBUG")) dup2(fd, 2);
  f();
  _exit(0);
}
void settle(pid_t pid, Slot* s) {
  int st = 0;
  waitpid(pid, &st, 0);
  if (s->status == S_NONE && kSanitized && WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
    s->status = S_OK;
  } else if (s->status == S_NONE && kSanitized && s->kind[0]) {
    s->status = S_VIOLATION;
  } else if (s->status == S_NONE) {
    string k;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) k = "does not come to an end";
    else if (WIFSIGNALED(st)) k = "crash: signal " + std::to_string(WTERMSIG(st));
    else k = "the process ended: " + std::to_string(WEXITSTATUS(st));
    put(s->kind, sizeof s->kind, k), put(s->detail, sizeof s->detail, k);
    s->status = S_VIOLATION;
  }
}
void runForked(const json& trace, Slot* s) {
  s->status = S_NONE, s->kind[0] = s->detail[0] = 0, s->hash = 0;
  settle(spawn([&] { runBody(trace, s); }), s);
}

u64 runSeed(u64 seed, const string& prop, u64 index) {
  Hash h;
  h.str(prop);
  return mix64(mix64(seed) ^ mix64(h.h) ^ mix64(index * 2 + 1));
}

// ---------- minimisation ----------

struct Minimiser {
  string kind;
  double deadline;
  int tests = 0;
  Slot* slots = shared<Slot>(8);
  bool timeUp() { return now() > deadline; }
  // index of the first candidate that still fails the same way, or -1
  int firstFailing(const vector<json>& c) {
    for (size_t at = 0; at < c.size(); at += 8) {
      if (timeUp()) return -1;
      size_t n = std::min<size_t>(8, c.size() - at);
      vector<pid_t> pids;
      for (size_t i = 0; i < n; i++) {
        Slot* s = slots + i;
        s->status = S_NONE, s->kind[0] = 0;
        const json* t = &c[at + i];
        pids.push_back(spawn([=] { runBody(*t, s); }));
      }
      int hit = -1;
      for (size_t i = 0; i < n; i++) {
        settle(pids[i], slots + i);
        tests++;
        if (hit < 0 && slots[i].status == S_VIOLATION && kind == slots[i].kind) hit = (int)(at + i);
      }
      if (hit >= 0) return hit;
    }
    return -1;
  }
  // removes elements of a list as long as the failure stays
  template <class Make>
  void ddmin(size_t n, Make make, json& t) {
    vector<size_t> keep;
    for (size_t i = 0; i < n; i++) keep.push_back(i);
    size_t chunk = std::max<size_t>(1, n / 2);
    while (!keep.empty() && !timeUp()) {
      vector<json> c;
      vector<vector<size_t>> k;
      for (size_t a = 0; a < keep.size(); a += chunk) {
        vector<size_t> rest;
        for (size_t i = 0; i < keep.size(); i++)
          if (i < a || i >= a + chunk) rest.push_back(keep[i]);
        k.push_back(rest), c.push_back(make(rest));
        if (c.size() >= 64 && c.size() * c[0].dump().size() > 20000000) break;
      }
      int hit = firstFailing(c);
      if (hit >= 0)
        keep = k[hit], t = c[hit];
      else if (chunk == 1)
        break;
      else
        chunk = (chunk + 1) / 2;
      chunk = std::min(chunk, std::max<size_t>(1, keep.size()));
    }
  }
  void steps(json& t) {
    json orig = t;
    // cut the end off first
    for (size_t lo = 0, hi = t["steps"].size(); lo + 1 < hi && !timeUp();) {
      size_t mid = (lo + hi) / 2;
      json c = t;
      c["steps"].erase(c["steps"].begin() + (long)mid, c["steps"].end());
      if (firstFailing({c}) == 0) hi = mid, t = c;
      else lo = mid;
    }
    orig = t;
    ddmin(orig["steps"].size(), [&](const vector<size_t>& keep) {
      json c = orig;
      c["steps"] = json::array();
      for (size_t i : keep) c["steps"].push_back(orig["steps"][i]);
      return c;
    }, t);
  }
  void messages(json& t) {
    json orig = t;
    struct At { size_t s; string p; size_t i; };
    vector<At> all;
    for (size_t s = 0; s < orig["steps"].size(); s++)
      if (orig["steps"][s].contains("m"))
        for (auto& [p, v] : orig["steps"][s]["m"].items())
          for (size_t i = 0; i < v.size(); i++) all.push_back({s, p, i});
    ddmin(all.size(), [&](const vector<size_t>& keep) {
      json c = orig;
      for (auto& s : c["steps"])
        if (s.contains("m")) s["m"] = json::object();
      for (size_t k : keep) {
        auto& a = all[k];
        c["steps"][a.s]["m"][a.p].push_back(orig["steps"][a.s]["m"][a.p][a.i]);
      }
      return c;
    }, t);
  }
  void operators(json& t) {
    for (size_t p = 0; p < t["progs"].size(); p++) {
      if (!t["progs"][p]["def"].is_object()) continue;
      json orig = t;
      const json def = orig["progs"][p]["def"];
      vector<json> ops;
      for (auto& o : def["operators"])
        if (o["id"] != def["entryOperator"] && o["id"] != orig.value("exit", "@")) ops.push_back(o["id"]);
      ddmin(ops.size(), [&](const vector<size_t>& keep) {
        set<string> ids = {def["entryOperator"], orig.value("exit", "@")};
        for (size_t i : keep) ids.insert(ops[i]);
        json c = orig;
        json& d = c["progs"][p]["def"];
        d["operators"] = d["connections"] = json::array();
        for (auto& o : def["operators"])
          if (ids.count(o["id"])) d["operators"].push_back(o);
        for (auto& k : def["connections"])
          if (ids.count(k["from"]) && ids.count(k["to"])) d["connections"].push_back(k);
        if (def.contains("output")) {
          d["output"] = json::object();
          for (auto& [o, v] : def["output"].items())
            if (ids.count(o)) d["output"][o] = v;
        }
        return c;
      }, t);
      orig = t;
      size_t n = orig["progs"][p]["def"]["connections"].size();
      ddmin(n, [&](const vector<size_t>& keep) {
        json c = orig;
        json& d = c["progs"][p]["def"]["connections"];
        d = json::array();
        for (size_t i : keep) d.push_back(orig["progs"][p]["def"]["connections"][i]);
        return c;
      }, t);
    }
  }
  void values(json& t) {  // plain numbers, if they do
    for (int pass = 0; pass < 2 && !timeUp(); pass++) {
      json c = t;
      for (auto& s : c["steps"]) {
        auto plain = [&](json& v) {
          if (!v.is_number()) return;
          double d = v;
          v = pass ? std::round(d) : std::round(d * 8) / 8;
        };
        if (s.contains("m"))
          for (auto& [p, v] : s["m"].items())
            for (auto& m : v) plain(m[1]);
        if (s.contains("v")) plain(s["v"]);
      }
      if (c != t && firstFailing({c}) == 0) t = c;
    }
  }
  json run(json t) {
    bool demux = t.dump().find("\"Demultiplexer\"") != string::npos;
    bool endOnly = (kind == "exception" || kind.find("error") != string::npos) && demux;
    for (auto k : {"iso", "text"})
      if (t.value(k, false) && t["property"] != "C22") {
        json c = t;
        c[k] = false;
        if (firstFailing({c}) == 0) t = c;
      }
    if (t.value("via", 0)) {
      json c = t;
      c["via"] = 0;
      if (firstFailing({c}) == 0) t = c;
    }
    if (endOnly) {
      for (size_t lo = 0, hi = t["steps"].size(); lo + 1 < hi && !timeUp();) {
        size_t mid = (lo + hi) / 2;
        json c = t;
        c["steps"].erase(c["steps"].begin() + (long)mid, c["steps"].end());
        if (firstFailing({c}) == 0) hi = mid, t = c;
        else lo = mid;
      }
      return t;
    }
    steps(t);
    operators(t);
    messages(t);
    steps(t);
    operators(t);
    values(t);
    return t;
  }
};

// ---------- known findings ----------

struct Known {
  string prop, kind, match, what;
};
vector<Known> readKnown(const string& file, const string& prop) {
  // known: property=ID | kind | text in the detail | what fails
  vector<Known> v;
  std::ifstream f(file);
  string l;
  while (std::getline(f, l)) {
    if (l.rfind("known: property=" + prop + " ", 0) != 0) continue;
    vector<string> p;
    std::stringstream s(l.substr(l.find('|') + 1));
    string x;
    while (std::getline(s, x, '|')) {
      size_t a = x.find_first_not_of(' '), b = x.find_last_not_of(' ');
      p.push_back(a == string::npos ? "" : x.substr(a, b - a + 1));
    }
    if (p.size() >= 3) v.push_back({prop, p[0], p[1], p[2]});
  }
  return v;
}
bool matches(const Known& k, const char* kind, const char* detail) { return k.kind == kind && string(detail).find(k.match) != string::npos; }

// ---------- commands ----------

struct Plan {
  u64 quick;        // runs
  const char* rule; // what makes a run count as non-trivial
};
const map<string, Plan> plans = {
    {"C01", {12000, "restarted at least once, and later messages emitted"}},
    {"C02", {5000, "snapshots compared"}},
    {"C03", {12000, "at least one message dropped by the gate and one admitted"}},
    {"C04", {12000, "at least one call with several messages, and messages emitted"}},
    {"C05", {12000, "compared calls of both kinds, and messages emitted"}},
    {"C06", {16000, "a synchronizing operator emitted"}},
    {"C07", {30000, "a synchronizing operator emitted"}},
    {"C08", {24000, "messages passed the demultiplexer's program"}},
    {"C09", {36000, "messages passed the variable's program"}},
    {"C10", {30000, "messages emitted and judged"}},
    {"C11", {20000, "messages emitted and judged"}},
    {"C12", {24000, "messages emitted and judged"}},
    {"C13", {12000, "emissions compared"}},
    {"C14", {9000, "several programs answered"}},
    {"C15", {20000, "programs created, and lifecycle steps compared"}},
    {"C16", {14000, "buffered messages flushed"}},
    {"C17", {12000, "messages redelivered after a recovery"}},
    {"C18", {24000, "messages emitted and judged"}},
    {"C19", {16000, "an allocation failure was injected"}},
    {"C20", {12000, "a rebuilt program compared"}},
    {"C21", {1200, "messages emitted"}},
    {"C29", {4000, "messages emitted"}},
    {"C30", {12000, "messages emitted"}},
    {"C31", {24000, "messages emitted and judged"}},
    {"C22", {3000, "results through the text interface compared"}},
};

bool nontrivial(const string& p, const u64* c) {
  bool emitted = c[C_EMISSIONS] > 0;
  if (p == "C01") return c[C_RESTARTS] + c[C_CRASHES] > 0 && emitted;
  if (p == "C02") return c[C_BYTES_CMP] > 0;
  if (p == "C03") return c[C_GATE_DROPS] > 0 && emitted;
  if (p == "C04") return c[C_BATCHES] > 0 && emitted;
  if (p == "C14") return c[C_CREATES] > 2 && emitted;
  if (p == "C15") return c[C_CREATES] > 1 && c[C_TWIN_CMP] > 0;
  if (p == "C16") return c[C_BUFFERED] > 0 && c[C_FLUSHES] > 0;
  if (p == "C17") return c[C_REDELIVERED] > 0;
  if (p == "C19") return c[C_OOM_FIRED] > 0;
  if (p == "C20") return c[C_TWIN_CMP] > 0;
  if (p == "C22") return c[C_CALLS_TEXT] > 0;
  return emitted;
}

int replay(const string& file, bool quiet) {
  std::ifstream f(file);
  json r = json::parse(f);
  Slot* s = shared<Slot>();
  runForked(r["trace"], s);
  string kind = s->status == S_VIOLATION ? s->kind : "";
  bool twice = r.value("kind", "").rfind("nondeterminism", 0) == 0;
  if (twice) {
    u64 h = s->hash;
    runForked(r["trace"], s);
    kind = h != s->hash ? r["kind"].get<string>() : "";
  }
  if (!quiet) {
    std::cout << (kind.empty() ? "no violation" : kind + ": " + s->detail) << std::endl;
    std::cout << "log hash " << std::hex << s->hash << std::dec << std::endl;
  }
  if (kind.empty()) return 0;
  if (!quiet) std::cout << "VIOLATION property=" << r["property"].get<string>() << " replay=" << file << std::endl;
  return kind == r.value("kind", kind) ? 1 : 3;
}

int selfReplay(const string& file) {
  std::cout.flush();
  pid_t pid = fork();
  if (!pid) {
    execl("/proc/self/exe", "sim", "replay", file.c_str(), "--quiet", (char*)nullptr);
    _exit(9);
  }
  int st;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 9;
}

string abbreviate(const json& t) {
  json s = t;
  if (s["steps"].size() > 6) {
    size_t n = s["steps"].size();
    s["steps"].erase(s["steps"].begin() + 6, s["steps"].end());
    s["steps"].push_back("... " + std::to_string(n) + " steps in all");
  }
  return s.dump();
}

int check(const string& prop, bool thorough, u64 seed, const string& dir, double limit, long runsOverride) {
  double t0 = now();
  auto& plan = plans.at(prop);
  u64 total = thorough ? ~0ull >> 8 : plan.quick;
  if (runsOverride > 0) total = (u64)runsOverride;
  sh = shared<Shared>();
  states.init(1 << 23), histories.init(1 << 22);
  auto known = readKnown(dir + "/known_findings.txt", prop);
  long cores = std::max(1l, sysconf(_SC_NPROCESSORS_ONLN));
  int workers = (int)std::min(16l, cores);
  u64* sum = shared<u64>((size_t)C_N * workers);
  u64* cur = shared<u64>((size_t)C_N * workers);
  u64* knownHits = shared<u64>(64);
  Slot* slots = shared<Slot>(workers);
  vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    pid_t pid = fork();
    if (pid) {
      pids.push_back(pid);
      continue;
    }
    u64* mine = cur + (size_t)C_N * w;
    u64* acc = sum + (size_t)C_N * w;
    Slot* s = slots + w;
    counters = mine;
    while (!sh->stop && now() - t0 < limit) {
      u64 i = sh->next++;
      if (i >= total) break;
      memset(mine, 0, sizeof(u64) * C_N);
      u64 rs = runSeed(seed, prop, i);
      auto body = [&] { runBody(generate(prop, rs, thorough), s); };
      auto go = [&] {
        s->status = S_NONE, s->kind[0] = s->detail[0] = 0, s->hash = 0;
        settle(spawn(body), s);
      };
      go();
      u64 h = s->hash;
      if (nontrivial(prop, mine)) {
        sh->nontrivial++;
        histories.add(h);
      }
      for (int k = 0; k < C_N; k++) acc[k] += mine[k];
      if (s->status == S_OK && i % 16 == 0) {
        sh->twice++;
        go();
        if (s->status == S_OK && s->hash != h) {
          s->status = S_VIOLATION;
          put(s->kind, sizeof s->kind, "nondeterminism: the same run twice differs");
          put(s->detail, sizeof s->detail, "log hashes differ");
        }
      }
      sh->done++;
      if (s->status == S_INTERNAL) {
        put(sh->internalText, sizeof sh->internalText, string(s->detail) + " (run " + std::to_string(i) + ")");
        sh->internal = 1, sh->stop = 1;
      }
      if (s->status == S_VIOLATION) {
        bool listed = false;
        for (size_t k = 0; k < known.size() && k < 64; k++)
          if (matches(known[k], s->kind, s->detail)) listed = true, __sync_fetch_and_add(&knownHits[k], 1);
        if (listed) {
          sh->known++;
          continue;
        }
        int k = sh->found++;
        if (k < kFound) {
          auto& f = sh->f[k];
          f.index = i;
          put(f.kind, sizeof f.kind, s->kind), put(f.detail, sizeof f.detail, s->detail);
          f.used = 1;
        }
        sh->stop = 1;
      }
    }
    _exit(0);
  }
  for (auto p : pids) waitpid(p, nullptr, 0);
  double explored = now() - t0;
  if (sh->internal) {
    std::cout << "internal error: " << sh->internalText << std::endl;
    return 2;
  }
  u64 c[C_N] = {};
  for (int w = 0; w < workers; w++)
    for (int k = 0; k < C_N; k++) c[k] += sum[(size_t)w * C_N + k];

  // the violation with the smallest index
  Found* best = nullptr;
  for (int k = 0; k < kFound; k++)
    if (sh->f[k].used && (!best || sh->f[k].index < best->index)) best = &sh->f[k];

  for (size_t k = 0; k < known.size(); k++) {
    // a listed finding is reported whether or not this search came across it
    std::cout << "KNOWN-FINDING: property=" << prop << " " << known[k].what << " (met " << knownHits[k] << " times)" << std::endl;
  }

  string replayFile;
  if (best) {
    (void)!system(("mkdir -p '" + dir + "/replays'").c_str());
    replayFile = dir + "/replays/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(best->index) + ".json";
    u64 rs = runSeed(seed, prop, best->index);
    json t;
    try {
      t = generate(prop, rs, thorough);
    } catch (const std::exception& e) {
      std::cout << "internal error: " << e.what() << std::endl;
      return 2;
    }
    json rep = {{"property", prop}, {"kind", best->kind}, {"detail", best->detail}, {"seed", seed}, {"run", best->index}, {"run seed", rs}, {"steps before minimisation", t["steps"].size()}};
    auto save = [&](const json& trace) {
      rep["trace"] = trace;
      std::ofstream(replayFile) << rep.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
    };
    save(t);
    bool nondet = rep["kind"].get<string>().rfind("nondeterminism", 0) == 0;
    if (!nondet && !getenv("SIM_NOMIN")) {
      Minimiser m;
      m.kind = best->kind;
      m.deadline = now() + (thorough ? 180 : 30);
      json small = m.run(t);
      Slot* s = shared<Slot>();
      runForked(small, s);
      if (s->status == S_VIOLATION && m.kind == s->kind) {
        rep["detail"] = s->detail;
        rep["tests"] = m.tests;
        save(small);
        if (selfReplay(replayFile) != 1) {
          rep["detail"] = best->detail;
          save(t);
        }
      }
    }
    int again = selfReplay(replayFile);
    std::cout << "run " << best->index << " (seed " << seed << "): " << best->kind << std::endl;
    std::cout << rep["detail"].get<string>() << std::endl;
    std::cout << "replayed in a fresh process: " << (again == 1 ? "the same violation" : "NOT reproduced, code " + std::to_string(again)) << std::endl;
  }

  // evidence
  json ev;
  ev["property"] = prop, ev["tier"] = thorough ? "thorough" : "quick", ev["seed"] = seed;
  ev["level"] = prop == "C19" ? "fault_enumeration" : "exploration";
  json cov;
  cov["evaluations"] = sh->done.load();
  cov["distinct_nontrivial"] = histories.n->load();
  cov["rule"] = string("One case is one simulated run: a program definition, a world of sensors, links and a host, and a fault schedule, all drawn from one seed. "
                       "Non-trivial: ") + plan.rule + ". Distinct: by the hash of everything the program answered.";
  json faults = json::object(), work = json::object();
  const set<int> fk = {C_RESTARTS, C_CRASHES, C_PROC_CRASHES, C_REDELIVERED, C_BAD_CREATES, C_DELETES, C_THROWS, C_OOM_ARMED, C_OOM_FIRED, C_LOST, C_DUP, C_REORDER, C_DELAYED, C_GAPS, C_STALLS, C_SKEWS, C_PARTITIONS};
  for (int k = 0; k < C_N; k++)
    if (c[k] && k != C_SIMTIME_MS) (fk.count(k) ? faults : work)[counterNames[k]] = c[k];
  cov["faults injected"] = faults;
  cov["work"] = work;
  cov["simulated hours"] = (double)c[C_SIMTIME_MS] / 3600000.0;
  cov["runs per hour"] = (u64)((double)sh->done / std::max(0.001, explored) * 3600);
  cov["seeds per hour"] = cov["runs per hour"];
  cov["runs executed twice with identical outcome"] = sh->twice.load();
  cov["distinct states"] = {{"measure", "hashes of snapshots and of call results"}, {"count", states.n->load()}};
  cov["nontrivial runs"] = sh->nontrivial.load();
  cov["real components"] = {"every operator in libs/core, libs/std, libs/finance", "libs/api: FactoryOp, Program, Pipeline, bindings", "libs/wrappers/python/rtbot.cpp and libs/api/wasm (what the modules export)"};
  cov["stub components"] = {"allocator (pattern fill, k-th failure)", "sensors, links, host process, durable snapshot store", "JSON schema validator (subset of draft 7; the real one is not available offline)"};
  if (kSanitized) cov["invariants"] = {"AddressSanitizer", "UndefinedBehaviorSanitizer (without alignment)", "assertions of the standard library"};
  json samples = json::array();
  for (u64 i = 0; i < 3; i++) {
    counters = spare;
    try {
      samples.push_back(abbreviate(generate(prop, runSeed(seed, prop, i), thorough)));
    } catch (const std::exception&) {
    }
  }
  cov["samples"] = samples;
  ev["coverage"] = cov;
  ev["assumptions"] = {"one producer per input port of an operator", "definitions within the documented domain", "the engine is driven from one thread, as its interface requires"};
  ev["wall_s"] = now() - t0;
  ev["violations"] = best ? 1 : 0;
  (void)!system(("mkdir -p '" + dir + "/evidence'").c_str());
  std::ofstream(dir + "/evidence/" + prop + ".json") << ev.dump(1, ' ', false, json::error_handler_t::replace) << "\n";

  std::cout << prop << ": " << sh->done << " runs, " << histories.n->load() << " distinct non-trivial, " << states.n->load() << " states, "
            << (int)(now() - t0) << " s" << std::endl;
  if (best) {
    std::cout << "VIOLATION property=" << prop << " replay=" << replayFile << std::endl;
    return 1;
  }
  if (sh->done == 0 || histories.n->load() == 0) {
    std::cout << "internal error: nothing was explored" << std::endl;
    return 2;
  }
  return 0;
}

}  // namespace

#ifdef SIM_SANITIZED
// The sanitizers and the checks of the standard library are the invariants of these runs.
extern "C" {
void __asan_set_error_report_callback(void (*)(const char*));
void __ubsan_get_current_report_data(const char** kind, const char** msg, const char** file, unsigned* line, unsigned* col, char** addr);
__attribute__((visibility("default"), used)) const char* __asan_default_options() {
  return "exitcode=99:detect_leaks=0:symbolize=0:allocator_may_return_null=1:handle_abort=0:detect_odr_violation=0";
}
__attribute__((visibility("default"), used)) const char* __ubsan_default_options() { return "exitcode=99:print_stacktrace=0:symbolize=0"; }
__attribute__((visibility("default"), used)) void __ubsan_on_report() {
  const char *kind, *msg, *file;
  unsigned line, col;
  char* addr;
  __ubsan_get_current_report_data(&kind, &msg, &file, &line, &col, &addr);
  string f = file;
  f = f.substr(f.rfind('/') + 1);
  reported(string("undefined behaviour: ") + kind + " in " + f, string(msg) + " at " + file + ":" + std::to_string(line));
}
}
static void asanReport(const char* text) {
  string t = text;
  size_t a = t.find("AddressSanitizer: "), b = a == string::npos ? a : t.find_first_of(" \n", a + 18);
  reported("memory error: " + (a == string::npos ? string("?") : t.substr(a + 18, b - a - 18)), t);
}
namespace std {
void __glibcxx_assert_fail(const char* file, int line, const char* function, const char* condition) noexcept {
  string f = file ? file : "?";
  reported("misuse of the standard library: " + string(condition ? condition : "?"), f + ":" + to_string(line) + " " + (function ? function : ""));
  _exit(99);
}
}  // namespace std
static const bool asanReady = (__asan_set_error_report_callback(asanReport), true);
#endif

void noteState(u64 h) {
  if (states.t) states.add(h);
}

int main(int argc, char** argv) {
  if (!getenv("SIM_FIXED_LAYOUT")) {  // the same addresses in every process, as far as we are allowed
    setenv("SIM_FIXED_LAYOUT", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && personality((unsigned long)p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  vector<string> a(argv + 1, argv + argc);
  if (a.size() >= 2 && a[0] == "replay") return replay(a[1], a.size() > 2);
  if (a.size() >= 3 && a[0] == "gen") {  // for people: print a trace
    u64 seed = a.size() > 3 ? std::stoull(a[3]) : 1;
    std::cout << generate(a[1], runSeed(seed, a[1], std::stoull(a[2])), false).dump(1) << std::endl;
    return 0;
  }
  if (a.size() >= 2 && a[0] == "check") {
    bool th = false;
    u64 seed = 1;
    string dir = ".";
    double limit = 0;
    long runs = 0;
    for (size_t i = 2; i < a.size(); i++) {
      if (a[i] == "--thorough") th = true;
      else if (a[i] == "--seed") seed = std::stoull(a[++i]);
      else if (a[i] == "--dir") dir = a[++i];
      else if (a[i] == "--limit") limit = std::stod(a[++i]);
      else if (a[i] == "--runs") runs = std::stol(a[++i]);
    }
    if (limit <= 0) limit = th ? 600 : 60;
    return check(a[1], th, seed, dir, limit, runs);
  }
  std::cerr << "usage: sim check PROPERTY [--thorough] [--seed N] [--dir D] [--limit S] [--runs N] | replay FILE | gen PROPERTY RUN [SEED]\n";
  return 2;
}
