// Shared declarations of the simulator.
#pragma once
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <nlohmann/json.hpp>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "rtbot/Message.h"

using json = nlohmann::json;
using std::deque;
using std::map;
using std::pair;
using std::set;
using std::string;
using std::vector;
typedef uint64_t u64;
typedef rtbot::Message<u64, double> Msg;
typedef rtbot::PortMessage<u64, double> PortMsgs;
typedef rtbot::OperatorMessage<u64, double> OpMsgs;
typedef rtbot::ProgramMessage<u64, double> ProgMsgs;
typedef rtbot::Bytes Bytes;

inline u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// The one source of randomness: everything a run does is a function of the state this starts from.
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix64(seed)) {}
  u64 left = ~0ull;  // how many draws are allowed
  struct Exhausted {};
  u64 next() {
    if (!left--) throw Exhausted();
    return s = mix64(s);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  bool chance(double p) { return unit() < p; }
  template <class T>
  const T& pick(const vector<T>& v) { return v[below(v.size())]; }
  template <class T>
  void shuffle(vector<T>& v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
  }
};

struct Hash {
  u64 h = 1469598103934665603ull;
  void add(const void* p, size_t n) {
    auto c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  }
  void u(u64 x) { add(&x, 8); }
  void str(const string& s) { u(s.size()); add(s.data(), s.size()); }
};

// --- allocator seam (alloc.cpp) ---
extern "C" {
void sim_alloc_reset(u64 seed);  // pattern the allocator fills fresh memory with
void sim_alloc_arm(long k);      // the k-th allocation from now fails; 0 disarms
long sim_alloc_count();          // allocations since the last reset or arm
bool sim_alloc_fired();
long sim_alloc_blocks();         // alive now
long sim_alloc_bytes();
}

// --- counters, shared by all parts of a run, summed up for the evidence ---
enum Counter {
  C_CALLS, C_CALLS_DEBUG, C_CALLS_TEXT, C_CALLS_MODULE, C_BUFFERED, C_FLUSHES, C_BATCHES, C_MSGS, C_EMISSIONS, C_SNAPSHOTS, C_RESTARTS,
  C_CRASHES, C_PROC_CRASHES, C_REDELIVERED, C_CREATES, C_BAD_CREATES, C_DELETES, C_THROWS, C_OOM_ARMED, C_OOM_FIRED,
  C_LOST, C_DUP, C_REORDER, C_DELAYED, C_GAPS, C_STALLS, C_SKEWS, C_GATE_DROPS, C_MODEL_STEPS, C_MODEL_MSGS, C_TWIN_CMP,
  C_BYTES_CMP, C_ABANDONED, C_PIPELINES, C_OPS, C_UNKNOWN_OPS, C_SIMTIME_MS, C_TRUNC, C_PARTITIONS, C_N
};
extern const char* counterNames[C_N];
extern u64* counters;  // of this run
inline void count(Counter c, u64 n = 1) { counters[c] += n; }
// distinct states reached: 64-bit hashes of snapshots and of call results
void noteState(u64 h);

// --- traces ---
// A trace is a json object: {"property","scenario","progs":[{"id","def"...}],"steps":[...],...}. It is all an execution
// depends on, besides the code.
struct Violation {
  string kind;    // class of the violation, stable under minimisation
  string detail;  // for people
};

json generate(const string& property, u64 seed, bool thorough);
std::optional<Violation> execute(const json& trace, Hash& log);
