// The simulated world around a host process: sensors with their clocks, the network, the host's batching, stalls and
// crashes. A discrete-event simulation in virtual time; its outcome is the list of steps of a trace.
#pragma once
#include <queue>

#include "common.h"
#include "progen.h"

struct Sim {  // the event queue: the only clock and the only scheduler
  struct Event {
    u64 at, seq;
    std::function<void()> run;
    bool operator<(const Event& o) const { return at != o.at ? at > o.at : seq > o.seq; }
  };
  std::priority_queue<Event> q;
  u64 now = 0, seq = 0;
  void at(u64 t, std::function<void()> f) { q.push({std::max(t, now), seq++, std::move(f)}); }
  void after(u64 d, std::function<void()> f) { at(now + d, std::move(f)); }
  void run() {
    while (!q.empty()) {
      Event e = q.top();
      q.pop();
      now = e.at;
      e.run();
    }
  }
};

struct Link {
  double loss = 0, dup = 0, skew = 0;
  u64 delay = 0;      // largest extra delay, in virtual milliseconds (a sensor ticks every 1000)
  bool fifo = false;  // in order
};

struct WorkCfg {
  int ticks = 40;
  u64 base = 0;
  double spacing = 1;   // of timestamps per tick
  bool jitter = false;  // irregular ticks
  bool aligned = true;  // all ports of a program sample at the same instants
  double sampleP = 1;   // chance that a port samples at a tick
  double gapP = 0;      // chance per tick that a long gap follows
  int gapMax = 60;      // in ticks
  double partitionP = 0;  // chance per tick that a port's link is cut off for a while, then delivers everything late
  int lagTicks = 0;       // the link of one port delivers nothing until then
  int valueKind = 0;
  Link link;
  bool perPortLinks = false;
};

enum HostMode { H_DIRECT, H_BATCH, H_BUFFER, H_MIXED };
struct HostCfg {
  HostMode mode = H_DIRECT;
  u64 flushEvery = 3000;
  double stallP = 0;      // per tick: the host stops reading for a while
  double hopP = 0;        // per tick: a program is snapshotted, dropped and restored
  double crashP = 0;      // per tick: the whole host restarts from snapshots taken just before
  double snapP = 0;       // per tick: a snapshot of some program
  double emptyBatchP = 0;
  double debugP = 1;      // chance that a call is a debug call
};

double genValue(Rng& r, int kind, int tick, double& state);
extern const int kValueKinds;
void pickTimeScale(Rng& r, double& spacing, u64& base, bool extreme = false);
void randomWork(Rng& r, WorkCfg& w, HostCfg& h, bool thorough);

// adds the steps of one program fed by its own sensors; several programs are merged by virtual time
struct ProgRun {
  ProgInfo info;
  WorkCfg work;
};
void simulate(Rng& r, vector<ProgRun>& progs, const HostCfg& host, json& trace);
json traceOf(const string& property, const string& scenario, const vector<ProgRun>& progs);
