// Reference model: what each operator must emit, computed from the messages it received, independently of the code.
#pragma once
#include "common.h"
#include "progen.h"

struct Exp {  // an expected message
  u64 t;
  double v;
  double tol;  // absolute tolerance, 0: exact
  bool optional = false;
};

struct ModelOp {
  json def;
  string id, type;
  Ports ports;
  bool opaque = false;
  map<string, vector<Msg>> hist;  // messages received, per port, whole history
  // messages of this call; returns what must be emitted in this call
  map<string, vector<Exp>> step(const map<string, PortMsgs>& in);
  void observed(const map<string, PortMsgs>& out) {  // what it did emit
    auto it = out.find("o1");
    if (it != out.end()) own.insert(own.end(), it->second.begin(), it->second.end());
  }
  bool mustThrow = false, mayThrow = false;  // after step: an instruction conflict was due / detectable
  bool broken = false;                       // input outside the domain (non-finite values)

 private:
  map<string, deque<Msg>> q;      // queues of the synchronizing operators
  map<string, std::optional<u64>> gate;
  vector<Msg> own;                // own outputs (auto-regression)
  double maxAbs = 0, maxSum = 0;
  long double sum = 0;
  std::optional<Msg> pendingQuery;
  long double gain = 0, loss = 0;
  std::optional<u64> grid;        // next grid point
};

struct ModelProgram {
  json def;
  string entry;
  vector<ModelOp> ops;
  map<string, size_t> index;
  vector<Conn> conns;
  u64 maxAdmitted = 0;
  map<string, map<string, u64>> lastOut;  // per operator and port
  map<string, bool> shifted, clamped;     // an explicit time shift lies upstream (or a negative one)
  explicit ModelProgram(const json& def);
  struct Opts {
    set<string> types;       // operator types to judge; empty: all
    bool values = true;      // judge values, or only timestamps
    bool order = false;      // judge the order and the causality of timestamps
    bool ops = true;         // judge emissions at all
  };
  bool abandoned = false;
  // judge the debug result of one call. Returns a description of what is wrong
  std::optional<Violation> call(const OpMsgs& in, const ProgMsgs& debugResult, const Opts& o);
};
