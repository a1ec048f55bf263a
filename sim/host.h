// Drives the real engine through its public interfaces and records what it answers.
#pragma once
#include <memory>

#include "common.h"
#include "glue/glue.h"
#include "rtbot/FactoryOp.h"

struct Obs {       // what one step returned
  int st = 0;      // 0: ok, 1: reported an error, 2: out of memory, 3: not executed
  string ret;      // returned text or error
  ProgMsgs res;    // emissions
  Bytes bytes;     // snapshot
  Bytes bytes2;    // snapshot of the restored snapshot (resnap)
  long allocs = 0;
};

struct Host {
  std::unique_ptr<rtbot::FactoryOp> reg;
  bool text = false;                 // through the text interface
  int via = 0;                       // the functions of the text interface: 0 themselves, 1 as the module for Python exports them, 2 as the one for JavaScript
  bool mix = false, wholeMap = false, uneven = false;  // how the next call hands its messages over
  map<string, Bytes> slots;          // durable storage
  vector<string> ids;                // program ids by index
  vector<string> defs;               // and definitions, as text
  map<string, bool> live;
  long armOom = 0;
  Host() : reg(new rtbot::FactoryOp()) {}
  Obs step(const json& s);
  Obs create(const string& id, const string& def);
  Obs createFrom(const string& id, const Bytes& b);
  Obs del(const string& id);
  Obs snap(const string& id);
  Obs call(const string& id, const OpMsgs& m, bool dbg);
  Obs buf(const string& id, const string& port, Msg m);
  Obs flush(const string& id, bool dbg);
  void through(int v) { via = !text || (v == 1 ? glue::python() : glue::javascript()).empty() ? 0 : v; }
  string exported(const char* name, const std::vector<glue::Arg>& args);
  Obs guarded(const std::function<void(Obs&)>& f);
};

struct PassOpts {
  bool text = false;
  int via = 0;
  bool iso = false;     // a crash ends the process; only snapshots survive into the next one
  bool forked = false;  // run the pass in a process of its own
  bool debugAll = false;
  bool create = true;   // create the programs of the trace first
  int only = -1;        // create only this program
  u64 poison = 1;
};
vector<Obs> runPass(const json& trace, const vector<json>& steps, const PassOpts& o);

OpMsgs msgsOf(const json& m);
size_t countMsgs(const OpMsgs& m);
ProgMsgs normalized(const ProgMsgs& r);
bool same(const ProgMsgs& a, const ProgMsgs& b);     // bit for bit, empty entries do not matter
bool sameMsg(const Msg& a, const Msg& b);
string show(const ProgMsgs& r);
void hashObs(Hash& h, const Obs& o);
vector<json> stepsOf(const json& trace);
ProgMsgs parseResult(const string& text);
