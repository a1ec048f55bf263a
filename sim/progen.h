// Random program definitions.
#pragma once
#include "common.h"

struct Stream {
  string op, port;
  int root;        // which entry tick group its timestamps stem from
  int cls;         // streams of one class carry identical timestamps
  double spacing;  // expected distance of its timestamps
  double mag;      // estimate of the largest magnitude
  bool pos = false, shifted = false;
};

struct GenCfg {
  map<string, int> w;            // weight per operator type; gadgets: Demultiplexer, Variable
  int minOps = 2, maxOps = 10;
  int minPorts = 1, maxPorts = 3;  // entry ports
  int depth = 0;                 // pipelines may nest this deep
  bool aligned = false;          // only let streams of one class meet (C21)
  bool safeVariables = false;    // definitions and queries of a variable carry the same timestamps (C13)
  int maxWindow = 8;
  bool bigWindow = false;
  bool colonIds = true;
  bool textApi = false;          // only what the published schema knows
  bool outputOp = true;
  bool negShift = true;
  bool clampShift = false;       // TimeShifts that reach zero, nothing connected behind them
  double spacing = 1, base = 0;  // of the entry streams
  double mag = 10;
  double wideP = 0.04;           // chance of an operator with very many ports
  int wideMax = 14;
  bool longIds = false;
  int edges = -1;                // thresholds and points are values of this kind, or right beside them
  bool directSources = false;    // every operator reads from the entry operator
};

struct ProgInfo {
  json def;
  int ports = 0;
  // ports that carry instructions: always 0 or 1, in order, never lost. value: the data port they belong to
  map<int, int> controlOf;
};

ProgInfo genProgram(Rng& r, const GenCfg& cfg);
extern const vector<string> kSimpleTypes, kJoinTypes, kAllTypes;
GenCfg cfgAll();

// ports of an operator definition, as documented
struct Ports {
  vector<string> in, ctrl, out;
};
Ports portsOf(const json& op);
// a pipeline's boundary: port name -> (inner operator, inner port)
void pipelinePorts(const json& prog, map<string, pair<string, string>>& ins, map<string, pair<string, string>>& outs);
// connections with omitted ports filled in
struct Conn {
  string from, fromPort, to, toPort;
};
vector<Conn> connsOf(const json& prog);
// the same program with every pipeline (recursively) written out inline; boundary["P:o1"] = "P/inner:o1"
json flatten(const json& def, map<string, string>* boundary);
