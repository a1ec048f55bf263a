#ifndef SIM_EXEC_H
#define SIM_EXEC_H
#include <algorithm>
#include <cmath>

#include "common.h"
#include "host.h"
#include "model.h"
#include "progen.h"

typedef std::optional<Violation> V;
extern const set<string> kRestart;

struct Fed {  // what a step hands to a program
  bool is = false;
  OpMsgs in;
};
// tracks the message buffers
struct Buffers {
  map<int, OpMsgs> buf;
  Fed fed(const json& s);
};

PassOpts base(const json& t);
vector<json> without(const vector<json>& s, const set<string>& ops);
string at(const json& s, size_t i);
void logAll(Hash& h, const vector<Obs>& v);
string bytesDiff(const Bytes& a, const Bytes& b);
string resDiff(const ProgMsgs& a, const ProgMsgs& b);
// Compares what two passes answered. Steps of the kinds in `skip` exist in one pass only. A program that reported an
// error in both is not followed further.
V compare(const vector<json>& sa, const vector<Obs>& a, const vector<json>& sb, const vector<Obs>& b, const set<string>& skip,
          const string& what, bool bytes = true);
void addFinalSnaps(const json& t, vector<json>& s);
// the messages of a call in the order the engine takes them
vector<pair<string, Msg>> inOrder(const OpMsgs& m);
json single(const string& port, const Msg& m);
void append(ProgMsgs& a, const ProgMsgs& b);
V judge(const json& t, const vector<json>& steps, const vector<Obs>& obs, const ModelProgram::Opts& o);
ModelProgram::Opts optsOf(const string& P);
V modelRun(const json& t, Hash& log);
// total emissions per operator and port of one program
ProgMsgs total(const vector<json>& steps, const vector<Obs>& obs, int p);
bool anyError(const vector<Obs>& v);
// of memory alive after 2, 4, 8 and 16 equal rounds
V grown(const vector<long>& blocks, const vector<long>& bytes);
bool afterRound(int k);

#define EXECUTORS(X) X(c01) X(c02) X(c03) X(c04) X(c05) X(c06) X(conflict) X(c13) X(c14) X(c15) X(c16) X(c17) X(c19) X(c20) X(c21) X(c22) X(c30) X(composite) X(leaks)
#define X(f) V f(const json& t, Hash& log);
EXECUTORS(X)
#undef X
#endif
