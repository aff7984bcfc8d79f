// Driver-side declarations: scenario files, properties, oracles.
#ifndef DRV_H
#define DRV_H
#include "../simcore.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <memory>

using sim::Spec; using sim::GVert; using sim::GEdge; using sim::Op; using sim::Dump; using sim::gid;

struct Rnd {
  uint64_t s;
  explicit Rnd(uint64_t x) : s(sim::mix64(x ^ 0x5851f42d4c957f2dULL)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return sim::mix64(s); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int pct) { return below(100) < pct; }
  double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below((int)v.size())]; }
};

struct Property {
  std::string id;
  // builds scenario number `idx` of this property from `r`
  std::function<void(Spec&, Rnd& r, bool thorough, uint64_t idx)> gen;
  // installs the oracle for one run (in the child process)
  std::function<void(const Spec&, sim::Hooks&, int job)> hooks;
  std::function<bool(const Spec&)> valid;   // scenarios the minimiser may try
  long quickRuns = 2000, thoroughRuns = 40000;
  double quickCap = 45, thoroughCap = 600;
  std::vector<std::string> wantProbes;   // reported, never enforced
  std::string rule;
  std::string real, stub;
};
std::vector<Property>& properties();
struct RegP { RegP(Property p); };

// ---- scenario text
std::string specText(const Spec& s);
bool parseSpec(const std::string& text, Spec& s, std::map<std::string, std::string>* meta, std::vector<std::pair<int, sim::Dec>>* dec);

// ---- generators shared by properties
void genSchedule(Spec& s, Rnd& r);                    // policy, delays, stalls, skew
struct GraphOpts { int hyper = -1; int maxV = 40; int maxTypes = 3; bool intW = false; bool symmetric = false; bool connected = false; bool bigIds = true; int minV = 1; bool allowEmptyRanks = true; bool spread = true; bool dups = false; bool ids32 = false; bool fat = false; };
void genGraph(Spec& s, Rnd& r, const GraphOpts& o);
void fineWeights(Spec& s);
std::string num(double d);
std::string num(long d);

// ---- reference model of a distributed N-graph
struct Model {
  bool hyper = true; int P = 1, ntypes = 1; bool coords = false;
  struct V { int owner; double w; double xyz[3]; int orig; };
  std::map<gid, V> v;
  std::vector<GEdge> e;
  std::vector<GEdge> gone;         // removed since the ghosts were last rebuilt: their ghosts may linger
  bool ghostWStale = false;        // vertex weights were set since then
  explicit Model(const Spec& s);
  Model() {}
};
struct CheckOpts { bool orig = true; bool ghostW = true; bool weights = true; const char* when = ""; };
// compares what every rank reports against the model; reports a violation
void checkDumps(const Model& m, const std::vector<Dump>& d, const CheckOpts& o);
// every vertex on exactly one rank: fills the owner map from the dumps
void adoptOwners(Model& m, const std::vector<Dump>& d, const char* when);
// advances the model over the scenario's ops (1-based steps)
struct GraphOracle {
  Model m; Model init; bool hasOrig; int done = 0; const Spec* s;
  std::map<std::string, Model> saved;
  explicit GraphOracle(const Spec& sp) : m(sp), init(sp), hasOrig(sp.num("early_orig", 0)), s(&sp) {}
  void advance(int step);
};
std::map<std::string, std::string> kvArgs(const Op& o, size_t from);
void editModel(Model& m, const Op& o);
void editBlob(const Model& m, const Spec& s, int step, const std::string& name, std::vector<std::vector<double>>& v);
// weight of dimension `dim` (-1 = vertices, t = edge type) on every rank
std::vector<double> partWeights(const Model& m, int dim, bool ghosts);
double imbalance(const std::vector<double>& w);
// a structured 2-d mesh: elements are graph vertices, mesh entities are edges
void genMesh(Spec& s, Rnd& r, int maxV, int hyper, bool unit);
void graphHooks(const Spec& s, sim::Hooks& h, int job);
void graphBlob(const Model& m, const Spec& s, int step, const std::string& name, std::vector<std::vector<double>>& v);
Op migOp(Spec& s, Rnd& r, std::map<gid, int>& own, int N);
void commonGraph(Spec& s, Rnd& r, const GraphOpts& g0, int minN = 1);
[[noreturn]] void vio(const std::string& cls, const std::string& msg);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

#endif
