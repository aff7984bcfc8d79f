// Operations of the partitioning layer, callable from the graph workload:
// diffusive balancing, weight balancing, evaluation and metrics.
#include "common.h"
#include <PCU.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <algorithm>
#include <engpar_diffusive_input.h>
#include <engpar_weight_input.h>
#include <engpar_split_input.h>
using namespace agi;

std::map<std::string, std::string> kvArgs(const sim::Op& o, size_t from) {
  std::map<std::string, std::string> m;
  for (size_t i = from; i < o.a.size(); i++) { size_t e = o.a[i].find('='); if (e != std::string::npos) m[o.a[i].substr(0, e)] = o.a[i].substr(e + 1); }
  return m;
}
static long K(std::map<std::string, std::string>& m, const char* k, long d) { auto it = m.find(k); return it == m.end() ? d : toL(it->second); }
static double D(std::map<std::string, std::string>& m, const char* k, double d) { auto it = m.find(k); return it == m.end() ? d : toD(it->second); }

// what the job printed since `from`
long outPos() { fflush(stdout); struct stat st; return fstat(1, &st) == 0 ? (long)st.st_size : 0; }
std::string outSince(long from) {
  long to = outPos(); std::string s((size_t)std::max(0L, to - from), 0);
  long k = s.empty() ? 0 : (long)pread(1, &s[0], s.size(), from);
  s.resize((size_t)std::max(0L, k));
  return s;
}
static void blobText(int step, const std::string& name, const std::string& s) { std::vector<double> v; for (unsigned char c : s) v.push_back(c); sim::submitBlob(step, name, v); }

// One diffusive balance, through the C++ or the C interface.
static void doBalance(Ngraph* g, std::map<std::string, std::string> a) {
  std::vector<std::pair<int, double>> pr;
  { std::string s = a["prio"]; size_t i = 0;
    while (i < s.size()) { size_t c = s.find(':', i), e = s.find(',', c); if (e == std::string::npos) e = s.size(); pr.push_back({(int)toL(s.substr(i, c - i)), toD(s.substr(c + 1, e - c - 1))}); i = e + 1; } }
  double sf = D(a, "sf", 0.1); int verb = (int)K(a, sim::job() && a.count("verb2") ? "verb2" : "verb", -1);
  // c=2: through the C interface in the first job only
  long viaC = K(a, "c", 0);
  if (viaC == 1 || (viaC == 2 && sim::job() == 0)) {
    engparInput in = cengpar_createDiffusiveInput((ngraph)g, sf);
    for (auto& p : pr) cengpar_addPriority(in, p.first, p.second);
    if (a.count("lim")) cengpar_setCutGrowthFactor(in, D(a, "lim", 0));
    cengpar_balanceGhosts(in, K(a, "cg", 0));
    cengpar_balance(in, verb);
    return;
  }
  engpar::DiffusiveInput* in = engpar::createDiffusiveInput(g, sf);
  for (auto& p : pr) in->addPriority(p.first, p.second);
  in->balanceGhosts(K(a, "cg", 0));
  if (a.count("dq")) in->useDistanceQueue = K(a, "dq", 1);
  in->bfsPush = K(a, "push", 1);
  in->minConnectivity = (int)K(a, "mc", 1);
  in->connectivityType = (int)K(a, "ct", 0);
  in->sides_edge_type = (int)K(a, "side", 0);
  in->selection_edge_type = (int)K(a, "sel", 0);
  if (a.count("lim")) in->limitEdgeCutGrowth = D(a, "lim", 0);
  in->runPartWeightBalancer = K(a, "pw", 0);
  if (a.count("maxit")) in->maxIterations = (int)K(a, "maxit", 1000);
  if (a.count("maxper")) in->maxIterationsPerType = (int)K(a, "maxper", 100);
  engpar::balance(in, verb);
}

// Grow the job from `small` to all processes.
static void splitOnce(Ngraph*& g, const sim::Op& o, MPI_Comm small, bool original);
// The global partitioner needs a vertex on every starting process: without
// one the library has to refuse; otherwise it must not.
std::vector<double> takeDecided(), takeAsked();
void doSplit(Ngraph*& g, const sim::Op& o, MPI_Comm small, bool original, int step) {
  takeDecided();
  bool lacking = false;
  if (original) { int has = g->numLocalVtxs() > 0; lacking = !PCU_Min_Int(has); }
  try { splitOnce(g, o, small, original); }
  catch (std::exception& e) {
    auto a = kvArgs(o, 1);
    if (a["method"] == "GLOBAL_PARMETIS" && lacking) sim::refuseRightly("a starting process has no vertices");
    sim::violation("split.refused", "splitting a graph with vertices on every starting process fails: %s", e.what());
  }
  sim::submitBlob(step, "asked", takeAsked());
  sim::submitBlob(step, "decided", takeDecided());
}
static void splitOnce(Ngraph*& g, const sim::Op& o, MPI_Comm small, bool original) {
  auto a = kvArgs(o, 1);
  double tol = D(a, "tol", 1.05); int et = (int)K(a, "et", 0);
  const std::string& me = a["method"];
  std::vector<part_t> others;
  int sf = 1;
  if (me == "LOCAL_PARMETIS") {
    // "others" lists the target ranks of every original rank, in order
    std::vector<int> all; std::string l = a["others"];
    for (size_t i = 0; i < l.size();) { all.push_back(atoi(l.c_str() + i)); i = l.find(',', i); if (i == std::string::npos) break; i++; }
    sf = (int)K(a, "sf", 1);
    int at = original ? PCU_Comm_Self() : 0;
    for (int i = 0; i < sf; i++) others.push_back(all[at * sf + i]);
  }
  sim::Array<part_t> oth(others);
  long viaC = K(a, "c", 0);
  if (viaC == 1 || (viaC == 2 && sim::job() == 0)) {
    MPI_Fint fs = MPI_Comm_c2f(small), fl = MPI_Comm_c2f(MPI_COMM_WORLD);
    engparInput in = me == "LOCAL_PARMETIS" ? cengpar_createLocalSplitInput((ngraph)g, fs, fl, original, sf, tol, oth, et)
                                            : cengpar_createGlobalSplitInput((ngraph)g, fs, fl, original, tol, et);
    cengpar_split(in, me.c_str());
  } else {
    engpar::Input* in = me == "LOCAL_PARMETIS" ? engpar::createLocalSplitInput(g, small, MPI_COMM_WORLD, original, sf, tol, oth, et)
                                               : engpar::createGlobalSplitInput(g, small, MPI_COMM_WORLD, original, tol, et);
    engpar::split(in, me == "LOCAL_PARMETIS" ? engpar::LOCAL_PARMETIS : me == "ZOLTAN" ? engpar::ZOLTAN_PHG : engpar::GLOBAL_PARMETIS);
  }
}

bool partOp(Ngraph* g, const sim::Op& o, int step, bool& orig) {
  const std::string& k = o.a[0];
  if (k == "bal") {
    auto a = kvArgs(o, 1);
    long at = outPos();
    doBalance(g, a);
    blobText(step, "steps", PCU_Comm_Self() ? "" : outSince(at));
    if (PCU_Comm_Peers() > 1) orig = true;
    return true;
  }
  if (k == "balw") {
    auto a = kvArgs(o, 1);
    engpar::WeightInput* in = engpar::createWeightInput(g, D(a, "tol", 1.1), D(a, "sf", 0.1), (int)K(a, "et", 0));
    if (a.count("maxit")) in->maxIterations = (int)K(a, "maxit", 100);
    long at = outPos();
    engpar::balanceWeights(in, (int)K(a, sim::job() && a.count("verb2") ? "verb2" : "verb", -1));
    blobText(step, "steps", PCU_Comm_Self() ? "" : outSince(at));
    std::vector<double> out;
    WeightPartitionMap* m = g->getWeightPartition();
    for (auto& x : *m) for (auto& y : x.second) { out.push_back((double)x.first); out.push_back((double)y.first); out.push_back(y.second); }
    sim::submitBlob(step, "wmap", out);
    return true;
  }
  if (k == "eval") {
    long at = outPos();
    if (o.a.size() > 1 && o.a[1] == "@c") cengpar_evaluatePartition((ngraph)g);
    else engpar::evaluatePartition(g, o.a.size() > 1 ? o.a[1].c_str() : "");
    blobText(step, "eval", PCU_Comm_Self() ? "" : outSince(at));
    return true;
  }
  if (k == "stats") {
    long at = outPos();
    if (!PCU_Comm_Self()) g->printStats();
    blobText(step, "stats", PCU_Comm_Self() ? "" : outSince(at));
    return true;
  }
  if (k == "metrics") {
    std::vector<double> out;
    for (int t = -1; t < g->numEdgeTypes(); t++)
      for (int gh = 0; gh < 2; gh++) { double w = engpar::getWeight(g, t, gh); out.push_back(w); out.push_back(engpar::EnGPar_Get_Imbalance(w)); }
    sim::submitBlob(step, "metrics", out);
    char buf[256]; buf[0] = 0;
    engpar::getImbalances(g, buf, o.a.size() > 1 && toL(o.a[1]));
    blobText(step, "imbalances", PCU_Comm_Self() ? "" : buf);
    return true;
  }
  return false;
}
