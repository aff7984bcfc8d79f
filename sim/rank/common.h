// Rank-side helpers: compiled into every rank copy next to EnGPar's sources.
#ifndef RANK_COMMON_H
#define RANK_COMMON_H
#include <algorithm>
#include <cassert>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "../simapi.h"
#include <ngraph.h>
#include <agiMigration.h>
#include <PCU.h>
#include <mpi.h>
#include <engpar.h>
#include <engpar_input.h>
#include <engpar_support.h>
#include <engpar_metrics.h>
#include <binGraph.h>
#include <cengpar.h>
#include <string>
#include <vector>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>

typedef agi::gid_t Gid;
typedef void (*Workload)();
struct Reg { Reg(const char* name, Workload w); };
#define WORKLOAD(name) static void wl_##name(); static Reg reg_##name(#name, wl_##name); static void wl_##name()

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
};

long toL(const std::string& s);
double toD(const std::string& s);

struct BuildOpts { int variant; bool coords; bool orig; int emptyAs; };
// Builds this rank's share of the scenario's graph through the public
// construction interface.  `variant` selects which overloads are used and the
// (rank-local) order in which vertices and edges are presented.
agi::Ngraph* buildGraph(const sim::Spec& sp, int self, int variant, bool coords);
void constructInto(agi::Ngraph* g, const sim::Spec& sp, int self, int variant, bool coords);
void dumpGraph(agi::Ngraph* g, sim::Dump& d, bool ghostWeights = true, bool orig = true);
void migrateTo(agi::Ngraph* g, const std::unordered_map<Gid, int>& dest, bool viaRepartition, int shuffle);
#endif
