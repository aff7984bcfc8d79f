// A small distributed graph for the demonstrations: vertex i on process i % P, ring edges plus chords.
#include <ngraph.h>
#include <agiMigration.h>
#include <PCU.h>
#include <mpi.h>
#include <engpar_support.h>
#include <cstdio>
#include <map>
#include <set>
#include <vector>
#include <unistd.h>
typedef agi::gid_t Gid;
struct DEdge { Gid id; double w; std::vector<Gid> pins; };
struct DGraph { bool hyper; std::map<Gid, int> own; std::map<Gid, double> w; std::vector<std::vector<DEdge>> types; };
static agi::Ngraph* make(const DGraph& d) {
  int self = PCU_Comm_Self();
  std::vector<Gid> vs; std::vector<agi::wgt_t> ws;
  for (auto& p : d.own) if (p.second == self) { vs.push_back(p.first); auto i = d.w.find(p.first); ws.push_back(i == d.w.end() ? 1 : i->second); }
  agi::Ngraph* g = agi::createEmptyGraph();
  g->constructVerts(d.hyper, vs, ws);
  std::unordered_map<Gid, agi::part_t> owns;
  for (auto& t : d.types) {
    std::vector<Gid> ids, pins; std::vector<agi::lid_t> degs; std::vector<agi::wgt_t> ew;
    for (auto& e : t) {
      bool mine = false;
      for (size_t i = 0; i < (d.hyper ? e.pins.size() : 1); i++) if (d.own.at(e.pins[i]) == self) mine = true;
      if (!mine) continue;
      ids.push_back(e.id); degs.push_back(e.pins.size()); ew.push_back(e.w);
      for (Gid p : e.pins) { pins.push_back(p); if (d.own.at(p) != self) owns[p] = d.own.at(p); }
    }
    g->constructEdges(ids, degs, pins, ew);
  }
  g->constructGhosts(owns);
  return g;
}
// moves every vertex to `to` (collective)
static void moveAll(agi::Ngraph* g, const std::map<Gid, int>& to) {
  agi::Migration* plan = new agi::Migration(g);
  agi::VertexIterator* it = g->begin(); agi::GraphVertex* v;
  while ((v = g->iterate(it))) { auto i = to.find(g->globalID(v)); if (i != to.end() && i->second != PCU_Comm_Self()) plan->insert(std::make_pair(v, i->second)); }
  g->migrate(plan);
}
// compares the distributed graph with its description; returns the number of differences seen here
static int differs(agi::Ngraph* g, const DGraph& d) {
  int self = PCU_Comm_Self(), bad = 0; size_t mine = 0;
#define BAD(...) do { bad++; if (bad < 4) { printf("process %d: ", self); printf(__VA_ARGS__); printf("\n"); fflush(stdout); } } while (0)
  for (auto& p : d.own) mine += p.second == self;
  if ((size_t)g->numLocalVtxs() != mine) BAD("%ld vertices instead of %zu", (long)g->numLocalVtxs(), mine);
  if ((size_t)g->numGlobalVtxs() != d.own.size()) BAD("%ld global vertices", (long)g->numGlobalVtxs());
  agi::VertexIterator* it = g->begin(); agi::GraphVertex* v;
  while ((v = g->iterate(it))) {
    Gid id = g->globalID(v);
    if (!d.own.count(id) || d.own.at(id) != self) BAD("vertex %ld should not be here", (long)id);
    else { auto i = d.w.find(id); if (g->weight(v) != (i == d.w.end() ? 1 : i->second)) BAD("vertex %ld weighs %g", (long)id, g->weight(v)); }
  }
  agi::GhostIterator* gi = g->beginGhosts();
  while ((v = g->iterate(gi))) { Gid id = g->globalID(v); if (!d.own.count(id)) BAD("unknown ghost %ld", (long)id); else if (g->owner(v) != d.own.at(id)) BAD("ghost %ld owned by %d instead of %d", (long)id, g->owner(v), d.own.at(id)); }
  if ((size_t)g->numEdgeTypes() != d.types.size()) { BAD("%d edge types", (int)g->numEdgeTypes()); return bad; }
  for (size_t t = 0; t < d.types.size(); t++) {
    typedef std::pair<std::multiset<Gid>, double> K; std::multiset<K> want, got;
    for (auto& e : d.types[t]) {
      bool here = false;
      for (size_t i = 0; i < (d.hyper ? e.pins.size() : 1); i++) if (d.own.at(e.pins[i]) == self) here = true;
      if (here) want.insert(K(std::multiset<Gid>(e.pins.begin(), e.pins.end()), e.w));
    }
    agi::EdgeIterator* ei = g->begin(t); agi::GraphEdge* e;
    while ((e = g->iterate(ei))) {
      std::multiset<Gid> ps; agi::PinIterator* pi = g->pins(e); agi::GraphVertex* p;
      for (int i = 0; i < g->degree(e); i++) { p = g->iterate(pi); ps.insert(g->globalID(p)); }
      g->destroy(pi); got.insert(K(ps, g->weight(e)));
    }
    g->destroy(ei);
    if (want != got) BAD("edges of type %zu: %zu instead of %zu, or different ones", t, got.size(), want.size());
    if (g->numGlobalEdges(t) != (Gid)d.types[t].size()) BAD("%ld global edges of type %zu instead of %zu", (long)g->numGlobalEdges(t), t, d.types[t].size());
  }
  return bad;
}
static int finish(int bad) {
  int all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  EnGPar_Finalize(); PCU_Comm_Free(); MPI_Finalize(); return all != 0;
}
static void start(int* c, char*** v) { MPI_Init(c, v); PCU_Comm_Init(); EnGPar_Initialize(); EnGPar_Set_Verbosity(-1); alarm(40); }
// vertices 0..n-1 round robin (or in blocks), ring of edges
static DGraph ring(bool hyper, int n, bool blocks) {
  int P = PCU_Comm_Peers(); DGraph d; d.hyper = hyper; d.types.resize(1);
  for (int i = 0; i < n; i++) d.own[i] = blocks ? i * P / n : i % P;
  for (int i = 0; i < n; i++) d.types[0].push_back(DEdge{i, 1.0 + i, {i, (i + 1) % n}});
  return d;
}
