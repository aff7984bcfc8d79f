// Meshes and balancing for the demonstrations.
#include "graph.h"
#include <engpar.h>
#include <engpar_metrics.h>
#include <engpar_diffusive_input.h>
#include <engpar_weight_input.h>
#include <engpar_split_input.h>
#include <algorithm>
#include <cmath>
// nx by ny quadrilaterals, element i*ny+j; hyperedges are mesh vertices (4 elements around each) in type 0 and mesh edges in type 1
template <class F> static DGraph mesh(int nx, int ny, bool hyper, int types, F owner) {
  DGraph d; d.hyper = hyper; d.types.resize(types);
  for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) d.own[i * ny + j] = owner(i, j);
  for (int t = 0; t < types; t++) {
    int id = 0;
    if (hyper && t == 0) {
      for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) {
        DEdge e; e.id = id++; e.w = 1;
        for (int a = i - 1; a <= i; a++) for (int b = j - 1; b <= j; b++) if (a >= 0 && a < nx && b >= 0 && b < ny) e.pins.push_back(a * ny + b);
        d.types[t].push_back(e);
      }
    } else
      for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
        auto link = [&](Gid a, Gid b) { d.types[t].push_back(DEdge{id++, 1.0 + t, {a, b}}); if (!hyper) d.types[t].push_back(DEdge{id++, 1.0 + t, {b, a}}); };
        if (i + 1 < nx) link(i * ny + j, (i + 1) * ny + j);
        if (j + 1 < ny) link(i * ny + j, i * ny + j + 1);
      }
  }
  return d;
}
static double imb(agi::Ngraph* g, int dim) { return engpar::EnGPar_Get_Imbalance(engpar::getWeight(g, dim)); }
// every process learns where every vertex of d now is
static void whereIs(agi::Ngraph* g, std::map<Gid, int>& own) {
  int n = 0; for (auto& p : own) n = std::max(n, (int)p.first + 1);
  std::vector<int> at(n, -1), all(n);
  agi::VertexIterator* it = g->begin(); agi::GraphVertex* v;
  while ((v = g->iterate(it))) at[g->globalID(v)] = PCU_Comm_Self();
  MPI_Allreduce(at.data(), all.data(), n, MPI_INT, MPI_MAX, PCU_Get_Comm());
  for (auto& p : own) p.second = all[p.first];
}
