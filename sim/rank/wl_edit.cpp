// Operations of the graph interface that edit a graph in place or derive data
// from it: removing edge types, new weights, second adjacencies, pictures.
#include "common.h"
#include <algorithm>
#include <cmath>
using namespace agi;

uint64_t editHash(uint64_t a, uint64_t b, uint64_t c) {
  uint64_t h = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15) * 0xbf58476d1ce4e5b9ULL ^ c * 0x94d049bb133111ebULL;
  h ^= h >> 31; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32; return h;
}

// an edge as the oracle can name it: its id, or its two ends
static void edgeName(Ngraph* g, GraphEdge* e, std::vector<double>& out) {
  if (g->isHyper()) { out.push_back((double)g->globalID(e)); out.push_back(0); }
  else { out.push_back((double)g->globalID(g->u(e))); out.push_back((double)g->globalID(g->v(e))); }
}

static void second(Ngraph* g, const sim::Op& o, int step) {
  int salt = (int)toL(o.a[1]), NT = g->numEdgeTypes();
  Rng rng(salt);
  std::vector<std::pair<int, int>> todo;   // (0 vev / 1 eve, type)
  for (int t = 0; t < NT; t++) { todo.push_back({0, t}); todo.push_back({1, t}); }
  for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[rng.below((int)i)]);
  auto comp = [&](int k, int t) { return (salt >> (2 * t + k)) & 1; };
  // everything is derived first and read afterwards
  for (auto& x : todo) {
    if (salt % 3 == 0) { if (x.first) g->create_eve_adjacency(x.second, !comp(1, x.second)); else g->create_vev_adjacency(x.second, !comp(0, x.second)); }
    if (x.first) g->create_eve_adjacency(x.second, comp(1, x.second)); else g->create_vev_adjacency(x.second, comp(0, x.second));
  }
  for (int t = 0; t < NT; t++) {
    std::vector<double> out, row;
    VertexIterator* vi = g->begin(); GraphVertex* v;
    while ((v = g->iterate(vi))) {
      row.clear();
      VEVIterator* it = g->vev_begin(v, t); GraphVertex* w; long n = 0;
      for (w = g->iterate(it); it != g->vev_end(v, t); w = g->iterate(it)) { row.push_back((double)g->globalID(w)); if (++n > 1000000) sim::violation("adjacency.endless", "rank %d: iteration over the second adjacency of a vertex does not end", sim::rank()); }
      out.push_back((double)g->globalID(v)); out.push_back((double)n); out.insert(out.end(), row.begin(), row.end());
      sim::probe("adj.vev");
    }
    sim::submitBlob(step, "vev" + std::to_string(t), out);
    out.clear();
    EdgeIterator* ei = g->begin(t); GraphEdge* e;
    while ((e = g->iterate(ei))) {
      row.clear();
      EVEIterator* it = g->eve_begin(e); GraphEdge* f; long n = 0;
      for (f = g->iterate(it); it != g->eve_end(e); f = g->iterate(it)) { edgeName(g, f, row); if (++n > 1000000) sim::violation("adjacency.endless", "rank %d: iteration over the second adjacency of an edge does not end", sim::rank()); }
      edgeName(g, e, out); out.push_back((double)n); out.insert(out.end(), row.begin(), row.end());
      sim::probe("adj.eve");
    }
    g->destroy(ei);
    sim::submitBlob(step, "eve" + std::to_string(t), out);
  }
}

static void picture(Ngraph* g, const sim::Op& o, int step) {
  const std::string& prefix = o.a[1]; int salt = (int)toL(o.a[2]), mode = (int)toL(o.a[3]);
  GraphTag* tag = NULL;
  if (mode == 1) {
    tag = g->createIntTag(VTX_TYPE);
    VertexIterator* vi = g->begin(); GraphVertex* v;
    while ((v = g->iterate(vi))) g->setIntTag(tag, v, (int)(editHash(g->globalID(v), 1, salt) % 100000));
  } else if (mode == 2) {
    tag = g->createIntTag(0);
    EdgeIterator* ei = g->begin(0); GraphEdge* e;
    while ((e = g->iterate(ei))) g->setIntTag(tag, e, (int)(editHash(g->globalID(e), 2, salt) % 100000));
    g->destroy(ei);
  }
  if (mode == 0) writeVTK(g, prefix.c_str()); else writeVTK(g, prefix.c_str(), tag, mode == 1 ? VTX_TYPE : 0);
  if (tag) g->destroyTag(tag);
  std::string t, p;
  std::string mine = prefix + std::to_string(PCU_Comm_Self()) + ".vtu";
  if (!sim::diskGet(mine, t)) sim::violation("vtk.missing", "rank %d wrote no file %s", sim::rank(), mine.c_str());
  if (!PCU_Comm_Self() && !sim::diskGet(prefix + ".pvtu", p)) sim::violation("vtk.missing", "no file %s.pvtu was written", prefix.c_str());
  t += std::string(1, '\1') + p;
  std::vector<double> v; for (unsigned char c : t) v.push_back(c);
  sim::submitBlob(step, "vtk", v);
}

// 0: not an editing op, 1: done, 2: done and the graph should be looked at
int editOp(Ngraph* g, const sim::Op& o, int step) {
  const std::string& k = o.a[0];
  if (k == "rmtype") { g->removeEdges((int)toL(o.a[1])); return 2; }
  if (k == "setew") { g->setEdgeWeights(toD(o.a[2]), (int)toL(o.a[1])); return 2; }
  if (k == "setvw") {
    std::vector<wgt_t> w(g->numLocalVtxs());
    VertexIterator* vi = g->begin(); GraphVertex* v;
    while ((v = g->iterate(vi))) w[g->localID(v)] = 0.25 * (1 + (int)(editHash(g->globalID(v), 3, toL(o.a[1])) % 30));
    sim::Array<wgt_t> aw(w);
    g->setWeights(aw);
    return 2;
  }
  if (k == "setco") {
    coord_t* c = new coord_t[g->numLocalVtxs()];
    VertexIterator* vi = g->begin(); GraphVertex* v;
    while ((v = g->iterate(vi))) for (int i = 0; i < 3; i++) c[g->localID(v)][i] = (int)(editHash(g->globalID(v), 4 + i, toL(o.a[1])) % 800) * 0.125 - 40;
    g->setCoords(c);
    delete[] c;
    return 2;
  }
  if (k == "adj2") { second(g, o, step); return 1; }
  if (k == "vtk") { picture(g, o, step); return 1; }
  return 0;
}
