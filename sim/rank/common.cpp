#include "common.h"
#include <algorithm>
#include <unordered_set>
#include <set>
using namespace agi;

long toL(const std::string& s) { return strtol(s.c_str(), 0, 10); }
double toD(const std::string& s) { return strtod(s.c_str(), 0); }

static std::map<std::string, Workload>& table() { static std::map<std::string, Workload> t; return t; }
Reg::Reg(const char* n, Workload w) { table()[n] = w; }
extern "C" __attribute__((visibility("default"))) void rank_main() {
  auto it = table().find(sim::spec().get("workload"));
  if (it == table().end()) { fprintf(stderr, "no workload %s\n", sim::spec().get("workload").c_str()); _Exit(96); }
  it->second();
}
// what happens to a rank's static objects when its process ends
extern "C" { extern char ownHandle asm("__dso_handle") __attribute__((visibility("hidden"))); void __cxa_finalize(void*); }
extern "C" __attribute__((visibility("default"))) void rank_statics() { __cxa_finalize(&ownHandle); }

// EnGPar's generated version file is not part of the simulated build.
#include <engpar_version.h>

template <class T> static void shuffle(std::vector<T>& v, Rng& r) {
  for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below((int)i)]);
}

void constructInto(Ngraph* g, const sim::Spec& sp, int self, int variant, bool coords) {
  bool hyper = sp.num("hyper", 1);
  int ntypes = (int)sp.num("ntypes", 1);
  Rng rng(variant * 7919 + self * 104729 + 5);
  std::unordered_map<Gid, int> owner;
  std::vector<const sim::GVert*> mine;
  for (auto& v : sp.verts) { owner[v.id] = v.owner; if (v.owner == self) mine.push_back(&v); }
  if (variant & 1) shuffle(mine, rng);
  std::vector<Gid> ids; std::vector<wgt_t> ws;
  for (auto v : mine) { ids.push_back(v->id); ws.push_back(v->w); }
  bool unit = sp.num("unit_weights", 0), capi = sp.num("capi", 0);
  // everything in one call
  bool oneCall = !capi && !(variant & 26) && ntypes == 1 && sp.num("unit_edge_weights", 0);
  if (oneCall) {
  } else if (capi) {
    sim::Array<Gid> ai(ids); sim::Array<wgt_t> aw(ws);
    cengpar_constructVerts((ngraph)g, hyper, ai, aw, (int)ids.size());
  } else if (variant & 2) {
    sim::Array<Gid> ai(ids); sim::Array<wgt_t> aw(ws);
    g->constructVerts(hyper, (lid_t)ids.size(), ai, unit ? NULL : (wgt_t*)aw);
  } else {
    std::vector<wgt_t> none;
    g->constructVerts(hyper, ids, unit ? none : ws);
  }
  std::unordered_map<Gid, part_t> ghostOwner;
  std::vector<Gid> gv; std::vector<part_t> go;
  for (int t = 0; t < ntypes; t++) {
    std::vector<const sim::GEdge*> es;
    for (auto& e : sp.edges) {
      if (e.type != t) continue;
      bool here = false;
      if (hyper) { for (auto p : e.pins) if (owner[p] == self) here = true; if (e.pins.empty()) here = e.home == self; }
      else here = owner[e.pins[0]] == self;
      if (here) es.push_back(&e);
    }
    if (variant & 4) shuffle(es, rng);
    std::vector<Gid> eids, pins; std::vector<lid_t> degs; std::vector<wgt_t> ew;
    for (auto e : es) {
      eids.push_back(e->id); degs.push_back((lid_t)e->pins.size()); ew.push_back(e->w);
      for (auto p : e->pins) {
        pins.push_back(p);
        if (owner[p] != self && !ghostOwner.count(p)) { ghostOwner[p] = owner[p]; gv.push_back(p); go.push_back(owner[p]); }
      }
    }
    if (oneCall) { std::vector<wgt_t> none; g->constructGraph(hyper, ids, unit ? none : ws, eids, degs, pins, ghostOwner); sim::probe("construct.onecall"); continue; }
    bool uw = sp.num("unit_edge_weights", 0);
    int ret;
    sim::Array<Gid> ae(eids), ap(pins); sim::Array<lid_t> ad(degs); sim::Array<wgt_t> aw(ew);
    if (capi) ret = cengpar_constructEdges((ngraph)g, ae, ad, aw, ap, (int)eids.size(), (int)pins.size());
    else if (variant & 8) ret = g->constructEdges((Gid)eids.size(), ae, ad, ap, uw ? NULL : (wgt_t*)aw);
    else { std::vector<wgt_t> none; ret = g->constructEdges(eids, degs, pins, uw ? none : ew); }
    if (ret != t) sim::violation("construct.type", "constructing edge type %d returned id %d", t, ret);
  }
  sim::Array<Gid> agv(gv); sim::Array<part_t> ago(go);
  if (oneCall) {}
  else if (capi) cengpar_constructGhosts((ngraph)g, agv, ago, (int)gv.size());
  else if (variant & 16) { g->constructGhosts((lid_t)gv.size(), agv, ago); }
  else g->constructGhosts(ghostOwner);
  if (coords) {
    std::vector<double> cs;
    for (auto v : mine) for (int k = 0; k < 3; k++) cs.push_back(v->xyz[k]);
    sim::Array<double> ac(cs);
    g->setCoords((coord_t*)(double*)ac);
  }
}

Ngraph* buildGraph(const sim::Spec& sp, int self, int variant, bool coords) {
  Ngraph* g = sp.num("capi") ? (Ngraph*)cengpar_createEmptyGraph() : createEmptyGraph();
  constructInto(g, sp, self, variant, coords);
  return g;
}

void dumpGraph(Ngraph* g, sim::Dump& d, bool ghostWeights, bool orig) {
  d.rank = sim::rank(); d.self = PCU_Comm_Self(); d.peers = PCU_Comm_Peers();
  d.hyper = g->isHyper(); d.coords = g->hasCoords(); d.ntypes = g->numEdgeTypes();
  d.gverts = g->numGlobalVtxs(); d.lverts = g->numLocalVtxs(); d.ghosts = g->numGhostVtxs(); d.tverts = g->numTotalVtxs();
  d.hasOrig = orig;
  for (int t = 0; t < d.ntypes; t++) {
    d.gedges.push_back(g->numGlobalEdges(t)); d.gpins.push_back(g->numGlobalPins(t));
    d.ledges.push_back(g->numLocalEdges(t)); d.lpins.push_back(g->numLocalPins(t));
  }
  VertexIterator* vi = g->begin(); GraphVertex* v;
  std::set<lid_t> lids;
  while ((v = g->iterate(vi))) {
    sim::DumpVert x;
    lid_t lid = g->localID(v);
    if (lid < 0 || lid >= d.lverts || !lids.insert(lid).second) sim::violation("graph.localid", "rank %d: vertex %ld has local number %ld, which is out of range or taken", d.rank, (Gid)g->globalID(v), (long)lid);
    if (g->find(v) != v || !g->isEqual(v, v)) sim::violation("graph.lookup", "rank %d: looking up vertex %ld by itself does not find it", d.rank, (Gid)g->globalID(v));
    x.id = g->globalID(v); x.w = g->weight(v); x.owner = g->owner(v); x.orig = orig ? g->originalOwner(v) : -1;
    for (int k = 0; k < 3; k++) x.xyz[k] = d.coords ? g->coord(v)[k] : 0;
    if (g->findGID(x.id) != v) sim::violation("graph.lookup", "rank %d: looking up vertex %ld by global id does not find it", d.rank, x.id);
    for (int t = 0; t < d.ntypes; t++) {
      x.degree.push_back(g->degree(v, t));
      std::vector<sim::gid> es, ad;
      EdgeIterator* ei = g->edges(v, t); GraphEdge* e;
      std::set<GraphEdge*> at;
      while ((e = g->iterate(ei))) {
        es.push_back(d.hyper ? g->globalID(e) : g->globalID(g->v(e))); at.insert(e);
        if (!d.hyper && !g->isEqual(g->u(e), v)) sim::violation("graph.source", "rank %d: an edge of vertex %ld names another source", d.rank, x.id);
      }
      g->destroy(ei);
      GraphIterator* gi = g->adjacent(v, t); GraphVertex* o;
      while ((o = g->iterate(gi))) {
        ad.push_back(g->globalID(o));
        // the edge that leads to this neighbour
        e = g->edge(gi);
        bool leads = false;
        if (at.count(e)) { PinIterator* pi = g->pins(e); GraphVertex* q; while ((q = g->iterate(pi))) leads |= g->isEqual(q, o); g->destroy(pi); }
        if (!leads) sim::violation("graph.via", "rank %d: the edge by which %ld is adjacent to %ld does not connect them", d.rank, (Gid)g->globalID(o), x.id);
      }
      g->destroy(gi);
      std::sort(es.begin(), es.end()); std::sort(ad.begin(), ad.end());
      x.edges.push_back(es); x.adj.push_back(ad);
    }
    d.verts.push_back(x);
    if (d.verts.size() > 1000000) sim::violation("graph.iterate", "vertex iteration does not terminate");
  }
  GhostIterator* gi = g->beginGhosts();
  while ((v = g->iterate(gi))) {
    sim::DumpGhost x; x.id = g->globalID(v); x.owner = g->owner(v);
    x.hasW = ghostWeights && d.peers > 1; x.w = x.hasW ? g->weight(v) : 0;
    lid_t lid = g->localID(v);
    if (lid < d.lverts || lid >= d.tverts || !lids.insert(lid).second) sim::violation("graph.localid", "rank %d: ghost vertex %ld has local number %ld, which is out of range or taken", d.rank, x.id, (long)lid);
    if (g->findGID(x.id) != v) sim::violation("graph.lookup", "rank %d: looking up ghost vertex %ld by global id does not find it", d.rank, x.id);
    d.ghost.push_back(x);
    if (d.ghost.size() > 1000000) sim::violation("graph.iterate", "ghost iteration does not terminate");
  }
  for (int t = 0; t < d.ntypes; t++) {
    EdgeIterator* ei = g->begin(t); GraphEdge* e;
    std::set<lid_t> elids;
    while ((e = g->iterate(ei))) {
      if (g->localID(e) < 0 || g->localID(e) >= d.ledges[t] || !elids.insert(g->localID(e)).second) sim::violation("graph.localid", "rank %d: an edge of type %d has local number %ld, which is out of range or taken", d.rank, t, (long)g->localID(e));
      sim::DumpEdge x; x.type = t; x.id = g->globalID(e); x.w = g->weight(e); x.degree = g->degree(e);
      PinIterator* pi = g->pins(e); GraphVertex* p;
      while ((p = g->iterate(pi))) { x.pins.push_back(g->globalID(p)); x.pinOwner.push_back(g->owner(p)); }
      g->destroy(pi);
      Peers res; g->getResidence(e, res);
      x.residence.assign(res.begin(), res.end());
      x.cut = g->isCut(e);
      for (int r = 0; r < d.peers; r++)
        if (g->isResidentOn(e, r) != (res.count(r) > 0)) sim::violation("graph.residence", "rank %d: isResidentOn and getResidence disagree about part %d", d.rank, r);
      d.edges.push_back(x);
    }
    g->destroy(ei);
  }
}

void migrateTo(Ngraph* g, const std::unordered_map<Gid, int>& dest, bool viaRepartition, int shuf) {
  int P = PCU_Comm_Peers();
  if (viaRepartition) {
    std::vector<part_t> part;
    VertexIterator* vi = g->begin(); GraphVertex* v;
    while ((v = g->iterate(vi))) {
      auto it = dest.find(g->globalID(v));
      part.push_back(it == dest.end() ? PCU_Comm_Self() : it->second % P);
    }
    sim::Array<part_t> ap(part);
    g->repartition(ap);
    return;
  }
  g->setOriginalOwners();
  Migration* plan = new Migration(g);
  std::vector<std::pair<GraphVertex*, int>> todo;
  VertexIterator* vi = g->begin(); GraphVertex* v;
  while ((v = g->iterate(vi))) {
    auto it = dest.find(g->globalID(v));
    if (it != dest.end()) todo.push_back(std::make_pair(v, it->second % P));
  }
  if (shuf) { Rng r(shuf * 31 + PCU_Comm_Self()); shuffle(todo, r); }
  for (auto& p : todo) plan->insert(p);
  if ((int)todo.size() != plan->size()) sim::violation("plan.size", "a plan of %zu insertions reports size %d", todo.size(), (int)plan->size());
  g->migrate(plan);
}
