// Graphs made from meshes: EnGPar's own interfaces/apfGraph.cpp and
// dofGraph.cpp on a stand-in for PUMI.
#include "common.h"
#ifdef NO_MESH
WORKLOAD(mesh) { sim::notBuilt("the mesh interface does not compile on the stand-in for PUMI"); }
#else
#include "../mesh.h"
#include <apfGraph.h>
using namespace agi;

namespace apf {
class MeshEntity { public: int d, i; };
class MeshIterator { public: int d; size_t at; };
struct Standin : Mesh2 {
  SimMesh m; int self;
  std::vector<MeshEntity> ent[4];
  std::vector<char> here[4];
  int iterators = 0;
  explicit Standin(const sim::Spec& s) : m(s), self(sim::rank()) {
    for (int d = 0; d <= m.dim; d++) {
      ent[d].resize(m.e[d].size()); here[d].assign(m.e[d].size(), 0);
      for (size_t i = 0; i < ent[d].size(); i++) { ent[d][i].d = d; ent[d][i].i = (int)i; }
      for (int i : m.local[d][self]) here[d][i] = 1;
    }
  }
  void dimOk(int d) { if (d < 0 || d > m.dim) sim::violation("mesh.dimension", "the mesh of dimension %d is asked for entities of dimension %d", m.dim, d); }
  SimMesh::Ent& E(MeshEntity* e) { if (!e) sim::violation("mesh.entity", "the mesh is asked about no entity"); return m.e[e->d][e->i]; }
  int getDimension() override { return m.dim; }
  size_t count(int d) override { dimOk(d); return m.local[d][self].size(); }
  MeshIterator* begin(int d) override { dimOk(d); iterators++; MeshIterator* it = new MeshIterator; it->d = d; it->at = 0; return it; }
  MeshEntity* iterate(MeshIterator* it) override { auto& l = m.local[it->d][self]; return it->at < l.size() ? &ent[it->d][l[it->at++]] : NULL; }
  void end(MeshIterator* it) override { iterators--; delete it; }
  bool isShared(MeshEntity* e) override { return E(e).parts.size() > 1; }
  bool isOwned(MeshEntity* e) override { return E(e).owner == self; }
  int getOwner(MeshEntity* e) override { return E(e).owner; }
  void getResidence(MeshEntity* e, Parts& p) override { p.clear(); p.insert(E(e).parts.begin(), E(e).parts.end()); }
  void getAdjacent(MeshEntity* e, int d, Adjacent& a) override {
    dimOk(d); a.setSize(0);
    if (d == e->d) { a.append(e); return; }
    for (int i : m.local[d][self]) if (m.adjacent(e->d, e->i, d, i)) a.append(&ent[d][i]);
  }
  int getDownward(MeshEntity* e, int d, MeshEntity** out) override {
    if (d > e->d) sim::violation("mesh.dimension", "downward adjacency to a higher dimension");
    Adjacent a; getAdjacent(e, d, a);
    for (size_t i = 0; i < a.getSize(); i++) out[i] = a[i];
    return (int)a.getSize();
  }
};
static Standin* S(Mesh* m) { return static_cast<Standin*>(m); }
class Numbering { public: Standin* s; int d; std::vector<long> n; };
class GlobalNumbering { public: Standin* s; int d; std::vector<long> n; };
static int numberings = 0;
size_t countOwned(Mesh* m, int d) { size_t n = 0; S(m)->dimOk(d); for (int i : S(m)->m.local[d][S(m)->self]) n += S(m)->m.e[d][i].owner == S(m)->self; return n; }
Vector3 getLinearCentroid(Mesh* m, MeshEntity* e) { double p[3]; S(m)->m.centroid(e->d, e->i, p); return Vector3(p[0], p[1], p[2]); }
Numbering* numberOwnedDimension(Mesh* m, const char* name, int d) {
  S(m)->dimOk(d);
  if (!name || !*name) sim::violation("mesh.numbering", "a numbering without a name");
  Numbering* n = new Numbering; numberings++; n->s = S(m); n->d = d; n->n.assign(n->s->ent[d].size(), -1);
  long k = 0;
  for (int i : n->s->m.local[d][n->s->self]) if (n->s->m.e[d][i].owner == n->s->self) n->n[i] = k++;
  return n;
}
void destroyNumbering(Numbering* n) { numberings--; delete n; }
GlobalNumbering* makeGlobal(Numbering* n, bool destroy) {
  GlobalNumbering* g = new GlobalNumbering; numberings++; g->s = n->s; g->d = n->d; g->n = n->n;
  long c = 0; for (auto x : n->n) c += x >= 0;
  long off = PCU_Exscan_Long(c);
  for (auto& x : g->n) if (x >= 0) x += off;
  if (destroy) destroyNumbering(n);
  return g;
}
void synchronize(GlobalNumbering* g) {
  auto& m = g->s->m;
  PCU_Comm_Begin();
  for (int i : m.local[g->d][g->s->self]) {
    if (m.e[g->d][i].owner != g->s->self) continue;
    for (int p : m.e[g->d][i].parts) if (p != g->s->self) { long v[2] = {i, g->n[i]}; PCU_Comm_Pack(p, v, sizeof v); }
  }
  PCU_Comm_Send();
  while (PCU_Comm_Receive()) { long v[2]; PCU_Comm_Unpack(v, sizeof v); g->n[v[0]] = v[1]; }
}
void destroyGlobalNumbering(GlobalNumbering* g) { numberings--; delete g; }
static void ok(GlobalNumbering* g, MeshEntity* e, int node) {
  if (!g) sim::violation("mesh.numbering", "a numbering that does not exist is used");
  if (g->d != e->d) sim::violation("mesh.numbering", "an entity of dimension %d is looked up in the numbering of dimension %d", e->d, g->d);
  if (node) sim::violation("mesh.numbering", "node %d of an entity with one node", node);
}
long getNumber(GlobalNumbering* g, MeshEntity* e, int node, int) {
  ok(g, e, node);
  if (g->n[e->i] < 0) sim::violation("mesh.numbering", "the number of an entity is read before it has one");
  return g->n[e->i];
}
void number(GlobalNumbering* g, MeshEntity* e, int node, long v, int) { ok(g, e, node); g->n[e->i] = v; }
}

static Ngraph* create(apf::Mesh* m, const sim::Spec& sp, const char* name, int primary, std::vector<int> sec) {
  if (sp.get("make") == "dof") return createSerendipityGraph(m, name, (int)sp.num("fe_order", 1));
  if (sp.get("make") == "one") return createAPFGraph(m, name, primary, sec[0]);
  sim::Array<int> a(sec);
  return createAPFGraph(m, name, primary, a, (int)sec.size());
}
static std::vector<int> list(const std::string& l) { std::vector<int> r; for (size_t i = 0; i < l.size();) { r.push_back(atoi(l.c_str() + i)); i = l.find(',', i); if (i == std::string::npos) break; i++; } return r; }

WORKLOAD(mesh) {
  const sim::Spec& sp = sim::spec();
  PCU_Comm_Init();
  EnGPar_Initialize();
  EnGPar_Set_Verbosity(-1);
  bool logOpen = false;
  if (sp.num("log")) { EnGPar_Open_Log(); logOpen = EnGPar_Is_Log_Open(); }
  {
    apf::Standin m(sp);
    std::string name = sp.get("name", "mesh");
    if (sp.kv.count("bad")) {
      // dimensions that make no sense here have to be refused
      std::vector<int> b = list(sp.get("bad"));
      bool thrown = false;
      try { createAPFGraph(&m, name.c_str(), b[0], b[1]); } catch (...) { thrown = true; }
      if (!thrown) sim::violation("mesh.accepted", "a graph is made of dimensions %d and %d of a %d-dimensional mesh on %d processes", b[0], b[1], m.m.dim, PCU_Comm_Peers());
      sim::probe("mesh.refused");
    }
    Ngraph* g = NULL;
    bool thrown = false;
    try { g = create(&m, sp, name.c_str(), (int)sp.num("primary", m.m.dim), list(sp.get("secondary", "0"))); } catch (...) { thrown = true; }
    if (sp.verts.empty() != thrown) sim::violation("mesh.refused", thrown ? "a proper mesh is refused" : "a graph is made of a mesh without elements");
    if (g) {
      if (logOpen) {
        if (!EnGPar_Is_Log_Open()) sim::violation("log.closed", "making a graph closes the log");
        char mark[] = "@made\n"; EnGPar_Log_Function(mark); EnGPar_End_Function();   // at the top level
      }
      sim::probe("mesh.graph");
      int step = 0; bool orig = false;
      { sim::Dump d; dumpGraph(g, d, true, orig); sim::submit(step, d); }
      for (auto& o : sp.ops) {
        step++;
        std::unordered_map<Gid, int> dest;
        for (size_t j = 3; j + 1 < o.a.size(); j += 2) dest[toL(o.a[j])] = (int)toL(o.a[j + 1]) % PCU_Comm_Peers();
        migrateTo(g, dest, toL(o.a[1]), (int)toL(o.a[2]));
        orig = true;
        sim::Dump d; dumpGraph(g, d, true, orig); sim::submit(step, d);
      }
      destroyGraph(g);
      if (m.iterators) sim::violation("mesh.iterator", "%d iterators over the mesh were never ended", m.iterators);
      if (apf::numberings) sim::violation("mesh.numbering-left", "%d numberings are left on the mesh after the graph is gone", apf::numberings);
    }
  }
  if (logOpen) {
    EnGPar_Close_Log();
    std::string t; sim::diskGet("log.txt", t);
    size_t at = t.find("@made\n");
    if (!sp.verts.empty()) {
      if (at == std::string::npos || (at && t[at - 1] != '\n')) sim::violation("log.depth", "after making a graph the log is not at its top level: %s", t.c_str());
      // what was asked for is on record: the call, its name or its dimensions in order
      t.resize(at); if (t.size()) t.pop_back();
      size_t l = t.rfind('\n'); if (l != std::string::npos) t = t.substr(l + 1);
      bool dof = sp.get("make") == "dof", good = t.find(dof ? "createSerendipityGraph" : "createAPFGraph") == 0;
      if (dof) good &= t.find(sp.get("name")) != std::string::npos;
      std::vector<int> want = list(sp.get("secondary", "0")), got;
      if (sp.get("make") == "one") want.resize(1);
      want.insert(want.begin(), (int)sp.num("primary", 0));
      if (dof) { want = {(int)sp.num("fe_order", 1)}; size_t k = t.rfind(' '); if (k != std::string::npos) got = {atoi(t.c_str() + k)}; }
      else for (char ch : t) if (ch >= '0' && ch <= '9') got.push_back(ch - '0');
      if (!good || want != got) sim::violation("log.lost", "the log does not record the call that made the graph: %s", t.c_str());
    }
  }
  EnGPar_Finalize();
  PCU_Comm_Free();
}
#endif
