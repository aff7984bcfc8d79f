// Graphs made from finite element meshes.
#include "drv.h"
#include "../mesh.h"
#include <algorithm>
static std::string I(long x) { return num(x); }
static std::vector<int> list(const std::string& l) { std::vector<int> r; for (size_t i = 0; i < l.size();) { r.push_back(atoi(l.c_str() + i)); i = l.find(',', i); if (i == std::string::npos) break; i++; } return r; }

// the graph the mesh of a scenario has to become
static Spec meshGraph(const Spec& s) {
  SimMesh m(s);
  Spec g; g.kv = s.kv; g.ops = s.ops;
  g.kv["hyper"] = "1"; g.kv["coords"] = "1"; g.kv.erase("unit_weights"); g.kv.erase("unit_edge_weights");
  bool dof = s.get("make") == "dof"; int ord = (int)s.num("fe_order", 1);
  int p = dof ? m.dim : (int)s.num("primary", m.dim);
  for (size_t i = 0; i < m.e[p].size(); i++) {
    GVert v; v.id = m.num[p][i]; v.owner = m.e[p][i].owner; v.w = 1; m.centroid(p, (int)i, v.xyz); g.verts.push_back(v);
  }
  std::vector<std::pair<int, double>> sec;   // dimension, weight
  if (dof) { sec.push_back({0, 1}); if (ord >= 2) sec.push_back({1, ord - 1}); if (ord >= 4 && m.dim > 2) sec.push_back({2, ord - 3}); }
  else for (int d : list(s.get("secondary", "0"))) { sec.push_back({d, 1}); if (s.get("make") == "one") break; }
  int nt = dof ? 1 : (int)sec.size();
  g.kv["ntypes"] = I(nt);
  gid off = 0;
  for (size_t k = 0; k < sec.size(); k++) {
    int d = sec[k].first;
    for (size_t j = 0; j < m.e[d].size(); j++) {
      GEdge x; x.type = dof ? 0 : (int)k; x.id = m.num[d][j] + (dof ? off : 0); x.w = sec[k].second; x.home = 0;
      for (size_t i = 0; i < m.e[p].size(); i++) if (m.adjacent(p, (int)i, d, (int)j)) x.pins.push_back(m.num[p][i]);
      g.edges.push_back(x);
    }
    off += (gid)m.e[d].size();
  }
  return g;
}

// The numbers of the degree of freedom holders are the library's choice: an
// observed edge is identified by its pins and weight.
struct Names {
  std::map<gid, gid> to;
  void learn(const Model& m, const std::vector<Dump>& ds) {
    typedef std::pair<std::vector<gid>, double> K;
    std::map<gid, K> seen; std::map<K, std::vector<gid>> have, want;
    for (auto& d : ds) for (auto& e : d.edges) {
      K k(e.pins, e.w); std::sort(k.first.begin(), k.first.end());
      auto it = seen.insert({e.id, k});
      if (!it.second && it.first->second != k) vio("edge.identity", fmt("edge %ld is not the same edge everywhere", (long)e.id));
      if (it.second) have[k].push_back(e.id);
    }
    for (auto& e : m.e) { K k(e.pins, e.w); std::sort(k.first.begin(), k.first.end()); want[k].push_back(e.id); }
    for (auto& h : have) {
      auto& w = want[h.first];
      std::sort(w.begin(), w.end()); std::sort(h.second.begin(), h.second.end());
      for (size_t i = 0; i < h.second.size(); i++) to[h.second[i]] = i < w.size() ? w[i] : -1 - h.second[i];
    }
  }
  gid at(gid i) const { auto it = to.find(i); return it == to.end() ? -1 - i : it->second; }
  void apply(std::vector<Dump>& ds) const {
    for (auto& d : ds) {
      for (auto& e : d.edges) e.id = at(e.id);
      for (auto& v : d.verts) for (auto& l : v.edges) { for (auto& x : l) x = at(x); std::sort(l.begin(), l.end()); }
    }
  }
};

static RegP f02([] {
  Property p; p.id = "F02";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    s.kv["workload"] = "mesh";
    int N = r.chance(20) ? 1 : r.range(2, r.chance(70) ? 4 : 8);
    s.kv["nranks"] = I(N);
    genSchedule(s, r);
    int kind = r.below(4), dim = kind < 2 ? 2 : 3;
    int big = th ? 2 : 1;
    int nx = r.range(1, dim == 2 ? 5 * big : 3), ny = r.range(1, dim == 2 ? 5 : 3), nz = dim == 3 ? r.range(1, kind == 3 ? 2 : 3) : 1;
    if (kind == 3 && !th) { nx = std::min(nx, 2); ny = std::min(ny, 2); }
    if (dim == 2 && r.chance(2)) { nx = r.range(12, 18); ny = r.range(12, 18); }   // more entities than fit in a byte
    s.kv["kind"] = I(kind); s.kv["nx"] = I(nx); s.kv["ny"] = I(ny);
    int per = kind == 1 ? 2 : kind == 3 ? 6 : 1, n = nx * ny * nz * per, style = r.below(5), heavy = r.below(N), hole = r.chance(30) ? r.range(5, 40) : 0;
    for (int i = 0; i < n; i++) {
      if (hole && r.chance(hole)) continue;
      GVert v; v.id = i; v.w = 1; v.xyz[0] = v.xyz[1] = v.xyz[2] = 0;
      v.owner = style == 0 ? r.below(N) : style == 1 ? (int)((long)i * N / n) : style == 2 ? i % N : style == 3 ? (r.chance(85) ? heavy : r.below(N)) : (i / per % nx) * N / nx % N;
      s.verts.push_back(v);
    }
    if (r.chance(2)) s.verts.clear();
    s.kv["own_rule"] = I(r.below(3));
    if (r.chance(70)) s.kv["order"] = I(r.range(1, 9999));
    s.kv["name"] = r.chance(60) ? "mesh" : r.chance(50) ? "a" : "a-name-that-is-rather-long-for-a-graph-made-of-a-mesh_0123456789";
    if (r.chance(25)) s.kv["log"] = "1";
    int mk = r.below(3);
    s.kv["make"] = mk == 0 ? "one" : mk == 1 ? "many" : "dof";
    if (mk == 2) s.kv["fe_order"] = I(r.range(1, 4));
    else {
      int pr = N == 1 && r.chance(50) ? r.below(dim + 1) : dim;
      s.kv["primary"] = I(pr);
      std::vector<int> c; for (int d = 0; d <= dim; d++) if (d != pr) c.push_back(d);
      for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[r.below((int)i)]);
      int k = mk == 0 ? 1 : r.range(1, (int)c.size());
      std::string l; for (int i = 0; i < k; i++) l += (i ? "," : "") + I(c[i]);
      if (mk == 1 && r.chance(10)) l += "," + I(c[0]);   // the same dimension as two edge types
      s.kv["secondary"] = l;
    }
    if (r.chance(15)) {
      int w = r.below(N > 1 ? 6 : 5), d = r.below(dim);
      s.kv["bad"] = w == 0 ? I(dim + 1) + "," + I(d) : w == 1 ? I(dim) + "," + I(dim + r.range(1, 2)) : w == 2 ? "-1," + I(d) : w == 3 ? I(dim) + ",-1" : w == 4 ? I(dim) + "," + I(dim) : I(d) + "," + I(dim);
    }
    if (s.verts.size() && r.chance(50)) {
      Spec g = meshGraph(s);
      std::map<gid, int> own; for (auto& v : g.verts) own[v.id] = v.owner;
      for (int i = r.range(1, 2); i > 0; i--) s.ops.push_back(migOp(s, r, own, N));
    }
  };
  p.hooks = [](const Spec& s, sim::Hooks& h, int) {
    auto g = std::make_shared<Spec>(meshGraph(s));
    auto st = std::make_shared<GraphOracle>(*g);
    auto names = std::make_shared<Names>();
    bool dof = s.get("make") == "dof";
    h.onDump = [st, g, names, dof](int step, std::vector<Dump>& d) {
      st->advance(step);
      if (dof) { if (!step) names->learn(st->m, d); names->apply(d); }
      CheckOpts o; o.when = step ? "after migrating the graph of a mesh" : "after making the graph of a mesh"; o.orig = step > 0;
      checkDumps(st->m, d, o);
    };
  };
  p.valid = [](const Spec& s) {
    int dim = s.num("kind") < 2 ? 2 : 3;
    if (s.num("nranks") > 1 && s.get("make") != "dof" && s.num("primary", dim) != dim) return false;
    if (s.kv.count("bad")) { auto b = list(s.get("bad")); if (b[0] >= 0 && b[0] < dim && b[1] == dim && s.num("nranks") == 1) return false; }
    return true;
  };
  p.quickRuns = 12000; p.thoroughRuns = 300000;
  p.wantProbes = {"mesh.graph", "mesh.refused"};
  p.rule = "a case is one simulated job in which a generated distributed mesh (quadrilaterals, triangles, hexahedra or tetrahedra, with holes, any placement, ownership rule and local order) is made a graph: elements and one or several other dimensions, or the holders of degrees of freedom of order 1-4; optionally migrated afterwards; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.real = "interfaces/apfGraph.cpp, interfaces/dofGraph.cpp, agi/*, pcu/*, support/*"; p.stub = "MPI, clock, PUMI (mesh and numberings)";
  return p; }());
