// Reference model: the global graph plus an owner map determines exactly what
// every rank must report.
#include "drv.h"
#include <algorithm>
Model::Model(const Spec& s) {
  hyper = s.num("hyper", 1); P = (int)s.num("nranks", 2); ntypes = (int)s.num("ntypes", 1); coords = s.num("coords", 0);
  bool unit = s.num("unit_weights", 0), uw = s.num("unit_edge_weights", 0);
  for (auto& x : s.verts) { V y; y.owner = x.owner; y.w = unit ? 1 : x.w; for (int k = 0; k < 3; k++) y.xyz[k] = x.xyz[k]; y.orig = x.owner; v[x.id] = y; }
  for (auto& x : s.edges) { e.push_back(x); if (uw) e.back().w = 1; }
}
static std::string L(const std::vector<gid>& v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 12; i++) s += (i ? " " : "") + fmt("%ld", (long)v[i]); return s + (v.size() > 12 ? " ...]" : "]"); }

void adoptOwners(Model& m, const std::vector<Dump>& d, const char* when) {
  std::map<gid, int> own;
  for (auto& x : d)
    for (auto& v : x.verts) {
      if (own.count(v.id)) vio("vertex.duplicated", fmt("%s: vertex %ld is local on rank %d and on rank %d", when, (long)v.id, own[v.id], x.rank));
      if (!m.v.count(v.id)) vio("vertex.invented", fmt("%s: rank %d holds vertex %ld, which does not exist", when, x.rank, (long)v.id));
      own[v.id] = x.rank;
    }
  for (auto& v : m.v)
    if (!own.count(v.first)) vio("vertex.lost", fmt("%s: vertex %ld is on no rank", when, (long)v.first));
  for (auto& v : m.v) v.second.owner = own[v.first];
}

void checkDumps(const Model& m, const std::vector<Dump>& ds, const CheckOpts& o) {
  const char* w = o.when;
  std::vector<gid> gedges(m.ntypes, 0), gpins(m.ntypes, 0);
  for (auto& e : m.e) { gedges[e.type]++; gpins[e.type] += (gid)e.pins.size(); }
  // vertices first: they say which vertex is where
  std::map<gid, int> seen;
  for (auto& d : ds)
    for (auto& x : d.verts) {
      auto it = m.v.find(x.id);
      if (it == m.v.end()) vio("vertex.invented", fmt("%s: rank %d holds vertex %ld, which does not exist", w, d.rank, (long)x.id));
      if (seen.count(x.id)) vio("vertex.duplicated", fmt("%s: vertex %ld is local on rank %d and on rank %d", w, (long)x.id, seen[x.id], d.rank));
      seen[x.id] = d.rank;
    }
  for (auto& v : m.v) {
    if (!seen.count(v.first)) vio("vertex.lost", fmt("%s: vertex %ld is on no rank", w, (long)v.first));
    if (seen[v.first] != v.second.owner) vio("vertex.misplaced", fmt("%s: vertex %ld is on rank %d, expected rank %d", w, (long)v.first, seen[v.first], v.second.owner));
  }
  for (auto& d : ds) {
    int r = d.rank;
    if (d.hyper != m.hyper) vio("graph.kind", fmt("%s: rank %d reports the wrong graph kind", w, r));
    if (d.ntypes != m.ntypes) vio("graph.types", fmt("%s: rank %d reports %d edge types, expected %d", w, r, d.ntypes, m.ntypes));
    if (d.gverts != (gid)m.v.size()) vio("count.global-verts", fmt("%s: rank %d reports %ld global vertices, the graph has %zu", w, r, (long)d.gverts, m.v.size()));
    // expected local edges / ghosts
    std::set<gid> ghosts;
    std::vector<std::vector<const GEdge*>> le(m.ntypes);
    auto own = [&](gid p) { return m.v.at(p).owner; };
    for (auto& e : m.e) {
      bool here = false;
      if (m.hyper) { for (auto p : e.pins) here |= own(p) == r; }
      else here = own(e.pins[0]) == r;
      if (!here) continue;
      le[e.type].push_back(&e);
      for (auto p : e.pins) if (own(p) != r) ghosts.insert(p);
    }
    std::set<gid> linger;
    for (auto& e : m.gone) for (auto p : e.pins) if (own(p) != r) linger.insert(p);
    // vertices
    int nloc = 0;
    for (auto& v : m.v) nloc += v.second.owner == r;
    if (d.lverts != nloc || (int)d.verts.size() != nloc) vio("count.local-verts", fmt("%s: rank %d reports %d local vertices and iterates %zu, owns %d", w, r, d.lverts, d.verts.size(), nloc));
    if (nloc && d.coords != m.coords) vio("graph.coords", fmt("%s: rank %d says coordinates are %s", w, r, d.coords ? "present" : "absent"));
    for (auto& x : d.verts) {
      const Model::V& v = m.v.at(x.id);
      if (o.weights && x.w != v.w) vio("vertex.weight", fmt("%s: vertex %ld on rank %d weighs %g, expected %g", w, (long)x.id, r, x.w, v.w));
      if (x.owner != r) vio("vertex.owner", fmt("%s: rank %d says its own vertex %ld belongs to rank %d", w, r, (long)x.id, x.owner));
      if (o.orig && d.hasOrig && x.orig != v.orig) vio("vertex.original-owner", fmt("%s: vertex %ld on rank %d remembers original owner %d, expected %d", w, (long)x.id, r, x.orig, v.orig));
      if (m.coords && d.coords) for (int k = 0; k < 3; k++) if (x.xyz[k] != v.xyz[k]) vio("vertex.coords", fmt("%s: vertex %ld on rank %d has coordinate[%d]=%g, expected %g", w, (long)x.id, r, k, x.xyz[k], v.xyz[k]));
    }
    // ghosts
    std::set<gid> gg;
    for (auto& g : d.ghost) {
      if (!gg.insert(g.id).second) vio("ghost.duplicated", fmt("%s: rank %d lists ghost %ld twice", w, r, (long)g.id));
      if (!ghosts.count(g.id) && !linger.count(g.id)) vio("ghost.extra", fmt("%s: rank %d has a ghost copy of %ld, which no local edge touches or which it owns", w, r, (long)g.id));
      if (g.owner != own(g.id)) vio("ghost.owner", fmt("%s: rank %d says ghost %ld belongs to rank %d, it is on rank %d", w, r, (long)g.id, g.owner, own(g.id)));
      if (o.ghostW && !m.ghostWStale && g.hasW && g.w != m.v.at(g.id).w) vio("ghost.weight", fmt("%s: rank %d says ghost %ld weighs %g, its owner says %g", w, r, (long)g.id, g.w, m.v.at(g.id).w));
    }
    for (auto g : ghosts) if (!gg.count(g)) vio("ghost.missing", fmt("%s: rank %d has no ghost copy of %ld though a local edge touches it", w, r, (long)g));
    if (d.ghosts != (int)gg.size() || d.tverts != d.lverts + d.ghosts) vio("count.ghosts", fmt("%s: rank %d reports %d ghosts / %d total vertices, iterates %zu", w, r, d.ghosts, d.tverts, gg.size()));
    // edges
    for (int t = 0; t < m.ntypes; t++) {
      gid lp = 0; for (auto e : le[t]) lp += (gid)e->pins.size();
      if (d.ledges[t] != (gid)le[t].size()) vio("count.local-edges", fmt("%s: rank %d reports %ld local edges of type %d, expected %zu", w, r, (long)d.ledges[t], t, le[t].size()));
      if (d.lpins[t] != lp) vio("count.local-pins", fmt("%s: rank %d reports %ld local pins of type %d, expected %ld", w, r, (long)d.lpins[t], t, (long)lp));
      if (d.gedges[t] != gedges[t]) vio("count.global-edges", fmt("%s: rank %d reports %ld global edges of type %d, expected %ld", w, r, (long)d.gedges[t], t, (long)gedges[t]));
      if (d.gpins[t] != gpins[t]) vio("count.global-pins", fmt("%s: rank %d reports %ld global pins of type %d, expected %ld", w, r, (long)d.gpins[t], t, (long)gpins[t]));
      typedef std::pair<std::vector<gid>, double> EK;
      std::map<gid, EK> want; std::multiset<EK> wantT;
      std::map<gid, std::vector<gid>> vedges, vadj;
      for (auto e : le[t]) {
        std::vector<gid> p = e->pins;
        if (m.hyper) std::sort(p.begin(), p.end());
        want[e->id] = EK(p, e->w); wantT.insert(EK(p, e->w));
        if (m.hyper) { for (auto q : e->pins) { vedges[q].push_back(e->id); for (auto z : e->pins) vadj[q].push_back(z); } }
        else { vedges[e->pins[0]].push_back(e->pins[1]); vadj[e->pins[0]].push_back(e->pins[1]); }
      }
      std::set<gid> ids; std::multiset<EK> gotT;
      for (auto& x : d.edges) {
        if (x.type != t) continue;
        std::vector<gid> p = x.pins;
        if (m.hyper) {
          std::sort(p.begin(), p.end());
          if (!want.count(x.id)) vio("edge.extra", fmt("%s: rank %d holds edge %ld of type %d, none of whose vertices it owns or which does not exist", w, r, (long)x.id, t));
          if (!ids.insert(x.id).second) vio("edge.duplicated", fmt("%s: rank %d holds edge %ld of type %d twice", w, r, (long)x.id, t));
          if (want[x.id].first != p) vio("edge.pins", fmt("%s: edge %ld of type %d on rank %d connects %s, expected %s", w, (long)x.id, t, r, L(p).c_str(), L(want[x.id].first).c_str()));
          if (want[x.id].second != x.w) vio("edge.weight", fmt("%s: edge %ld of type %d on rank %d weighs %g, expected %g", w, (long)x.id, t, r, x.w, want[x.id].second));
        } else gotT.insert(EK(p, x.w));
        if (x.degree != (int)x.pins.size()) vio("edge.degree", fmt("%s: an edge of type %d on rank %d has degree %d and %zu pins", w, t, r, x.degree, x.pins.size()));
        std::set<int> res;
        for (size_t k = 0; k < x.pins.size(); k++) {
          if (!m.v.count(x.pins[k])) vio("edge.pins", fmt("%s: an edge of type %d on rank %d touches unknown vertex %ld", w, t, r, (long)x.pins[k]));
          if (x.pinOwner[k] != own(x.pins[k])) vio("ghost.owner", fmt("%s: on rank %d pin %ld is said to be on rank %d, it is on rank %d", w, r, (long)x.pins[k], x.pinOwner[k], own(x.pins[k])));
          res.insert(own(x.pins[k]));
        }
        if (std::vector<int>(res.begin(), res.end()) != [&] { auto q = x.residence; std::sort(q.begin(), q.end()); return q; }()) vio("edge.residence", fmt("%s: residence of an edge of type %d on rank %d is wrong", w, t, r));
        if ((x.cut != 0) != (res.size() > 1)) vio("edge.cut", fmt("%s: an edge of type %d on rank %d spans %zu ranks but isCut says %d", w, t, r, res.size(), x.cut));
      }
      if (m.hyper) { for (auto& q : want) if (!ids.count(q.first)) vio("edge.lost", fmt("%s: rank %d owns a vertex of edge %ld of type %d but does not hold the edge", w, r, (long)q.first, t)); }
      else if (gotT != wantT) {
        for (auto& q : wantT) if (gotT.count(q) < wantT.count(q)) {
          bool other = false; for (auto& z : gotT) if (z.first == q.first) other = true;
          vio(other ? "edge.weight" : "edge.lost", fmt("%s: rank %d should hold directed edge %s of type %d with weight %g %zu time(s), holds it %zu time(s)", w, r, L(q.first).c_str(), t, q.second, wantT.count(q), gotT.count(q)));
        }
        for (auto& q : gotT) if (gotT.count(q) > wantT.count(q)) vio("edge.extra", fmt("%s: rank %d holds directed edge %s of type %d with weight %g too often", w, r, L(q.first).c_str(), t, q.second));
      }
      for (auto& x : d.verts) {
        std::vector<gid> e1 = vedges[x.id], a1 = vadj[x.id];
        std::sort(e1.begin(), e1.end()); std::sort(a1.begin(), a1.end());
        if (x.degree[t] != (int)e1.size()) vio("vertex.degree", fmt("%s: vertex %ld on rank %d has degree %d for type %d, expected %zu", w, (long)x.id, r, x.degree[t], t, e1.size()));
        if (x.edges[t] != e1) vio("vertex.edges", fmt("%s: vertex %ld on rank %d: edges of type %d are %s, expected %s", w, (long)x.id, r, t, L(x.edges[t]).c_str(), L(e1).c_str()));
        if (x.adj[t] != a1) vio("vertex.adjacency", fmt("%s: vertex %ld on rank %d: neighbours through type %d are %s, expected %s", w, (long)x.id, r, t, L(x.adj[t]).c_str(), L(a1).c_str()));
      }
    }
  }
}

void GraphOracle::advance(int step) {
  for (; done < step; done++) {
    const Op& o = s->ops[done];
    if (o.a[0] == "mig") {
      for (size_t i = 3; i + 1 < o.a.size(); i += 2) { auto it = m.v.find(strtol(o.a[i].c_str(), 0, 10)); if (it != m.v.end()) it->second.owner = (int)strtol(o.a[i + 1].c_str(), 0, 10) % m.P; }
      hasOrig = true;
      m.gone.clear(); m.ghostWStale = false;
    } else if (o.a[0] == "part") hasOrig = true;
    else if (o.a[0] == "reset") { for (auto& v : m.v) v.second.orig = v.second.owner; hasOrig = true; }
    else if (o.a[0] == "rebuild") { m = init; hasOrig = false; }
    else if (o.a[0] == "save") saved[o.a[1]] = m;
    else if (o.a[0] == "load") { if (saved.count(o.a[1])) m = saved[o.a[1]]; for (auto& v : m.v) v.second.orig = v.second.owner; hasOrig = false; m.gone.clear(); m.ghostWStale = false; }
    else editModel(m, o);
  }
}
