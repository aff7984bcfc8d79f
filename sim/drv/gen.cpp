#include "drv.h"
#include <algorithm>

// Swarm-style: every run enables a random subset of schedule perturbations.
void genSchedule(Spec& s, Rnd& r) {
  int pol = r.below(10);
  s.kv["policy"] = pol < 5 ? "1" : pol < 8 ? "3" : pol < 9 ? "2" : "0";
  if (s.kv["policy"] == "1") { static const int ps[] = {300, 2000, 10000, 30000}; s.kv["pswitch"] = num((long)ps[r.below(4)]); }
  if (r.chance(70)) {
    static const int dp[] = {50, 200, 500, 900}; s.kv["delay_p"] = num((long)dp[r.below(4)]);
    static const int dm[] = {3, 20, 100, 600}; s.kv["delay_max"] = num((long)dm[r.below(4)]);
    s.kv["delay_big"] = num((long)(r.chance(30) ? 30 : 0));
    s.kv["ack_max"] = num((long)dm[r.below(4)]);
  } else { s.kv["delay_p"] = "0"; s.kv["delay_max"] = "0"; s.kv["ack_max"] = "0"; }
  s.kv["src_shuffle"] = r.chance(80) ? "1" : "0";
  s.kv["eager_coll"] = num((long)(r.chance(70) ? r.range(200, 900) : 0));
  int N = (int)s.num("nranks", 2);
  if (r.chance(25)) s.kv["stall" + num((long)r.below(N))] = num((long)r.range(20, 3000));
  if (r.chance(30)) s.kv["clock_skew"] = "1";
  if (r.chance(15)) s.kv["clock_jump_p"] = "150";
  if (r.chance(50)) s.kv["perturb"] = num((long)r.range(1, 255));
}

void genGraph(Spec& s, Rnd& r, const GraphOpts& o) {
  int N = (int)s.num("nranks", 2);
  bool hyper = o.hyper < 0 ? r.chance(65) : o.hyper;
  int nt = r.chance(45) ? 1 : r.range(1, o.maxTypes);
  int nv = r.chance(30) ? r.range(o.minV, std::max(o.minV, 8)) : r.range(o.minV, o.maxV);
  s.kv["hyper"] = hyper ? "1" : "0";
  s.kv["ntypes"] = num((long)nt);
  if (r.chance(25)) s.kv["unit_weights"] = "1";
  if (r.chance(25)) s.kv["unit_edge_weights"] = "1";
  // vertex ids: dense, offset, sparse, or large
  int style = r.below(4);
  std::vector<gid> ids; std::set<gid> used;
  gid base = style == 1 ? 1000 : 0;
  if (style == 3 && o.bigIds) base = o.ids32 ? 4294000000LL : 5000000000LL;
  for (int i = 0; i < nv; i++) {
    gid g = base + i;
    if (style >= 2) { do g = base + r.below(nv * 20 + 10); while (used.count(g)); }
    used.insert(g); ids.push_back(g);
  }
  for (int i = nv - 1; i > 0 && style >= 2; i--) std::swap(ids[i], ids[r.below(i + 1)]);
  // placement
  int pl = r.below(o.spread ? 5 : 3);
  int only = r.below(N), only2 = r.below(N);
  for (int i = 0; i < nv; i++) {
    GVert v; v.id = ids[i];
    int own = 0;
    switch (pl) {
      case 0: own = (int)((long)i * N / std::max(1, nv)); break;
      case 1: own = r.below(N); break;
      case 2: own = i % N; break;
      case 3: own = only; break;
      case 4: own = r.chance(70) ? only : only2; break;
    }
    v.owner = own;
    v.w = o.intW ? 1 + r.below(5) : 0.25 * (1 + r.below(40));
    for (int k = 0; k < 3; k++) v.xyz[k] = 0.5 * r.range(-100, 100);
    s.verts.push_back(v);
  }
  if (!o.allowEmptyRanks && nv >= N) for (int i = 0; i < N; i++) s.verts[i].owner = i;
  for (int t = 0; t < nt; t++) {
    int shape = r.below(4);
    int ne = shape == 0 ? nv : shape == 1 ? nv * 2 : shape == 2 ? r.below(nv + 1) : r.below(3);
    gid eb = r.chance(20) ? (hyper && r.chance(30) ? 4290000000LL : 700) : 0;
    std::vector<GEdge> es;
    if (hyper) {
      for (int i = 0; i < ne; i++) {
        GEdge e; e.type = t; e.id = eb + i; e.home = 0; e.w = 0.25 * (1 + r.below(30));
        int deg = r.chance(60) ? 2 : r.chance(90) ? r.range(1, 5) : r.range(1, 12);
        if (o.fat && i % (nv > 100 ? 60 : 7) == 0) deg = i || nv < 100 ? r.range(nv / 2, nv) : nv;   // beyond a byte
        deg = std::min(deg, nv);
        std::set<int> p;
        int at = r.below(nv);
        bool local = r.chance(60);
        while ((int)p.size() < deg) { p.insert(local ? (at + r.below(deg + 2)) % nv : r.below(nv)); if (local && nv <= deg + 1) local = false; }
        for (int q : p) e.pins.push_back(ids[q]);
        if (r.chance(50)) std::reverse(e.pins.begin(), e.pins.end());
        es.push_back(e);
      }
      if (o.connected && t == 0) for (int i = 0; i + 1 < nv; i++) { GEdge e; e.type = 0; e.id = eb + ne + i; e.home = 0; e.w = 1; e.pins = {ids[i], ids[i + 1]}; es.push_back(e); }
    } else {
      std::set<std::pair<int, int>> have;
      auto add = [&](int a, int b, double w) {
        if (a == b || have.count({a, b})) return;
        have.insert({a, b});
        GEdge e; e.type = t; e.id = eb + (gid)es.size(); e.home = 0; e.w = w; e.pins = {ids[a], ids[b]};
        es.push_back(e);
      };
      bool sym = o.symmetric || r.chance(50);
      if (o.fat && nv > 100) for (int i = 1; i < nv; i++) { add(0, i, 1); if (sym) add(i, 0, 1); }
      for (int i = 0; i < ne; i++) {
        int a = r.below(nv), b = r.chance(50) ? (a + 1 + r.below(3)) % nv : r.below(nv);
        double w = 0.25 * (1 + r.below(30));
        add(a, b, w);
        if (sym) add(b, a, w);
      }
      if (o.connected && t == 0) for (int i = 0; i + 1 < nv; i++) { add(i, i + 1, 1); add(i + 1, i, 1); }
      for (size_t i = es.size(); i > 1; i--) std::swap(es[i - 1], es[r.below((int)i)]);
    }
    for (auto& e : es) s.edges.push_back(e);
  }
}

// nx x ny quadrilateral elements; hyper: type 0 = mesh nodes, type 1 = mesh
// edges, type 2 = patches; traditional: type 0 = face neighbours, type 1 =
// node neighbours.  Distributed in strips, blocks, unevenly or at random.
void genMesh(Spec& s, Rnd& r, int maxV, int hyperOpt, bool unit) {
  int N = (int)s.num("nranks", 2);
  bool hyper = hyperOpt < 0 ? r.chance(65) : hyperOpt;
  int nx = r.range(2, 12), ny = r.range(1, std::max(1, std::min(12, maxV / nx)));
  int n = nx * ny, nt = r.range(1, hyper ? 3 : 2);
  s.kv["hyper"] = hyper ? "1" : "0"; s.kv["ntypes"] = num((long)nt);
  if (unit) { s.kv["unit_weights"] = "1"; s.kv["unit_edge_weights"] = "1"; }
  int pl = r.below(6), heavy = r.below(N), pct = r.range(30, 90), cutx = r.range(1, nx);
  for (int i = 0; i < n; i++) {
    int x = i % nx, y = i / nx, own = 0;
    switch (pl) {
      case 0: own = x * N / nx; break;
      case 1: own = (int)((long)i * N / n); break;
      case 2: own = x < cutx ? 0 : 1 + (x - cutx) * (N - 1) / std::max(1, nx - cutx); break;  // one big strip
      case 3: own = (x * 2 / nx) + 2 * (y * 2 / ny); break;                                    // quadrants
      case 4: own = r.chance(pct) ? heavy : (int)((long)i * N / n); break;
      case 5: own = std::min(N - 1, (int)((long)i * i * N / ((long)n * n))); break;              // skewed
    }
    GVert v; v.id = i; v.owner = own % N; v.w = unit ? 1 : r.chance(50) ? 1 + r.below(4) : 0.25 * (1 + r.below(30));
    v.xyz[0] = x; v.xyz[1] = y; v.xyz[2] = 0;
    s.verts.push_back(v);
  }
  auto at = [&](int x, int y) { return (gid)(y * nx + x); };
  auto edge = [&](int t, std::vector<gid> p, double w, gid id) { GEdge e; e.type = t; e.id = id; e.home = 0; e.w = w; e.pins = p; s.edges.push_back(e); };
  bool fw = !unit && r.chance(50);
  auto W = [&] { return unit ? 1.0 : fw ? 0.25 * (1 + r.below(12)) : 1.0 + r.below(3); };
  for (int t = 0; t < nt; t++) {
    gid id = 0;
    if (hyper && t == 0) {
      for (int y = 0; y <= ny; y++) for (int x = 0; x <= nx; x++) {
        std::vector<gid> p;
        for (int dy = -1; dy <= 0; dy++) for (int dx = -1; dx <= 0; dx++) if (x + dx >= 0 && x + dx < nx && y + dy >= 0 && y + dy < ny) p.push_back(at(x + dx, y + dy));
        if (p.size()) edge(0, p, W(), id++);
      }
    } else if (hyper && t == 1) {
      for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) {
        if (x + 1 < nx) edge(1, {at(x, y), at(x + 1, y)}, W(), id++);
        if (y + 1 < ny) edge(1, {at(x, y), at(x, y + 1)}, W(), id++);
      }
    } else if (hyper) {
      for (int y = 0; y < ny; y += 2) for (int x = 0; x < nx; x += 3) {
        std::vector<gid> p;
        for (int dy = 0; dy < 2; dy++) for (int dx = 0; dx < 3; dx++) if (x + dx < nx && y + dy < ny) p.push_back(at(x + dx, y + dy));
        edge(2, p, W(), id++);
      }
    } else {
      for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++)
        for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) {
          if ((!dx && !dy) || (t == 0 && dx && dy)) continue;
          if (x + dx < 0 || x + dx >= nx || y + dy < 0 || y + dy >= ny) continue;
          gid a = at(x, y), b = at(x + dx, y + dy);
          double w = unit ? 1 : fw ? 0.25 * (1 + (a * b + a + b) % 9) : 1 + (a * b + a + b) % 3;   // symmetric weights
          edge(t, {a, b}, w, id++);
        }
    }
  }
}
