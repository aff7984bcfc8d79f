// Editing a graph in place, second adjacencies, VTK pictures.
#include "drv.h"
#include <algorithm>
#include <cmath>
#include <cstring>
static Op op(std::initializer_list<std::string> l) { Op o; o.a = l; return o; }
static std::string I(long x) { return num(x); }
static long Lg(const std::string& s) { return strtol(s.c_str(), 0, 10); }
static uint64_t editHash(uint64_t a, uint64_t b, uint64_t c) {
  uint64_t h = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15) * 0xbf58476d1ce4e5b9ULL ^ c * 0x94d049bb133111ebULL;
  h ^= h >> 31; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32; return h;
}

void editModel(Model& m, const Op& o) {
  const std::string& k = o.a[0];
  if (k == "rmtype") {
    int t = (int)Lg(o.a[1]);
    std::vector<GEdge> keep;
    for (auto& e : m.e) if (e.type == t) m.gone.push_back(e); else keep.push_back(e);
    m.e = keep;
    if (t == m.ntypes - 1) m.ntypes--;
  } else if (k == "setew") {
    for (auto& e : m.e) if (e.type == (int)Lg(o.a[1])) e.w = strtod(o.a[2].c_str(), 0);
  } else if (k == "setvw") {
    for (auto& v : m.v) v.second.w = 0.25 * (1 + (int)(editHash(v.first, 3, Lg(o.a[1])) % 30));
    m.ghostWStale = true;
  } else if (k == "setco") {
    for (auto& v : m.v) for (int i = 0; i < 3; i++) v.second.xyz[i] = (int)(editHash(v.first, 4 + i, Lg(o.a[1])) % 800) * 0.125 - 40;
    m.coords = true;
  }
}

typedef std::pair<gid, gid> Name;
static Name nameOf(const Model& m, const GEdge& e) { return m.hyper ? Name(e.id, 0) : Name(e.pins[0], e.pins[1]); }

static void secondCheck(const Model& m, const Op& o, const std::string& name, std::vector<std::vector<double>>& v) {
  int t = atoi(name.c_str() + 3), salt = (int)Lg(o.a[1]); bool eve = name[0] == 'e';
  bool comp = (salt >> (2 * t + eve)) & 1;
  // edges of each vertex, as Ngraph::edges lists them
  std::map<gid, std::vector<int>> of;
  for (size_t i = 0; i < m.e.size(); i++) {
    auto& e = m.e[i];
    if (e.type != t) continue;
    if (m.hyper) for (auto p : e.pins) of[p].push_back((int)i); else of[e.pins[0]].push_back((int)i);
  }
  for (int r = 0; r < (int)v.size(); r++) {
    auto& b = v[r]; size_t i = 0;
    if (!eve) {
      while (i + 1 < b.size()) {
        gid x = (gid)b[i++]; long n = (long)b[i++]; std::vector<gid> got; for (long k = 0; k < n; k++) got.push_back((gid)b[i++]);
        std::vector<gid> want;
        for (int e : of[x]) for (size_t k = m.hyper ? 0 : 1; k < m.e[e].pins.size(); k++) want.push_back(m.e[e].pins[k]);
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
        if (comp) { want.erase(std::unique(want.begin(), want.end()), want.end()); want.erase(std::remove(want.begin(), want.end(), x), want.end()); }
        if (got != want) vio("adjacency.vertex", fmt("rank %d: the %ssecond adjacency of vertex %ld through edge type %d has %zu entries, expected %zu", r, comp ? "compressed " : "", (long)x, t, got.size(), want.size()));
      }
      continue;
    }
    // several traditional edges may share a name: compare as multisets per name
    std::multiset<std::pair<Name, std::vector<Name>>> got, want;
    while (i + 2 < b.size()) {
      Name x((gid)b[i], (gid)b[i + 1]); i += 2; long n = (long)b[i++]; std::vector<Name> l;
      for (long k = 0; k < n; k++) { l.push_back(Name((gid)b[i], (gid)b[i + 1])); i += 2; }
      std::sort(l.begin(), l.end()); got.insert({x, l});
    }
    for (size_t j = 0; j < m.e.size(); j++) {
      auto& e = m.e[j];
      if (e.type != t) continue;
      bool here = false;
      if (m.hyper) { for (auto p : e.pins) here |= m.v.at(p).owner == r; } else here = m.v.at(e.pins[0]).owner == r;
      if (!here) continue;
      std::vector<int> adj;
      for (auto p : e.pins) if (m.v.at(p).owner == r) for (int f : of[p]) adj.push_back(f);
      if (comp) { std::sort(adj.begin(), adj.end()); adj.erase(std::unique(adj.begin(), adj.end()), adj.end()); adj.erase(std::remove(adj.begin(), adj.end(), (int)j), adj.end()); }
      std::vector<Name> l; for (int f : adj) l.push_back(nameOf(m, m.e[f]));
      std::sort(l.begin(), l.end()); want.insert({nameOf(m, e), l});
    }
    if (got != want) {
      for (auto& w : want) if (got.count(w) < want.count(w)) {
        size_t n = 0; for (auto& g : got) if (g.first == w.first) n = g.second.size();
        vio("adjacency.edge", fmt("rank %d: the %ssecond adjacency of edge %ld(%ld) of type %d has %zu entries, expected %zu", r, comp ? "compressed " : "", (long)w.first.first, (long)w.first.second, t, n, w.second.size()));
      }
      vio("adjacency.edge", fmt("rank %d: second adjacency of type %d lists edges that are not there", r, t));
    }
  }
}

// ---- VTK files
struct Vtu { long np = -1, nc = -1; std::map<std::string, std::vector<double>> a; };
// every element of an XML text ends, in the right order
static bool balanced(const std::string& t) {
  std::vector<std::string> open; long seen = 0;
  for (size_t p = t.find('<'); p != std::string::npos; p = t.find('<', p)) {
    size_t e = t.find('>', p);
    if (e == std::string::npos) return false;
    std::string b = t.substr(p + 1, e - p - 1); p = e;
    if (b.empty()) return false;
    if (b[0] == '?' || b[0] == '!') continue;
    if (std::count(b.begin(), b.end(), '"') % 2) return false;
    if (b[0] == '/') { if (open.empty() || open.back() != b.substr(1)) return false; open.pop_back(); continue; }
    seen++;
    if (open.empty() && seen > 1) return false;
    if (b.back() != '/') open.push_back(b.substr(0, b.find_first_of(" \t\n")));
  }
  return seen && open.empty();
}
static Vtu parseVtu(int r, const std::string& t) {
  Vtu u;
  if (!balanced(t)) vio("vtk.malformed", fmt("the VTK file of rank %d is not well-formed XML", r));
  size_t at = t.find("<Piece ");
  auto attr = [&](size_t from, const char* n) { size_t p = t.find(std::string(n) + "=\"", from); return p == std::string::npos ? std::string() : t.substr(p + strlen(n) + 2, t.find('"', p + strlen(n) + 2) - p - strlen(n) - 2); };
  if (at == std::string::npos || t.find("</VTKFile>") == std::string::npos) vio("vtk.malformed", fmt("the VTK file of rank %d is incomplete", r));
  u.np = Lg(attr(at, "NumberOfPoints")); u.nc = Lg(attr(at, "NumberOfCells"));
  for (size_t p = t.find("<DataArray", at); p != std::string::npos; p = t.find("<DataArray", p + 1)) {
    size_t b = t.find('>', p), e = t.find("</DataArray>", p);
    if (b == std::string::npos || e == std::string::npos || e < b) vio("vtk.malformed", fmt("a data array of rank %d's VTK file does not end", r));
    std::string n = attr(p, "Name"); auto& a = u.a[n];
    const char* q = t.c_str() + b + 1; const char* end = t.c_str() + e;
    while (q < end) { char* z; double d = strtod(q, &z); if (z == q || z > end) break; a.push_back(d); q = z; }
    while (q < end && strchr(" \t\r\n", *q)) q++;
    if (q != end) vio("vtk.malformed", fmt("data array %s of rank %d's VTK file holds something that is not a number: %.20s", n.c_str(), r, q));
  }
  auto need = [&](const char* n, size_t k) { if (u.a[n].size() != k) vio("vtk.size", fmt("rank %d's VTK file has %zu values for %s, its %ld points and %ld cells need %zu", r, u.a[n].size(), n, u.np, u.nc, k)); };
  need("Points", 3 * u.np); need("connectivity", 2 * u.nc); need("offsets", u.nc); need("types", u.nc); need("Part", u.np);
  if (u.a.count("VorE")) need("VorE", u.np);
  if (u.a.count("Tag")) need("Tag", u.np);
  for (long i = 0; i < u.nc; i++) if (u.a["offsets"][i] != 2 * (i + 1) || u.a["types"][i] != 3) vio("vtk.cells", fmt("cell %ld of rank %d's VTK file is not a line", i, r));
  for (double x : u.a["connectivity"]) if (x < 0 || x >= u.np) vio("vtk.cells", fmt("a cell of rank %d's VTK file refers to point %g, the file has %ld points", r, x, u.np));
  return u;
}
static std::string xyz(double a, double b, double c) { auto z = [](double d) { std::string s = fmt("%f", d); return s == "-0.000000" ? s.substr(1) : s; }; return z(a) + " " + z(b) + " " + z(c); }

static void vtkCheck(const Model& m, const Op& o, std::vector<std::vector<double>>& v) {
  int salt = (int)Lg(o.a[2]), mode = (int)Lg(o.a[3]);
  for (int r = 0; r < (int)v.size(); r++) {
    std::string t; for (double c : v[r]) t += (char)(int)c;
    size_t cut = t.find('\1'); std::string pv = t.substr(cut + 1); t.resize(cut);
    Vtu u = parseVtu(r, t);
    bool tagged = mode == 1 || (mode == 2 && m.hyper);
    if (m.hyper != (u.a.count("VorE") > 0) || tagged != (u.a.count("Tag") > 0)) vio("vtk.arrays", fmt("rank %d's VTK file has the wrong set of point data", r));
    // points by what they stand for: kind(0 vertex, 1 edge, 2 copy of another part's vertex), place, tag
    typedef std::multiset<std::string> MS; MS got, want, gc, wc;
    std::vector<std::string> pt;
    for (long i = 0; i < u.np; i++) {
      int part = (int)u.a["Part"][i];
      int kind = m.hyper ? (int)u.a["VorE"][i] : part == r ? 0 : 2;
      pt.push_back(xyz(u.a["Points"][3 * i], u.a["Points"][3 * i + 1], u.a["Points"][3 * i + 2]));
      if (m.hyper && part != r) vio("vtk.part", fmt("point %ld of rank %d's VTK file is said to belong to part %d", i, r, part));
      got.insert(fmt("%d part %d at ", kind, part) + pt.back() + (tagged && kind != 2 ? fmt(" tag %g", u.a["Tag"][i]) : ""));
    }
    for (long i = 0; i < u.nc; i++) { std::string a = pt[(int)u.a["connectivity"][2 * i]], b = pt[(int)u.a["connectivity"][2 * i + 1]]; if (b < a) std::swap(a, b); gc.insert(a + " - " + b); }
    std::set<gid> ghosts; auto own = [&](gid p) { return m.v.at(p).owner; };
    auto vxyz = [&](gid p) { auto& x = m.v.at(p); return xyz(x.xyz[0], x.xyz[1], x.xyz[2]); };
    auto tagOf = [&](int kind, gid id) { return !tagged ? std::string() : fmt(" tag %d", mode == 1 ? (kind == 0 ? (int)(editHash(id, 1, salt) % 100000) : -1) : (kind == 1 ? (int)(editHash(id, 2, salt) % 100000) : -1)); };
    for (auto& x : m.v) if (x.second.owner == r) want.insert(fmt("0 part %d at ", r) + vxyz(x.first) + tagOf(0, x.first));
    for (auto& e : m.e) {
      bool here = false;
      if (m.hyper) { for (auto p : e.pins) here |= own(p) == r; } else here = own(e.pins[0]) == r;
      if (!here) continue;
      if (!m.hyper) for (auto p : e.pins) if (own(p) != r) ghosts.insert(p);
      if (e.type) continue;
      if (m.hyper) {
        double c[3] = {0, 0, 0};
        for (auto p : e.pins) for (int k = 0; k < 3; k++) c[k] += m.v.at(p).xyz[k];
        std::string at = xyz(c[0] / e.pins.size(), c[1] / e.pins.size(), c[2] / e.pins.size());
        want.insert(fmt("1 part %d at ", r) + at + tagOf(1, e.id));
        for (auto p : e.pins) if (own(p) == r) { std::string a = at, b = vxyz(p); if (b < a) std::swap(a, b); wc.insert(a + " - " + b); }
      } else { std::string a = vxyz(e.pins[0]), b = vxyz(e.pins[1]); if (b < a) std::swap(a, b); wc.insert(a + " - " + b); }
    }
    for (auto p : ghosts) want.insert(fmt("2 part %d at ", own(p)) + vxyz(p));
    static const char* what[] = {"vertex", "edge", "copy of a vertex"};
    for (auto& x : want) if (got.count(x) < want.count(x)) vio("vtk.points", fmt("rank %d's VTK file lacks a %s: %s", r, what[x[0] - '0'], x.c_str() + 2));
    // copies of other parts' vertices no cell uses would do no harm
    for (auto& x : got) if (x[0] != '2' && got.count(x) > want.count(x)) vio("vtk.points", fmt("rank %d's VTK file shows a %s that is not there: %s", r, what[x[0] - '0'], x.c_str() + 2));
    for (auto& x : wc) if (gc.count(x) < wc.count(x)) vio("vtk.cells", fmt("rank %d's VTK file lacks the line %s", r, x.c_str()));
    for (auto& x : gc) if (gc.count(x) > wc.count(x)) vio("vtk.cells", fmt("rank %d's VTK file shows a line that is not there: %s", r, x.c_str()));
    if (!r && !balanced(pv)) vio("vtk.malformed", "the .pvtu file is not well-formed XML");
    if (!r) {  // readers take the list of arrays from the parallel file
      std::set<std::string> an;
      for (size_t p = pv.find("<PDataArray"); p != std::string::npos; p = pv.find("<PDataArray", p + 1)) {
        size_t e = pv.find('>', p), q = pv.find("Name=\"", p);
        if (q < e) an.insert(pv.substr(q + 6, pv.find('"', q + 6) - q - 6));
      }
      for (const char* n : {"Points", "Part", "VorE", "Tag"})
        if (u.a.count(n) != an.count(n)) vio("vtk.arrays", fmt("the .pvtu file %s the data array %s, the files of the parts %s it", an.count(n) ? "announces" : "does not announce", n, u.a.count(n) ? "have" : "do not have"));
    }
    if (!r) for (int q = 0; q < (int)v.size(); q++) {
      std::string f = "\"" + o.a[1] + I(q) + ".vtu\""; size_t p = pv.find(f);
      if (p == std::string::npos || pv.find(f, p + 1) != std::string::npos) vio("vtk.pieces", fmt("the .pvtu file does not name the file of part %d exactly once", q));
    }
  }
}

void editBlob(const Model& m, const Spec& s, int step, const std::string& name, std::vector<std::vector<double>>& v) {
  const Op& o = s.ops[step - 1];
  if (name.substr(0, 3) == "vev" || name.substr(0, 3) == "eve") secondCheck(m, o, name, v);
  else if (name == "vtk") vtkCheck(m, o, v);
}

static RegP b05([] {
  Property p; p.id = "B05";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    GraphOpts g; g.maxV = th ? 60 : 30; g.ids32 = true; g.maxTypes = 4;
    commonGraph(s, r, g);
    s.kv["check_valid"] = r.chance(50) ? "1" : "0";
    std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner;
    int N = (int)s.num("nranks"), n = r.range(2, th ? 9 : 6), nt = (int)s.num("ntypes"), all = nt; bool saved = false; int savedT = nt;
    for (int i = 0; i < n; i++) {
      int k = r.below(12);
      if (k < 4) s.ops.push_back(migOp(s, r, own, N));
      else if (k < 7 && nt > 0) { int t = r.below(nt); s.ops.push_back(op({"rmtype", I(t)})); if (t == nt - 1) nt--; }
      else if (k < 9 && nt > 0) s.ops.push_back(op({"setew", I(r.below(nt)), num(0.25 * r.range(1, 30))}));
      else if (k < 10) s.ops.push_back(op({r.chance(70) || !s.num("coords") ? "setvw" : "setco", I(r.range(1, 100000))}));
      else if (k < 11) { s.ops.push_back(op({"tags", I(r.range(1, 100000)), I(r.range(1, 7))})); }
      else if (!saved) { s.ops.push_back(op({"save", "g"})); saved = true; savedT = nt; if (r.chance(50)) { s.ops.push_back(op({"load", "g"})); } }
      else if (r.chance(30)) { s.ops.push_back(op({"rebuild", I(r.below(64))})); nt = all; own.clear(); for (auto& v : s.verts) own[v.id] = v.owner; }
    }
    (void)savedT;
    if (r.chance(60)) s.ops.push_back(migOp(s, r, own, N));
    if (r.chance(40)) s.ops.push_back(op({"part"}));
  };
  p.hooks = graphHooks;
  p.quickRuns = 8000; p.thoroughRuns = 200000;
  p.rule = "a case is one simulated job applying a generated sequence of in-place edits (edge types removed, edge and vertex weights and coordinates replaced) interleaved with migrations, tags, save and load, every rank's whole observable graph being compared with the model after each; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.real = "agi/*, pcu/*, support/*"; p.stub = "MPI, clock, disk";
  return p; }());

static RegP b06([] {
  Property p; p.id = "B06";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    GraphOpts g; g.maxV = th ? 60 : 30; g.maxTypes = 4;
    commonGraph(s, r, g);
    std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner;
    int N = (int)s.num("nranks"), n = r.range(1, th ? 6 : 4), nt = (int)s.num("ntypes");
    for (int i = 0; i < n; i++) {
      int k = r.below(10);
      if (k < 4) s.ops.push_back(migOp(s, r, own, N));
      else if (k < 5 && nt > 1) { int t = r.below(nt); s.ops.push_back(op({"rmtype", I(t)})); if (t == nt - 1) nt--; }
      else s.ops.push_back(op({"adj2", I(r.below(100000))}));
    }
    s.ops.push_back(op({"adj2", I(r.below(100000))}));
  };
  p.hooks = graphHooks;
  p.quickRuns = 8000; p.thoroughRuns = 200000;
  p.wantProbes = {"adj.vev", "adj.eve"};
  p.rule = "a case is one simulated job that derives both second adjacencies of every edge type, compressed or not, in random order and more than once, between migrations and removals of edge types; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.real = "agi/*, pcu/*, support/*"; p.stub = "MPI, clock";
  return p; }());

static RegP e03([] {
  Property p; p.id = "E03";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    GraphOpts g; g.maxV = th ? 50 : 30;
    commonGraph(s, r, g);
    s.kv["coords"] = "1";
    if (r.chance(40)) s.kv["stdio_buf"] = I(r.range(1, 300));
    std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner;
    int N = (int)s.num("nranks"), n = r.range(0, th ? 5 : 3), nt = (int)s.num("ntypes");
    std::string dots; for (int i = 0; i < 150; i++) dots += "./";   // names longer than 255 characters
    auto pic = [&](int i) { int mode = r.below(3); s.ops.push_back(op({"vtk", (r.chance(5) ? dots : std::string()) + (r.chance(70) ? "pic" + I(i) : std::string("pic")), I(r.range(1, 100000)), I(mode)})); };
    for (int i = 0; i < n; i++) {
      int k = r.below(10);
      if (k < 5) s.ops.push_back(migOp(s, r, own, N));
      else if (k < 6) s.ops.push_back(op({"setco", I(r.range(1, 100000))}));
      else if (k < 7 && nt > 1) { s.ops.push_back(op({"rmtype", I(nt - 1)})); nt--; }
      else pic(i);
    }
    pic(n);
  };
  p.hooks = graphHooks;
  p.quickRuns = 6000; p.thoroughRuns = 100000;
  p.rule = "a case is one simulated job that writes VTK files of a generated graph, with and without tags, between migrations and edits, the files then being parsed and compared with the model; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.real = "agi/*, pcu/*, support/*"; p.stub = "MPI, clock, disk";
  return p; }());
