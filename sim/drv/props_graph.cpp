// Graph construction, migration, partition history, tags.
#include "drv.h"
#include <algorithm>
static Op op(std::initializer_list<std::string> l) { Op o; o.a = l; return o; }
static std::string I(long x) { return num(x); }

static uint64_t hv(uint64_t a, uint64_t b, uint64_t c) {
  uint64_t h = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15) * 0xbf58476d1ce4e5b9ULL ^ c * 0x94d049bb133111ebULL;
  h ^= h >> 31; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32; return h;
}

void graphHooks(const Spec& s, sim::Hooks& h, int) {
  auto st = std::make_shared<GraphOracle>(s);
  h.onDump = [st, &s](int step, std::vector<Dump>& d) {
    st->advance(step);
    CheckOpts o; static std::string when;
    when = step ? fmt("after step %d (%s)", step, s.ops[step - 1].a[0].c_str()) : std::string("after construction");
    o.when = when.c_str(); o.orig = st->hasOrig;
    checkDumps(st->m, d, o);
  };
  h.onBlob = [st, &s](int step, const std::string& name, std::vector<std::vector<double>>& v) {
    st->advance(step);
    graphBlob(st->m, s, step, name, v);
  };
}

void graphBlob(const Model& m, const Spec& s, int step, const std::string& name, std::vector<std::vector<double>>& v) {
  {
    editBlob(m, s, step, name, v);
    if (name == "part") {
      std::map<gid, int> seen;
      for (size_t r = 0; r < v.size(); r++) {
        for (size_t i = 0; i + 1 < v[r].size(); i += 2) {
          gid id = (gid)v[r][i]; int p = (int)v[r][i + 1];
          auto it = m.v.find(id);
          if (it == m.v.end()) vio("partition.invented", fmt("the partition map of rank %zu lists unknown vertex %ld", r, (long)id));
          if (it->second.orig != (int)r) vio("partition.reporter", fmt("vertex %ld started on rank %d but rank %zu reports its destination", (long)id, it->second.orig, r));
          if (seen.count(id)) vio("partition.duplicate", fmt("the partition map lists vertex %ld twice", (long)id));
          seen[id] = p;
          if (p != it->second.owner) vio("partition.destination", fmt("the partition map sends vertex %ld to part %d, it lives on part %d", (long)id, p, it->second.owner));
        }
      }
      for (auto& x : m.v) if (!seen.count(x.first)) vio("partition.missing", fmt("no rank reports where vertex %ld went", (long)x.first));
    } else if (name == "tags") {
      int salt = atoi(s.ops[step - 1].a[1].c_str()), which = atoi(s.ops[step - 1].a[2].c_str());
      for (size_t r = 0; r < v.size(); r++)
        for (size_t i = 0; i + 3 < v[r].size(); i += 4) {
          gid id = (gid)v[r][i]; int ow = m.v.at(id).owner;
          double w[3] = {which & 1 ? (double)(int)(uint32_t)hv(id, ow, salt) : -1, which & 2 ? (double)(int64_t)(hv(id, ow, salt + 1) % (1ull << 51) - (1ull << 50)) : -1, which & 4 ? (double)((int64_t)(hv(id, ow, salt + 2) % (1ull << 52)) - (int64_t)(1ull << 51)) / 64 : -1};
          static const char* nm[] = {"int", "long", "double"};
          for (int k = 0; k < 3; k++) if (v[r][i + 1 + k] != w[k]) vio("tag.ghost", fmt("%s ghost tag on rank %zu of vertex %ld reads %.17g, its owner (rank %d) computed %.17g", nm[k], r, (long)id, v[r][i + 1 + k], ow, w[k]));
        }
    }
  }
}

Op migOp(Spec& s, Rnd& r, std::map<gid, int>& own, int N) {
  Op o; o.a = {"mig", I(r.chance(30)), I(r.below(3) ? r.range(1, 99) : 0)};
  int style = r.below(8);
  int a = r.below(N), b = r.below(N), pct = r.range(5, 90);
  std::vector<gid> ids; for (auto& x : own) ids.push_back(x.first);
  for (auto g : ids) {
    int d = own[g]; bool in = false;
    switch (style) {
      case 0: if (r.chance(pct)) { d = r.below(N); in = true; } break;       // scatter
      case 1: if (r.chance(pct)) { d = a; in = true; } break;                // gather
      case 2: if (own[g] == a) { d = b; in = true; } break;                  // empty a rank
      case 3: d = (own[g] + 1) % N; in = true; break;                        // rotate everything
      case 4: if (r.below((int)ids.size()) == 0) { d = r.below(N); in = true; } break;  // very few
      case 5: if (own[g] == a) { d = b; in = true; } else if (own[g] == b) { d = a; in = true; } break;  // swap
      case 6: if (r.chance(pct)) { d = r.chance(50) ? own[g] : r.below(N); in = true; } break;  // plans naming the present owner
      case 7: d = (int)(g % N); in = r.chance(95); break;
    }
    if (in) { o.a.push_back(I(g)); o.a.push_back(I(d)); own[g] = d; }
  }
  return o;
}

// values that need every bit of a double
void fineWeights(Spec& s) {
  for (auto& v : s.verts) { v.w /= 3; for (double& x : v.xyz) x /= 7; }
  for (auto& e : s.edges) e.w /= 3;
}

void commonGraph(Spec& s, Rnd& r, const GraphOpts& g0, int minN) {
  GraphOpts g = g0;
  s.kv["workload"] = "graph";
  int N = r.chance(8) && minN <= 1 ? 1 : r.range(std::max(2, minN), r.chance(70) ? 4 : 8);
  s.kv["nranks"] = I(N);
  genSchedule(s, r);
  if (r.chance(3)) { g.minV = 130; g.maxV = 420; g.maxTypes = std::min(g.maxTypes, 2); if (r.chance(12)) { g.fat = true; g.minV = 257; g.maxV = 270; g.maxTypes = 1; } }   // tables grow, messages do not fit small buffers
  else if (r.chance(4)) g.maxTypes = 6;                                                    // as many edge types as there are
  genGraph(s, r, g);
  if (r.chance(20)) fineWeights(s);
  if (r.chance(5)) { for (auto& v : s.verts) if (r.chance(30)) v.w = 0; for (auto& e : s.edges) if (r.chance(30)) e.w = 0; }
  s.kv["variant"] = I(r.below(64));
  if (r.chance(40)) s.kv["coords"] = "1";
  if (r.chance(40)) s.kv["pcu_order"] = "1";
}

static RegP b01([] {
  Property p; p.id = "B01";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    GraphOpts g; if (th) g.maxV = 90;
    commonGraph(s, r, g);
    s.kv["check_valid"] = "1";
    if (r.chance(30)) s.kv["early_orig"] = "1";
    int n = r.below(3);
    for (int i = 0; i < n; i++) s.ops.push_back(op({"rebuild", I(r.below(64))}));
  };
  p.hooks = graphHooks;
  p.quickRuns = 12000; p.thoroughRuns = 300000;
  p.rule = "a case is one simulated job that builds a generated distributed graph (both graph kinds, 1-3 edge types, empty ranks, sparse and large ids, every construction overload, rank-local presentation order), 0-2 rebuilds in place; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.real = "agi/*, pcu/*, support/*"; p.stub = "MPI, clock";
  return p; }());

static RegP b02([] {
  Property p; p.id = "B02";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    GraphOpts g; if (th) g.maxV = 80;
    commonGraph(s, r, g);
    s.kv["check_valid"] = r.chance(50) ? "1" : "0";
    std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner;
    int N = (int)s.num("nranks"), n = s.verts.size() > 60 ? r.range(1, 3) : r.chance(2) ? r.range(8, 24) : r.range(1, th ? 6 : 4);
    for (int i = 0; i < n; i++) s.ops.push_back(migOp(s, r, own, N));
  };
  p.hooks = graphHooks;
  p.quickRuns = 12000; p.thoroughRuns = 300000;
  p.rule = "a case is one simulated job that builds a generated graph and applies 1-6 generated migrations (scatter, gather, emptying a rank, rotation, swap, plans naming the present owner), every rank's whole observable graph being compared with the model after each; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.real = "agi/*, pcu/*, support/*"; p.stub = "MPI, clock";
  return p; }());

static RegP b03([] {
  Property p; p.id = "B03";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    GraphOpts g; g.maxV = th ? 60 : 30; g.maxTypes = 2;
    commonGraph(s, r, g);
    if (r.chance(30)) s.kv["early_orig"] = "1";
    if (r.chance(30)) s.kv["engpar_layer"] = "1";
    std::map<gid, int> own, init; for (auto& v : s.verts) own[v.id] = v.owner;
    init = own;
    int N = (int)s.num("nranks"), n = s.verts.size() > 60 ? r.range(2, 4) : r.chance(2) ? r.range(10, 30) : r.range(2, th ? 9 : 6);
    for (int i = 0; i < n; i++) {
      int k = r.below(10);
      if (k < 4) s.ops.push_back(migOp(s, r, own, N));
      else if (k < 8) s.ops.push_back(op({"part"}));
      else if (k < 9) s.ops.push_back(op({"reset", I(r.below(2))}));
      else { s.ops.push_back(op({"rebuild", I(r.below(64))})); own = init; }
    }
    s.ops.push_back(op({"part"}));
  };
  p.hooks = graphHooks;
  p.quickRuns = 12000; p.thoroughRuns = 300000;
  p.rule = "a case is one simulated job running a generated history of migrations, partition queries, ownership resets and rebuilds; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.real = "agi/*, pcu/*, support/*"; p.stub = "MPI, clock";
  return p; }());

static RegP b04([] {
  Property p; p.id = "B04";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    GraphOpts g; g.maxV = th ? 80 : 40;
    commonGraph(s, r, g, 2);
    std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner;
    int N = (int)s.num("nranks"), n = s.verts.size() > 60 ? r.range(1, 3) : r.chance(2) ? r.range(8, 20) : r.range(1, th ? 6 : 4);
    for (int i = 0; i < n; i++) {
      if (r.chance(35)) s.ops.push_back(migOp(s, r, own, N));
      else s.ops.push_back(op({"tags", I(r.range(1, 100000)), I(r.range(1, 7))}));
    }
    s.ops.push_back(op({"tags", I(r.range(1, 100000)), I(r.range(1, 7))}));
  };
  p.hooks = graphHooks;
  p.quickRuns = 12000; p.thoroughRuns = 300000;
  p.wantProbes = {"tags.ghost"};
  p.rule = "a case is one simulated job interleaving generated migrations with creation of int/long/double ghost tags next to vertex and edge tags; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.real = "agi/*, pcu/*, support/*"; p.stub = "MPI, clock";
  return p; }());
