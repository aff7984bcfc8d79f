// Saving, loading, restart after job kill, binary edge lists.
#include "drv.h"
#include <algorithm>
static Op op(std::initializer_list<std::string> l) { Op o; o.a = l; return o; }
static std::string I(long x) { return num(x); }
// names longer than 255 characters are as good as any other (each component is short)
static std::string longName(Rnd& r) {
  std::string n; int len = r.range(230, 420);
  if (r.chance(50)) { while ((int)n.size() < len) n += "./"; return n + "h" + I(len); }
  while ((int)n.size() < len) n += std::string(r.range(60, 120), 'a' + r.below(3)) + "/";
  return n + "g";
}
static const char* PFX[] = {"g", "out/g", "a/b/c/graph", "./g.x", "d_1/part_"};

static void ioBase(Spec& s, Rnd& r, bool th, int maxV) {
  GraphOpts g; g.maxV = th ? maxV * 2 : maxV; g.ids32 = true;
  commonGraph(s, r, g);
  s.kv["workload"] = "io";
  s.kv["verbosity"] = I(r.range(-1, 2));
  if (r.chance(60)) { static const int b[] = {1, 7, 16, 64, 256}; s.kv["stdio_buf"] = I(b[r.below(5)]); }
}

// every load is preceded by a save of that prefix, in an earlier job if there are two
static bool ioValid(const Spec& s) {
  std::set<std::string> sv; long at = s.num("jobs", 1) > 1 ? s.num("restart_at") : -1;
  for (size_t i = 0; i < s.ops.size(); i++) {
    auto& a = s.ops[i].a;
    if (a[0] == "save") { if (at >= 0 && (long)i >= at) return false; sv.insert(a[1]); }
    if (a[0] == "load" && !sv.count(a[1])) return false;
  }
  return at < 0 || (at < (long)s.ops.size() && s.ops[at].a[0] == "load");
}
static bool binValid(const Spec& s) {
  gid mx = -1;
  for (size_t i = 0; i < s.verts.size(); i++) if (s.verts[i].id != (gid)i) return false;
  for (auto& e : s.edges) for (auto p : e.pins) mx = std::max(mx, p);
  return mx + 1 == (gid)s.verts.size() && mx >= 0 && s.num("cut_part") <= (long)s.verts.size();
}

static RegP e01([] {
  Property p; p.id = "E01";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    ioBase(s, r, th, 26);
    if (r.chance(30)) s.kv["io_short_p"] = I(r.range(50, 400));   // legal short writes, stdio must absorb them
    std::map<gid, int> own, cur; for (auto& v : s.verts) cur[v.id] = v.owner;
    std::map<std::string, std::map<gid, int>> saved;
    int N = (int)s.num("nranks"), n = r.range(1, th ? 5 : 3);
    for (int i = 0; i < n; i++) {
      if (r.chance(45)) s.ops.push_back(migOp(s, r, cur, N));
      std::string pf = r.chance(6) ? longName(r) : PFX[r.below(5)];
      s.ops.push_back(op({"save", pf})); saved[pf] = cur;
      if (r.chance(30)) s.ops.push_back(migOp(s, r, cur, N));
      if (r.chance(75)) {
        auto it = saved.begin(); std::advance(it, r.below((int)saved.size()));
        s.ops.push_back(op({"load", it->first, I(r.chance(70))})); cur = it->second;
        if (r.chance(40)) { s.ops.push_back(migOp(s, r, cur, N)); s.ops.push_back(op({"part"})); }
      }
    }
    std::string last = saved.rbegin()->first;
    s.ops.push_back(op({"load", last, "1"}));
    if (r.chance(30)) { s.kv["jobs"] = "2"; s.kv["restart_at"] = I((long)s.ops.size() - 1); }
  };
  p.hooks = graphHooks; p.valid = ioValid;
  p.quickRuns = 7000; p.thoroughRuns = 250000;
  p.wantProbes = {"io.save", "io.load"};
  p.rule = "a case is one simulated job (or two, the second starting from files alone) that saves, migrates, overwrites and loads generated graphs under generated prefixes with 1-256 byte stdio buffers and short writes; non-trivial = at least two ranks and a non-default scheduling, network or I/O decision; distinct = different (scenario, interleaving) pair";
  p.real = "agi/*, pcu/*, support/*, glibc stdio"; p.stub = "MPI, clock, file system below fopen/mkdir";
  return p; }());

static RegP e02([] {
  Property p; p.id = "E02";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    ioBase(s, r, th, 18);
    if (s.num("nranks") < 2) s.kv["nranks"] = "2";
    std::map<gid, int> cur; for (auto& v : s.verts) cur[v.id] = v.owner;
    int N = (int)s.num("nranks");
    if (r.chance(50)) s.ops.push_back(migOp(s, r, cur, N));
    std::string pf = r.chance(4) ? longName(r) : PFX[r.below(5)];
    s.ops.push_back(op({"save", pf, "commit"}));
    s.ops.push_back(op({"load", pf, "1"}));
    s.kv["jobs"] = "2"; s.kv["restart_at"] = I((long)s.ops.size() - 1);
    if (r.chance(40)) { s.ops.push_back(migOp(s, r, cur, N)); s.ops.push_back(op({"part"})); }
    int f = r.below(9);
    if (f <= 0 || f == 8) {
      // transient write errors: few enough that a job which misses one gets through
      s.kv["io_write_p"] = I(r.chance(60) ? r.range(2, 25) : r.range(5, 120));
      if (r.chance(80)) { static const int b[] = {7, 12, 16, 24, 32, 64, 100}; s.kv["stdio_buf"] = I(b[r.below(7)]); }
    }
    if (f == 1) s.kv["disk_cap"] = I(r.range(20, 3000));
    if (f == 2) s.kv["io_close_p"] = I(r.range(100, 700));
    if (f == 3) s.kv["io_open_p"] = I(r.range(50, 400));
    if (f == 4) s.kv["io_read_p"] = I(r.range(5, 120));
    if (f == 5) s.kv["io_mkdir_p"] = "300";
    if (f == 6 || f == 7) { if (r.chance(80)) s.kv["crash_in"] = "save"; s.kv["crash_step"] = I(r.chance(50) ? r.range(1, 60) : r.chance(50) ? r.range(20, 600) : r.range(100, 4000)); }
    if (r.chance(25)) s.kv["io_short_p"] = I(r.range(50, 400));
    if (r.chance(10)) s.kv["io_read_p"] = I(r.range(5, 60));
  };
  p.hooks = graphHooks; p.valid = ioValid;
  p.quickRuns = 10000; p.thoroughRuns = 250000;
  p.wantProbes = {"io.save", "io.load"};
  p.rule = "a case is one simulated job that saves a generated graph while one fault kind is live (write error, full disk, error at close, open failure, mkdir failure, read error, job kill at a chosen scheduler step) followed by a second job that starts from the surviving files; non-trivial = at least two ranks and a non-default decision; distinct = different (scenario, interleaving) pair";
  p.real = "agi/*, pcu/*, support/*, glibc stdio"; p.stub = "MPI, clock, file system below fopen/mkdir";
  return p; }());

static RegP f01([] {
  Property p; p.id = "F01";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    s.kv["workload"] = "bin";
    int N = r.chance(10) ? 1 : r.range(2, r.chance(70) ? 4 : 8);
    s.kv["nranks"] = I(N);
    genSchedule(s, r);
    s.kv["hyper"] = "0"; s.kv["ntypes"] = "1"; s.kv["unit_weights"] = "1"; s.kv["unit_edge_weights"] = "1";
    s.kv["verbosity"] = "-1";
    int n = r.chance(30) ? r.range(2, 6) : r.range(2, th ? 80 : 40);
    if (r.chance(2)) n = r.range(150, 350);   // edges of a process beyond a byte
    bool part = r.chance(50);
    if (part) s.kv["use_part"] = "1";
    int style = r.below(3), only = r.below(N);
    for (int i = 0; i < n; i++) { GVert v; v.id = i; v.w = 1; v.xyz[0] = v.xyz[1] = v.xyz[2] = 0; v.owner = style == 0 ? r.below(N) : style == 1 ? i % N : (r.chance(80) ? only : r.below(N)); s.verts.push_back(v); }
    int ne = r.chance(20) ? r.below(4) : r.range(0, 3 * n);
    bool sym = r.chance(40), loops = false, dup = r.chance(30);
    std::set<std::pair<int, int>> have;
    auto add = [&](int a, int b) { if (!dup && !have.insert({a, b}).second) return; GEdge e; e.type = 0; e.id = (gid)s.edges.size(); e.w = 1; e.home = 0; e.pins = {a, b}; s.edges.push_back(e); };
    for (int i = 0; i < ne; i++) { int a = r.below(n), b = r.below(n); if (a == b && !loops) continue; add(a, b); if (sym && a != b) add(b, a); }
    // the largest id in the file defines the number of vertices
    if (n > 1) { if (r.chance(50)) add(r.below(n - 1), n - 1); else add(n - 1, r.below(n - 1)); }
    if (r.chance(30)) { std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner; if (part) s.ops.push_back(migOp(s, r, own, N)); else { Op o; o.a = {"mig", "0", "3"}; for (auto& v : s.verts) if (r.chance(60)) { o.a.push_back(I(v.id)); o.a.push_back(I(r.below(N))); } s.ops.push_back(o); } }
    int f = r.below(10);
    if (f == 0) s.kv["io_open_p"] = I(r.range(50, 300));
    if (f == 1 || f == 2) s.kv["io_read_p"] = I(r.range(50, 400));
    if (f == 3 && part) { s.kv["cut_part"] = I(r.range(1, n)); s.kv["expect_fail"] = "1"; }
    if (f == 4 && part) { s.kv["no_part"] = "1"; s.kv["expect_fail"] = "1"; }
    if (r.chance(40)) s.kv["stdio_buf"] = I(r.range(8, 128));
    if (r.chance(15)) s.kv["log"] = "1";
    if (r.chance(12)) s.kv["name_pad"] = I(r.range(100, 200));
  };
  p.hooks = [](const Spec& s, sim::Hooks& h, int) {
    auto st = std::make_shared<GraphOracle>(s);
    h.onDump = [st, &s](int step, std::vector<Dump>& d) {
      st->advance(step);
      if (step == 0) {
        if (s.num("cut_part") || s.num("no_part")) vio("bin.partial-partition", "a graph is returned although the partition file does not place every vertex");
        if (!s.num("use_part")) {
          adoptOwners(st->m, d, "after loading");
          int last = 0;
          for (auto& v : st->m.v) { if (v.second.owner < last) vio("bin.blocks", "without a partition file the vertices are not distributed in contiguous blocks"); last = v.second.owner; v.second.orig = last; }
        }
      }
      CheckOpts o; o.when = step ? "after migrating a loaded graph" : "after loading"; o.orig = step > 0;
      checkDumps(st->m, d, o);
    };
  };
  p.valid = binValid;
  p.quickRuns = 12000; p.thoroughRuns = 300000;
  p.wantProbes = {"bin.load"};
  p.rule = "a case is one simulated job in which all ranks read one generated binary edge list (isolated and sink vertices, duplicates, loops), with and without a partition file, optionally with open or read faults or an incomplete partition file, optionally migrating afterwards; non-trivial = at least two ranks and a non-default scheduling, network or I/O decision; distinct = different (scenario, interleaving) pair";
  p.real = "interfaces/binGraph.cpp, agi/*, pcu/*, glibc stdio, libstdc++ streams"; p.stub = "MPI, clock, file system below fopen";
  return p; }());
