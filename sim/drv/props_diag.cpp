// What the library tells its user about itself.
#include "drv.h"
static Op op(std::initializer_list<std::string> l) { Op o; o.a = l; return o; }
static std::string I(long x) { return num(x); }
static RegP g03([] {
  Property p; p.id = "G03";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    int N = r.chance(10) ? 1 : r.range(2, 8); s.kv["nranks"] = I(N);
    genSchedule(s, r);
    bool graph = r.chance(40);
    if (graph) { GraphOpts g; g.maxV = 24; genGraph(s, r, g); }
    s.kv["workload"] = "diag"; s.kv["variant"] = I(r.below(64)); s.kv["verbosity"] = I(r.range(-2, 4));
    std::vector<std::string> nm[2];
    for (int o = 0; o < 2; o++) {
      std::vector<std::string> l;
      if (graph || r.chance(30)) l = {"setup", "comm", "build", "total"};
      int n = r.chance(10) ? r.range(15, 40) : r.range(0, 5);
      for (int i = 0; i < n; i++) { std::string x = r.chance(20) ? "" : "t"; x += I(i); if (r.chance(10)) x += "-of.a_longer:name"; if (r.chance(10)) x = std::string(r.range(20, 200), 'z') + x; l.push_back(x); }
      for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[r.below((int)i)]);
      for (auto& x : l) s.ops.push_back(op({"timer", I(o), x}));
      nm[o] = l;
    }
    int n = r.chance(5) ? r.range(40, 90) : r.range(4, th ? 40 : 20);
    for (int i = 0; i < n; i++) {
      int k = r.below(14), o = r.below(2);
      if (k == 0) s.ops.push_back(op({"verb", I(r.range(-3, 5))}));
      else if (k == 1) s.ops.push_back(op({"level", I(r.range(-3, 6))}));
      else if (k == 2) s.ops.push_back(op({"test"}));
      else if (k == 3) s.ops.push_back(op({"hit"}));
      else if (k <= 6) { static const char* K[] = {"status", "level", "level", "warn", "err"}; s.ops.push_back(op({"msg", K[r.below(5)], I(r.range(-3, 5)), I(r.chance(70) ? r.below(60) : r.below(2500)), I(r.below(1000000)), I(r.chance(40) ? 255 : r.below(256))})); if (r.chance(40)) s.ops.push_back(op({"hit"})); }
      else if (k <= 8 && graph) s.ops.push_back(op({"mig", I(o), I(r.below(1000000))}));
      else if (nm[o].size()) {
        const std::string& x = nm[o][r.below((int)nm[o].size())];
        bool lib = graph && (x == "setup" || x == "comm" || x == "build" || x == "total");
        if (r.chance(50) || lib) s.ops.push_back(op({"ask", I(o), x})); else s.ops.push_back(op({"upd", I(o), x, I(r.below(1000000))}));
      }
    }
  };
  p.hooks = [](const Spec&, sim::Hooks&, int) {};
  p.valid = [](const Spec& s) {
    std::set<std::string> have;
    for (auto& o : s.ops) {
      if (o.a[0] == "timer" && !have.insert(o.a[1] + o.a[2]).second) return false;
      if ((o.a[0] == "upd" || o.a[0] == "ask") && !have.count(o.a[1] + o.a[2])) return false;
      if (o.a[0] == "mig") for (auto x : {"setup", "comm", "build", "total"}) if (!have.count(o.a[1] + x)) return false;
    }
    return true;
  };
  p.quickRuns = 10000; p.thoroughRuns = 300000;
  p.wantProbes = {"diag.message", "diag.timer", "diag.migration"};
  p.rule = "a case is one simulated job that prints messages of every kind and length at changing verbosity, reports errors, adds, updates and queries timers and migrates a graph with timers, on clocks of different rate; non-trivial = at least two ranks and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.real = "support/*, agi/agiMigrationTimers.cpp, agi/*, pcu/*"; p.stub = "MPI, clock";
  return p; }());
