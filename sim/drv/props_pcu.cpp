// Messaging layer properties.
#include "drv.h"
#include <algorithm>
static Op op(std::initializer_list<std::string> l) { Op o; o.a = l; return o; }
static std::string I(long x) { return num(x); }

static void genPhases(Spec& s, Rnd& r, int phases, int N) {
  static const char* modes[] = {"pack", "pack", "write", "start_local", "start_global", "receive", "receive"};
  for (int p = 0; p < phases; p++) {
    s.ops.push_back(op({"p", modes[r.below(7)], I(r.below(2)), I(r.below(3))}));
    int shape = r.below(6), cnt = shape == 0 ? 0 : r.range(1, 3 * N);
    int hub = r.below(N);
    for (int k = 0; k < cnt; k++) {
      int a = shape == 1 ? hub : r.below(N), b = shape == 2 ? hub : shape == 3 ? a : r.below(N);
      long sz = r.chance(15) ? 0 : r.chance(80) ? r.range(1, 60) : r.chance(92) ? r.range(500, 9000) : r.range(20000, 300000);
      s.ops.push_back(op({"m", I(a), I(b), I(sz)}));
    }
  }
}
static RegP a01([] {
  Property p; p.id = "A01";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t idx) {
    int N = r.chance(15) ? 1 : r.range(2, 8);
    s.kv["workload"] = "msg"; s.kv["nranks"] = I(N);
    genSchedule(s, r);
    genPhases(s, r, r.chance(2) ? r.range(12, 50) : r.range(1, th ? 9 : 6), N);
    if (r.chance(12)) s.kv["malloc_fail_at"] = I(r.range(1, 30));
  };
  p.hooks = [](const Spec&, sim::Hooks&, int) {};
  p.quickRuns = 12000; p.thoroughRuns = 400000;
  p.rule = "a case is one simulated MPI job (1-8 ranks) running 1-9 generated communication phases; non-trivial = at least two ranks exchanged messages and the scheduler, network or allocator took at least one non-default decision; distinct = different (scenario, interleaving) pair";
  p.wantProbes = {"msg.phases"};
  p.real = "pcu/* (all of PCU)"; p.stub = "MPI, clock, allocator failures";
  return p; }());

static RegP a02([] {
  Property p; p.id = "A02";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    int N = r.chance(10) ? 1 : r.range(2, 8);
    s.kv["workload"] = "coll"; s.kv["nranks"] = I(N);
    genSchedule(s, r);
    int n = r.chance(2) ? r.range(20, 80) : r.range(2, th ? 14 : 9);
    static const char* ops[] = {"add", "min", "max", "exscan"};
    static const char* ty[] = {"double", "int", "long", "size"};
    for (int i = 0; i < n; i++) {
      int k = r.below(12);
      std::string seed = fmt("%lu", (unsigned long)(r.next() >> 20));
      if (k == 0) s.ops.push_back(op({"barrier", "-", "0", "0", "0"}));
      else if (k == 1) s.ops.push_back(op({"or", "-", I(r.below(5)), seed, "0"}));
      else if (k == 2) s.ops.push_back(op({"and", "-", I(r.below(5)), seed, "0"}));
      else if (k == 3) s.ops.push_back(op({"p", I(r.below(2)), I(r.range(0, 2 * N)), seed}));
      else {
        std::string o = ops[r.below(4)], t = ty[r.below(4)];
        if (o == "exscan" && t != "int" && t != "long") t = "int";
        if ((o == "min" || o == "max") && t == "long") t = "size";
        s.ops.push_back(op({o, t, I(r.chance(50) ? 1 : r.chance(95) ? r.range(1, 40) : r.range(1000, 3000)), seed, I(r.below(2))}));
      }
    }
  };
  p.hooks = [](const Spec& s, sim::Hooks& h, int) {
    // A barrier may only be left once everybody has entered it: the ranks that
    // have entered are counted before any leaves.
    auto entered = std::make_shared<std::set<int>>();
    h.onBlob = [entered](int step, const std::string& name, std::vector<std::vector<double>>&) { if (name == "enter") entered->insert(step); };
    h.onFirstBlob = [entered](int step, const std::string& name) {
      if (name == "leave" && !entered->count(step - 1)) vio("coll.barrier", "a rank left the barrier before every rank had entered it");
    };
  };
  p.quickRuns = 12000; p.thoroughRuns = 400000;
  p.rule = "a case is one simulated job (1-8 ranks) running 2-14 generated collectives interleaved with phases; non-trivial = at least two ranks and at least one non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.wantProbes = {"coll.add.double", "coll.exscan.int", "coll.min.size", "coll.barrier.-"};
  p.real = "pcu/*"; p.stub = "MPI, clock";
  return p; }());

static RegP a03([] {
  Property p; p.id = "A03";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    int N = r.range(2, 8);
    s.kv["workload"] = "comm"; s.kv["nranks"] = I(N);
    if (r.chance(50)) s.kv["engpar_layer"] = r.chance(40) ? "1" : r.chance(60) ? "2" : "3";
    genSchedule(s, r);
    static const char* modes[] = {"pack", "write", "start_local", "start_global", "receive"};
    int n = r.chance(2) ? r.range(15, 40) : r.range(2, th ? 10 : 7);
    for (int i = 0; i < n; i++) {
      int k = r.below(10);
      if (k < 3) { Op o; o.a = {"split"}; int m = r.range(1, N); for (int j = 0; j < m; j++) o.a.push_back(I(r.below(3))); s.ops.push_back(o); }
      else if (k == 3) s.ops.push_back(op({"back"}));
      else if (k == 4) s.ops.push_back(op({"self"}));
      else if (k < 7) { if (r.chance(40)) s.ops.push_back(op({"only", I(r.below(2))})); s.ops.push_back(op({r.chance(60) ? "sum" : "scan"})); }
      else {
        if (r.chance(30)) s.ops.push_back(op({"only", I(r.below(2))}));
        s.ops.push_back(op({"p", modes[r.below(5)], I(r.below(2)), "0"}));
        int c = r.below(2 * N);
        for (int j = 0; j < c; j++) s.ops.push_back(op({"m", I(r.below(N)), I(r.below(N)), I(r.below(200))}));
      }
    }
  };
  p.hooks = [](const Spec&, sim::Hooks&, int) {};
  p.quickRuns = 10000; p.thoroughRuns = 300000;
  p.rule = "a case is one simulated job (2-8 ranks) that repeatedly splits into groups, runs phases and collectives inside them while the groups proceed independently, and returns; non-trivial = a split happened and the scheduler or network took a non-default decision; distinct = different (scenario, interleaving) pair";
  p.wantProbes = {"comm.split"};
  p.real = "pcu/*, support/engpar_support.cpp"; p.stub = "MPI, clock";
  return p; }());
