// What a job takes it gives back: any other property's program, on the hostile heap.
#include "drv.h"
static const char* BASES[] = {"B02", "B03", "B04", "B05", "B06", "B01", "C01", "C01", "C02", "C03", "C04", "C05", "D01", "D02", "E01", "E03", "F01", "F02", "G01", "G02", "A01", "A03", "E04", "G03"};
static const Property* base(const std::string& id) { for (auto& p : properties()) if (p.id == id) return &p; return nullptr; }
static RegP h02([] {
  Property p; p.id = "H02";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t idx) {
    std::string b = BASES[r.below(sizeof BASES / sizeof *BASES)];
    base(b)->gen(s, r, th && r.chance(30), idx);
    s.kv["base"] = b; s.kv["fence"] = "1"; s.kv["held"] = "1";
    s.kv.erase("malloc_fail_at");
  };
  p.hooks = [](const Spec& s, sim::Hooks& h, int job) { base(s.get("base"))->hooks(s, h, job); };
  p.valid = [](const Spec& s) { auto b = base(s.get("base")); return !b->valid || b->valid(s); };
  p.quickRuns = 4000; p.thoroughRuns = 100000;
  p.rule = "a case is one simulated job running a program generated for one of the other properties (construction, edits, migrations, tags, balancing, weight balancing, splitting, saving, loading, reports, bare messaging, through C++ or C) with every block of EnGPar's memory tracked, and looked at once all its objects are destroyed; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.real = "agi/*, pcu/*, support/*, partition/*, interfaces/*, ParMETIS, METIS, Zoltan"; p.stub = "MPI, clock, heap";
  return p; }());
