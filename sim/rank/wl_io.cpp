// Workload over the file formats: saving, loading, restarting from saved
// files, and the binary edge-list reader, with I/O faults and job kills.
#include "common.h"
#include <algorithm>
using namespace agi;

static uint64_t hv(uint64_t a, uint64_t b) { uint64_t h = a * 0x9e3779b97f4a7c15ULL ^ b * 0xbf58476d1ce4e5b9ULL; h ^= h >> 31; h *= 0xd6e8feb86659fd93ULL; return h ^ (h >> 32); }

WORKLOAD(io) {
  const sim::Spec& sp = sim::spec();
  PCU_Comm_Init();
  EnGPar_Set_Verbosity((int)sp.num("verbosity", -1));
  int self = PCU_Comm_Self();
  if (sp.num("pcu_order")) PCU_Comm_Order(true);
  int var = (int)sp.num("variant", 0);
  auto myvar = [&](int v) { return (int)(v & 32 ? hv(v, self) % 32 : v % 32); };
  bool coords = sp.num("coords", 0), orig = false;
  Ngraph* g = NULL;
  int firstLoad = (int)sp.num("restart_at", 0);   // ops before this one belong to the first job only
  int lo = 0, hi = (int)sp.ops.size();
  if (sp.num("jobs", 1) > 1) { if (sim::job() == 0) hi = firstLoad; else lo = firstLoad; }
  if (sim::job() == 0) { sim::setFaults(false); g = buildGraph(sp, self, myvar(var), coords); }
  for (int i = lo; i < hi; i++) {
    const sim::Op& o = sp.ops[i];
    const std::string& k = o.a[0];
    int step = i + 1;
    sim::phase(k.c_str());
    auto dump = [&] { sim::setFaults(false); sim::Dump d; dumpGraph(g, d, true, orig); sim::submit(step, d); };
    if (k == "mig") {
      std::unordered_map<Gid, int> dest;
      for (size_t j = 3; j + 1 < o.a.size(); j += 2) dest[toL(o.a[j])] = (int)toL(o.a[j + 1]);
      migrateTo(g, dest, toL(o.a[1]), (int)toL(o.a[2]));
      orig = true;
      dump();
    } else if (k == "save") {
      sim::setFaults(true);
      try { g->saveToFile(o.a[1].c_str()); } catch (...) { sim::refuse("saving threw"); }
      sim::setFaults(false);
      sim::probe("io.save");
      // the graph must survive being saved
      dump();
      PCU_Barrier();
      if (!self && o.a.size() > 2) sim::diskPut("__must_load", o.a[1]);
      PCU_Barrier();
    } else if (k == "load") {
      if (!g || toL(o.a[2])) { if (g) destroyGraph(g); g = createEmptyGraph(); }   // else: load over a graph already in use
      sim::setFaults(true);
      try { g->loadFromFile(o.a[1].c_str()); } catch (...) { sim::refuse("loading threw"); }
      sim::setFaults(false);
      orig = false;
      sim::probe("io.load");
      dump();
    } else if (k == "part") {
      PartitionMap* pm = g->getPartition();
      std::vector<double> out;
      for (auto& p : *pm) { out.push_back((double)p.first); out.push_back(p.second); }
      delete pm;
      sim::submitBlob(step, "part", out);
    }
  }
  if (g) destroyGraph(g);
  PCU_Comm_Free();
}

WORKLOAD(bin) {
  const sim::Spec& sp = sim::spec();
  PCU_Comm_Init();
  EnGPar_Set_Verbosity((int)sp.num("verbosity", -1));
  int self = PCU_Comm_Self();
  // the input files are part of the scenario
  std::string part;
  if (!self) {
    std::string bytes;
    for (auto& e : sp.edges) { int32_t p[2] = {(int32_t)e.pins[0], (int32_t)e.pins[1]}; bytes.append((const char*)p, 8); }
    long cut = sp.num("cut_file", 0);
    if (cut > 0 && cut < (long)bytes.size()) bytes.resize(bytes.size() - cut);
    sim::diskPut("g.ebin", bytes);
    std::string t;
    size_t lines = sp.verts.size() - std::min<long>(sp.num("cut_part", 0), (long)sp.verts.size());
    for (size_t i = 0; i < lines; i++) t += std::to_string(sp.verts[i].owner) + "\n";
    if (!sp.num("no_part")) sim::diskPut("g.part", t);
  }
  PCU_Barrier();
  std::string pad; for (long i = 0; i < sp.num("name_pad", 0); i++) pad += "./";
  std::string gfs = pad + "g.ebin", pfs = pad + "g.part"; char *gf = &gfs[0], *pf = &pfs[0];
  bool logging = sp.num("log", 0);
  if (logging) EnGPar_Open_Log();
  sim::setFaults(true);
  Ngraph* g = NULL;
  try { g = createBinGraph(gf, sp.num("use_part") ? pf : NULL); } catch (...) { sim::refuse("loading threw"); }
  sim::setFaults(false);
  sim::probe("bin.load");
  if (logging) {
    if (EnGPar_Is_Log_Open()) { char m[] = "@made\n"; EnGPar_Log_Function(m); EnGPar_End_Function(); }   // at the top level
    EnGPar_Close_Log();
    std::string t, want = "createBinGraph " + gfs + "\n";
    if (!self && !sim::diskGet("log.txt", t)) sim::violation("log.missing", "the log was opened and closed but there is no log.txt");
    size_t at = t.find("@made\n");
    if (!self && (at == std::string::npos || (at && t[at - 1] != '\n'))) sim::violation("log.depth", "after reading a graph the log is not at its top level: %.200s", t.c_str());
    if (!self && t.compare(0, want.size(), want)) sim::violation("log.content", "the log does not show that the graph was read from %s: %.60s", gf, t.c_str());
  }
  int step = 0;
  bool orig = false;
  { sim::Dump d; dumpGraph(g, d, true, orig); sim::submit(step, d); }
  for (auto& o : sp.ops) {
    step++;
    std::unordered_map<Gid, int> dest;
    for (size_t j = 3; j + 1 < o.a.size(); j += 2) dest[toL(o.a[j])] = (int)toL(o.a[j + 1]);
    migrateTo(g, dest, toL(o.a[1]), (int)toL(o.a[2]));
    orig = true;
    sim::Dump d; dumpGraph(g, d, true, orig); sim::submit(step, d);
  }
  destroyGraph(g);
  PCU_Comm_Free();
}
