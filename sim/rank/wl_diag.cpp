// Workload over what the library tells its user about itself: messages,
// verbosity, the error flag, and the timers migrations record themselves in.
#include "common.h"
#include <agiMigrationTimers.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace agi;
static uint64_t hx(uint64_t a, uint64_t b, uint64_t c) { uint64_t h = a * 0x9e3779b97f4a7c15ULL ^ (b + 1) * 0xbf58476d1ce4e5b9ULL ^ (c + 1) * 0x94d049bb133111ebULL; h ^= h >> 31; h *= 0xd6e8feb86659fd93ULL; return h ^ (h >> 29); }
static long outSize() { struct stat st; return fstat(1, &st) == 0 ? (long)st.st_size : 0; }
static std::string outFrom(long at) { std::string s(outSize() - at, ' '); if (pread(1, &s[0], s.size(), at) < 0) s.clear(); return s; }
// what a call printed: nothing else runs meanwhile; `err` = it is out without a flush
template <class F> static std::string printed(F f, bool* err = nullptr) {
  fflush(stdout); fflush(stderr); long at = outSize();
  f();
  if (err) *err = outSize() > at;
  fflush(stdout); fflush(stderr);
  return outFrom(at);
}
struct Ledger { double t = 0; int n = 0; };

WORKLOAD(diag) {
  const sim::Spec& sp = sim::spec();
  PCU_Comm_Init();
  int self = PCU_Comm_Self(), P = PCU_Comm_Peers(), v = (int)sp.num("verbosity", 0);
  std::string hello = printed([&] { EnGPar_Initialize(v); });
  if ((!self && v >= 0) != (hello.compare(0, 16, "ENGPAR Git hash ") == 0 && std::count(hello.begin(), hello.end(), '\n') == 1) || (hello.size() && (self || v < 0)))
    sim::violation("diag.start", "starting at verbosity %d, process %d prints \"%.60s\"", v, self, hello.c_str());
  bool jumps = sp.num("clock_jump_p", 0);
  Ngraph* g = nullptr; std::map<Gid, int> own;
  if (sp.verts.size()) { g = buildGraph(sp, self, (int)sp.num("variant", 0), false); g->setOriginalOwners(); }
  bool flag = false;
  MigrationTimers* T[2] = {new MigrationTimers, new MigrationTimers};
  std::map<std::string, Ledger> L[2][16];   // per object and rank; those of other ranks recomputed
  std::set<std::string> wild[2];            // recorded by migrations: only the local values are known
  for (size_t i = 0; i < sp.ops.size(); i++) {
    auto& a = sp.ops[i].a; const std::string& k = a[0];
    sim::phase(k.c_str());
    if (k == "verb") { v = (int)toL(a[1]); EnGPar_Set_Verbosity(v); }
    else if (k == "level") {
      int q = (int)toL(a[1]);
      if (EnGPar_Check_Verbosity(q) != (v >= q)) sim::violation("diag.verbosity", "at verbosity %d, asking for level %d says %s", v, q, v >= q ? "no" : "yes");
    } else if (k == "test") { EnGPar_Start_Test(); flag = false; }
    else if (k == "hit") { if (EnGPar_Hit_Error() != flag) sim::violation("diag.error-flag", "process %d: an error %s reported since the test began, asking says the opposite", self, flag ? "was" : "was not"); }
    else if (k == "msg") {
      // msg KIND LEVEL PAD SEED, on the processes whose bit is set
      if (!(toL(a[5]) >> self & 1)) continue;
      int lv = (int)toL(a[2]); long pad = toL(a[3]), seed = toL(a[4]);
      const std::string& kind = a[1];
      std::string fmt = "p" + std::to_string(self) + " s" + std::to_string(i) + " ", arg;
      for (long j = 0; j < pad; j++) arg += (char)('!' + hx(seed, self, j) % 90);
      bool in = hx(seed, 7, 7) % 2 && pad < 800;   // in the format itself or as an argument
      if (in) { for (char c : arg) { fmt += c; if (c == '%') fmt += c; } arg = "x"; }
      fmt += " %d %s %ld|%.17g%%\n";
      int x = (int)hx(seed, self, 1); long y = (long)hx(seed, self, 2); double z = (double)(long)hx(seed, self, 3) / 1024;
      std::vector<char> b(fmt.size() + arg.size() + 200); snprintf(b.data(), b.size(), fmt.c_str(), x, arg.c_str(), y, z);
      bool shown = kind != "level" || v >= lv, err = false;
      std::string want = shown ? std::string(kind == "warn" ? "[WARNING] ENGPAR " : kind == "err" ? "[ERROR] ENGPAR " : "ENGPAR ") + b.data() : "";
      std::string got = printed([&] {
        if (kind == "warn") EnGPar_Warning_Message(fmt.c_str(), x, arg.c_str(), y, z);
        else if (kind == "err") EnGPar_Error_Message(fmt.c_str(), x, arg.c_str(), y, z);
        else if (kind == "level") EnGPar_Status_Message(lv, fmt.c_str(), x, arg.c_str(), y, z);
        else EnGPar_Status_Message(fmt.c_str(), x, arg.c_str(), y, z);
      }, &err);
      if (kind == "err") flag = true;
      if (got != want) sim::violation("diag.message", "a message (%s, level %d at verbosity %d) of %zu characters comes out as %zu: \"%.80s\", expected \"%.80s\"", kind.c_str(), lv, v, want.size(), got.size(), got.c_str(), want.c_str());
      if (kind == "err" && !err) sim::violation("diag.message", "an error message is not on the error stream");
      sim::probe("diag.message");
    } else if (k == "timer") { int o = (int)toL(a[1]); T[o]->addTimer(a[2]); for (int r = 0; r < P; r++) L[o][r][a[2]]; }
    else if (k == "upd") {
      int o = (int)toL(a[1]); long seed = toL(a[3]);
      for (int r = 0; r < P; r++) for (uint64_t j = 0; j < hx(seed, r, 0) % 4; j++) {
        double x = (double)(hx(seed, r, j + 1) % 100000) / 64;
        L[o][r][a[2]].t += x; L[o][r][a[2]].n++;
        if (r == self) T[o]->update(a[2], x);
      }
    } else if (k == "ask") {
      int o = (int)toL(a[1]); const std::string& nm = a[2];
      Ledger me = L[o][self][nm];
      if (T[o]->getTime(nm) != me.t || T[o]->getCount(nm) != me.n) sim::violation("diag.timer", "process %d: timer \"%s\" holds %.17g over %d calls, %.17g over %d were recorded", self, nm.c_str(), T[o]->getTime(nm), T[o]->getCount(nm), me.t, me.n);
      bool calls = true; double mx = 0, sum = 0, cmx = 0, csum = 0;
      for (int r = 0; r < P; r++) { Ledger& l = L[o][r][nm]; if (!l.n) calls = false; double c = l.n ? l.t / l.n : 0; if (!r || l.t > mx) mx = l.t; if (!r || c > cmx) cmx = c; sum += l.t; csum += c; }
      auto cmp = [&](double got, double want, const char* what) { if (!(fabs(got - want) <= 1e-12 * (1 + fabs(want)))) sim::violation("diag.timer", "process %d: %s of timer \"%s\" over the processes is %.17g, expected %.17g", self, what, nm.c_str(), got, want); };
      if (wild[o].count(nm)) {
        // recorded by migrations: the answers must agree with each other
        double gm = T[o]->processMax(nm), ga = T[o]->processAvg(nm), m2 = PCU_Max_Double(me.t), a2 = PCU_Add_Double(me.t) / P;
        cmp(gm, m2, "the maximum"); cmp(ga, a2, "the average");
        continue;
      }
      cmp(T[o]->processMax(nm), mx, "the maximum"); cmp(T[o]->processAvg(nm), sum / P, "the average");
      if (calls) { cmp(T[o]->perCallProcessMax(nm), cmx, "the maximum per call"); cmp(T[o]->perCallProcessAvg(nm), csum / P, "the average per call"); }
      sim::probe("diag.timer");
    } else if (k == "mig" && g) {
      // mig OBJECT SEED: a random plan, recorded
      int o = (int)toL(a[1]); long seed = toL(a[2]);
      static const char* N[] = {"setup", "comm", "build", "total"};
      Migration* plan = new Migration(g);
      VertexIterator* vi = g->begin(); GraphVertex* u;
      while ((u = g->iterate(vi))) if (hx(seed, g->globalID(u), 1) % 3) plan->insert(std::make_pair(u, (part_t)(hx(seed, g->globalID(u), 2) % P)));
      double t0 = PCU_Time();
      g->migrate(plan, T[o]);
      double t1 = PCU_Time(), d[4];
      for (int q = 0; q < 4; q++) {
        Ledger& l = L[o][self][N[q]]; d[q] = T[o]->getTime(N[q]) - l.t;
        if (T[o]->getCount(N[q]) != l.n + 1) sim::violation("diag.migration", "process %d: one migration changed the number of calls of \"%s\" from %d to %d", self, N[q], l.n, T[o]->getCount(N[q]));
        l.n++; l.t = T[o]->getTime(N[q]); wild[o].insert(N[q]);
        if (!jumps && !(d[q] >= -1e-9 && d[q] <= t1 - t0 + 1e-9)) sim::violation("diag.migration", "process %d: a migration that took %.9g records %.9g as \"%s\"", self, t1 - t0, d[q], N[q]);
      }
      if (!jumps && d[0] + d[1] + d[2] > d[3] + 1e-9) sim::violation("diag.migration", "process %d: a migration records %.9g, %.9g and %.9g for its parts and %.9g in all", self, d[0], d[1], d[2], d[3]);
      sim::probe("diag.migration");
    }
  }
  delete T[0]; delete T[1];
  if (g) destroyGraph(g);
  EnGPar_Finalize();
  PCU_Comm_Free();
}
