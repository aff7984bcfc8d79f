// PCU's portable typed files and debug files.
#include "drv.h"
static Op op(std::initializer_list<std::string> l) { Op o; o.a = l; return o; }
static std::string I(long x) { return num(x); }
static RegP e04([] {
  Property p; p.id = "E04";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    s.kv["workload"] = "pio"; s.kv["nranks"] = I(r.chance(15) ? 1 : r.range(2, 8));
    genSchedule(s, r);
    if (r.chance(60)) { static const int b[] = {1, 7, 16, 64, 256}; s.kv["stdio_buf"] = I(b[r.below(5)]); }
    if (r.chance(30)) s.kv["io_short_p"] = I(r.range(50, 400));
    int n = r.range(1, th ? 6 : 3); bool d = false;
    static const char* NM[] = {"f", "x.bin", "p_"};
    for (int i = 0; i < n; i++) {
      if (r.chance(25)) s.ops.push_back(op({"talk"}));
      if (r.chance(20)) s.ops.push_back(op({"swap", I(r.range(0, 40)), I(r.below(100000))}));
      if (r.chance(30)) { if (!d || r.chance(20)) { if (r.chance(20)) s.ops.push_back(op({"dprint", "2", "5"})); s.ops.push_back(op({"dopen"})); d = true; } s.ops.push_back(op({"dprint", I(r.range(1, 6)), I(r.below(100000))})); }
      s.ops.push_back(op({"file", NM[r.below(3)], r.chance(60) ? "shift" : "one", I(r.below(8)), "0"}));
      int m = r.range(0, 8);
      for (int j = 0; j < m; j++) {
        static const char* T[] = {"u", "d", "s", "b"};
        s.ops.push_back(op({T[r.below(4)], I(r.chance(20) ? r.below(2) : r.chance(90) ? r.range(1, 30) : r.range(100, 1500)), I(r.below(100000))}));
      }
    }
    int f = r.below(12);
    if (f <= 1) s.kv["io_write_p"] = I(r.range(2, 150));
    if (f == 2) s.kv["disk_cap"] = I(r.range(20, 3000));
    if (f == 3) s.kv["io_close_p"] = I(r.range(100, 700));
    if (f == 4) s.kv["io_open_p"] = I(r.range(30, 400));
    if (f == 5) s.kv["io_read_p"] = I(r.range(5, 150));
    if (f == 6) for (auto& o : s.ops) if (o.a[0] == "file") { o.a[4] = r.chance(20) ? "-2" : I(r.chance(50) ? r.range(1, 7) : r.range(1, 100)); s.kv["expect_fail"] = "1"; break; }
  };
  p.hooks = [](const Spec&, sim::Hooks&, int) {};
  p.quickRuns = 10000; p.thoroughRuns = 300000;
  p.wantProbes = {"pio.file", "pio.debug"};
  p.rule = "a case is one simulated job in which every rank writes generated sequences of unsigneds, doubles, strings and bytes to files of its own, reads its own or another rank's file back, prints to its debug file and exchanges messages in between, with short writes, small stdio buffers and optionally one fault kind (open, write, close, read error, full disk, truncated or missing file); non-trivial = at least two ranks and a non-default scheduling, network or I/O decision; distinct = different (scenario, interleaving) pair";
  p.real = "pcu/pcu_io.c, pcu/pcu.c, pcu/pcu_buffer.c, noto, reel, glibc stdio"; p.stub = "MPI, clock, file system below fopen";
  return p; }());
