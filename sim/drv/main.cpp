// Driver: seeds, worker processes, outcome classification, violation gate,
// minimisation, replay files, evidence.
#include "drv.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <sstream>
#include <unordered_set>

using namespace sim;
static std::string selfExe, buildDir, verifDir;
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void* shm(size_t n) {
  void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return p;
}

// ------------------------------------------------------------------ rank copies
static std::vector<rank_main_t> ranks;
static void loadRanks() {
  if (!ranks.empty()) return;
  for (int i = 0; i < 8; i++) {
    std::string p = buildDir + "/librank_" + std::to_string(i) + ".so";
    void* h = dlopen(p.c_str(), RTLD_LAZY | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
    ranks.push_back((rank_main_t)dlsym(h, "rank_main"));
  }
}

// ------------------------------------------------------------------ one simulated execution
enum OutSt { O_OK, O_VIOL, O_FAILSTOP, O_SIMERR };
struct Outcome {
  OutSt st = O_OK;
  std::string cls, msg;
  uint64_t hash = 0, shape = 0, steps = 0, simtime = 0, decisions = 0, nondefault = 0, messages = 0;
  int faults = 0; bool crashed = false;
  std::vector<std::pair<std::string, uint64_t>> cnt;
  std::vector<std::pair<int, Dec>> dec;
};
static Result* RES; static Disk* DISK; static int OUTFD = -1;
static void setupRunner() {
  RES = (Result*)shm(sizeof(Result)); DISK = (Disk*)shm(sizeof(Disk));
  OUTFD = memfd_create("out", 0);
  loadRanks();
}
// Only one rank runs at a time: on one core the hand-over between their threads is cheapest.
static void pinCpu(unsigned k) {
  if (getenv("SIM_NOPIN")) return;
  cpu_set_t a; CPU_ZERO(&a);
  if (sched_getaffinity(0, sizeof a, &a)) return;
  int n = CPU_COUNT(&a); if (n < 2) return;
  k %= n;
  for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &a) && !k--) { cpu_set_t b; CPU_ZERO(&b); CPU_SET(c, &b); sched_setaffinity(0, sizeof b, &b); return; }
}
static const Property* propOf(const std::string& id) { for (auto& p : properties()) if (p.id == id) return &p; return nullptr; }

static Outcome runSpec(const Property& P, const Spec& spec, uint64_t seed, const std::vector<std::pair<int, Dec>>* replay) {
  Outcome o;
  for (int i = 0; i < ARENA_FILES; i++) DISK->f[i].used = 0;
  int jobs = (int)spec.num("jobs", 1);
  bool priorFault = false; int tries = 0;
  for (int job = 0; job < jobs; job++) {
    memset(RES, 0, offsetof(Result, dec));
    if (ftruncate(OUTFD, 0)) {}
    lseek(OUTFD, 0, SEEK_SET);
    pid_t pid = fork();
    if (pid < 0) { o.st = O_SIMERR; o.cls = "fork"; return o; }
    if (pid == 0) {
      signal(SIGINT, SIG_DFL);
      dup2(OUTFD, 1); dup2(OUTFD, 2);
      rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      // a job that no longer communicates: counted in its own instructions' time, the system's share depends on the machine
      itimerval tv = {{0, 0}, {20, 0}}; signal(SIGVTALRM, SIG_DFL); setitimer(ITIMER_VIRTUAL, &tv, nullptr);
      rl.rlim_cur = 150; rl.rlim_max = 155; setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = 5ull << 30; setrlimit(RLIMIT_AS, &rl);
      RunCfg cfg; cfg.spec = &spec; cfg.job = job; cfg.seed = seed; cfg.res = RES; cfg.disk = DISK;
      cfg.replay = replay != nullptr;
      if (replay) for (auto& d : *replay) if (d.first == job) cfg.dec.push_back(d.second);
      if (P.hooks) P.hooks(spec, cfg.hooks, job);
      runInChild(cfg, ranks);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    o.hash = mix64(o.hash ^ RES->hash); o.shape = mix64(o.shape ^ RES->shape);
    o.steps += RES->steps; o.simtime += RES->simtime; o.decisions += RES->decisions; o.messages += RES->messages;
    o.faults += RES->faultFired; o.nondefault += RES->ndec;
    for (int i = 0; i < RES->ndec; i++) o.dec.push_back({job, RES->dec[i]});
    for (int i = 0; i < RES->ncnt; i++) o.cnt.push_back({RES->cnt[i].name, RES->cnt[i].n});
    std::string tail;
    {
      off_t n = lseek(OUTFD, 0, SEEK_END); off_t from = n > 600 ? n - 600 : 0;
      tail.resize(n - from);
      if (n > from && pread(OUTFD, &tail[0], n - from, from) < 0) tail.clear();
      for (auto& c : tail) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = ' ';
    }
    auto viol = [&](const std::string& c, const std::string& m) { o.st = O_VIOL; o.cls = c; o.msg = m; if (job) o.msg += " [second job]"; };
    if (WIFSIGNALED(st)) {
      int sg = WTERMSIG(st);
      if (sg == SIGKILL && !job && tries < 2) { tries++; job--; continue; }   // ended from outside: once more
      if (sg == SIGKILL) { viol("killed", fmt("the job was ended from outside, as happens when memory runs out (phase %s)", RES->phase)); return o; }
      if (sg == SIGXCPU || sg == SIGVTALRM) { viol("hang", fmt("the job burns CPU without ever reaching another communication or I/O step (phase %s)", RES->phase)); return o; }
      viol(fmt("crash.%s", sg == SIGSEGV ? "SEGV" : sg == SIGABRT ? "ABRT" : sg == SIGFPE ? "FPE" : sg == SIGBUS ? "BUS" : "signal"),
           fmt("a rank dies from signal %d (phase %s) %s", sg, RES->phase, tail.c_str()));
      return o;
    }
    switch (RES->status) {
      case ST_OK: break;
      case ST_VIOLATION: viol(RES->cls, RES->msg); return o;
      case ST_LOGIC: o.st = O_SIMERR; o.cls = "simulator"; o.msg = RES->msg; return o;
      case ST_CRASHED: o.crashed = true; priorFault = true; break;
      case ST_FAILSTOP:
        for (int i = 0; job && !RES->faultFired && i < ARENA_FILES; i++)
          if (DISK->f[i].used && !strcmp(DISK->f[i].name, "__must_load")) { viol("load.refused", fmt("what an earlier job saved successfully cannot be loaded: %s %s", RES->failwhy, tail.c_str())); return o; }
        if (RES->faultFired || RES->refused || priorFault || spec.num("expect_fail", 0)) { if (o.st == O_OK) o.st = O_FAILSTOP; o.msg = RES->failwhy; priorFault = true; break; }
        viol(*RES->cls ? RES->cls : "abort", fmt("the job aborts without any fault having been injected: %s (phase %s) %s", RES->failwhy, RES->phase, tail.c_str()));
        return o;
      default:
        viol("exit", fmt("the process exits prematurely with status %d (phase %s) %s", WEXITSTATUS(st), RES->phase, tail.c_str()));
        return o;
    }
  }
  return o;
}

static uint64_t runSeed(uint64_t base, const std::string& id, uint64_t idx) {
  uint64_t h = mix64(base * 0x9e37 + 11);
  for (char c : id) h = mix64(h ^ (unsigned char)c);
  return mix64(h + idx * 0x632be59bd9b4e019ULL);
}
static void genSpec(const Property& P, uint64_t seed, bool thorough, uint64_t idx, Spec& s) {
  Rnd r(seed);
  P.gen(s, r, thorough, idx);
  if (mix64(seed ^ 0xfe2ce) % 6 == 0 || getenv("SIM_FENCE_ALL")) s.kv["fence"] = "1";
  s.kv["property"] = P.id;
}

// ------------------------------------------------------------------ replay files
static std::string replayText(const Property& P, const Spec& s, uint64_t seed, const Outcome& o, const std::vector<std::pair<int, Dec>>& dec, const std::string& note) {
  std::string t = "# sim-replay 1\nproperty " + P.id + "\nexpect " + o.cls + "\nhash " + fmt("%016lx", (unsigned long)o.hash) + "\nseed " + fmt("%lu", (unsigned long)seed) + "\n";
  std::string m = o.msg; for (auto& c : m) if (c == '\n') c = ' ';
  t += "message " + m + "\nnote " + note + "\n" + specText(s);
  for (auto& d : dec) t += fmt("d %d %s %u %d\n", d.first, kindName(d.second.kind), d.second.idx, d.second.val);
  return t;
}
static bool slurp(const std::string& p, std::string& out) { std::ifstream f(p); if (!f) return false; std::stringstream b; b << f.rdbuf(); out = b.str(); return true; }

static int doReplay(const std::string& file, bool quiet, Outcome* ret = nullptr) {
  std::string txt; if (!slurp(file, txt)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
  Spec s; std::map<std::string, std::string> meta; std::vector<std::pair<int, Dec>> dec;
  parseSpec(txt, s, &meta, &dec);
  const Property* P = propOf(meta["property"]);
  if (!P) { fprintf(stderr, "unknown property in %s\n", file.c_str()); return 2; }
  Outcome o = runSpec(*P, s, strtoull(meta["seed"].c_str(), 0, 10), &dec);
  if (ret) *ret = o;
  bool same = o.st == O_VIOL && o.cls == meta["expect"];
  if (!quiet) {
    if (getenv("SIM_TELL")) { char buf[65536]; ssize_t k = pread(OUTFD, buf, sizeof buf, 0); if (k > 0) fwrite(buf, 1, k, stdout); }
    printf("property %s: outcome %s %s: %s\nhash %016lx (recorded %s)\n", P->id.c_str(), o.st == O_VIOL ? "VIOLATION" : o.st == O_OK ? "ok" : o.st == O_FAILSTOP ? "fail-stop" : "simulator-error", o.cls.c_str(), o.msg.c_str(), (unsigned long)o.hash, meta["hash"].c_str());
    printf(same ? "REPRODUCED\n" : "not reproduced\n");
  }
  return same ? 1 : 0;
}

// ------------------------------------------------------------------ minimisation
struct Mini {
  const Property& P; uint64_t seed; std::string cls; double deadline; long tries = 0;
  bool useDec = false; std::vector<std::pair<int, Dec>> dec;
  Outcome last;
  bool fails(const Spec& s, const std::vector<std::pair<int, Dec>>* d) {
    if (wall() > deadline) return false;
    if (P.valid && !P.valid(s)) return false;
    tries++;
    Outcome o = runSpec(P, s, seed, d);
    if (o.st == O_VIOL && o.cls == cls) { last = o; return true; }
    return false;
  }
  bool test(const Spec& s) { return fails(s, useDec ? &dec : nullptr); }
  template <class T> bool ddmin(Spec& s, std::vector<T> Spec::*m, std::function<void(Spec&)> fix) {
    bool any = false;
    size_t chunk = std::max<size_t>(1, (s.*m).size() / 2);
    for (;;) {
      bool hit = false;
      for (size_t i = 0; i < (s.*m).size();) {
        Spec t = s;
        auto& v = t.*m;
        size_t e = std::min(v.size(), i + chunk);
        v.erase(v.begin() + i, v.begin() + e);
        if (fix) fix(t);
        if (test(t)) { s = t; hit = any = true; } else i += chunk;
        if (wall() > deadline) return any;
      }
      if (chunk == 1) { if (!hit) break; } else chunk = std::max<size_t>(1, chunk / 2);
    }
    return any;
  }
  void shrink(Spec& s) {
    static const char* knobs[] = {"clock_skew", "clock_jump_p", "perturb", "stall0", "stall1", "stall2", "stall3", "stall4", "stall5", "stall6", "stall7", "delay_p",
                                  "eager_coll", "src_shuffle", "policy", "delay_big", "ack_max", "delay_max", "pswitch", "variant", "unit_weights", "unit_edge_weights", "coords", "malloc_fail_at", "io_short_p", "stdio_buf"};
    static const char* benign[] = {"", "", "", "", "", "", "", "", "", "", "", "0", "0", "0", "0", "0", "0", "0", "0", "0", "", "", "0", "", "", ""};
    // no scheduler or network decision at all?
    { std::vector<std::pair<int, Dec>> none; if (fails(s, &none)) { useDec = true; dec.clear(); } }
    for (int round = 0; round < 3; round++) {
      bool any = false;
      for (size_t k = 0; k < sizeof knobs / sizeof *knobs; k++) {
        auto it = s.kv.find(knobs[k]);
        if (it == s.kv.end() || it->second == benign[k]) continue;
        Spec t = s; if (*benign[k]) t.kv[knobs[k]] = benign[k]; else t.kv.erase(knobs[k]);
        if (test(t)) { s = t; any = true; }
      }
      any |= ddmin(s, &Spec::ops, nullptr);
      any |= ddmin(s, &Spec::edges, nullptr);
      any |= ddmin(s, &Spec::verts, [](Spec& t) {
        std::set<gid> have; for (auto& v : t.verts) have.insert(v.id);
        for (size_t i = 0; i < t.edges.size();) {
          auto& p = t.edges[i].pins;
          size_t n = p.size();
          p.erase(std::remove_if(p.begin(), p.end(), [&](gid g) { return !have.count(g); }), p.end());
          if (p.empty() || (t.num("hyper", 1) == 0 && p.size() != n)) t.edges.erase(t.edges.begin() + i); else i++;
        }
      });
      int N = (int)s.num("nranks", 2);
      for (int n = s.num("min_ranks", 1); n < N; n++) {
        Spec t = s; t.kv["nranks"] = num((long)n);
        for (auto& v : t.verts) v.owner %= n;
        if (test(t)) { s = t; any = true; break; }
      }
      if (!any || wall() > deadline) break;
    }
    // capture and reduce the decisions that remain
    if (!useDec) {
      Outcome o = runSpec(P, s, seed, nullptr);
      useDec = true; dec = o.dec;
      if (!fails(s, &dec)) return;
    }
    size_t chunk = std::max<size_t>(1, dec.size() / 2);
    while (!dec.empty() && wall() < deadline) {
      bool hit = false;
      for (size_t i = 0; i < dec.size();) {
        auto d = dec;
        d.erase(d.begin() + i, d.begin() + std::min(d.size(), i + chunk));
        if (fails(s, &d)) { dec = d; hit = true; } else i += chunk;
        if (wall() > deadline) break;
      }
      if (chunk == 1) { if (!hit) break; } else chunk = std::max<size_t>(1, chunk / 2);
    }
  }
};

// ------------------------------------------------------------------ check
struct RunRec { uint64_t spec, shape; uint32_t steps, simtime; uint32_t dec; uint8_t st, nontrivial, crashed, faults; };
struct WStat { long runs; int ncnt; struct { char name[48]; uint64_t n; } cnt[256]; long simerr; char simmsg[256]; };
struct Shared { volatile long stop, suspicion; volatile uint64_t firstViol, viol[64]; };

static void addCnt(WStat* w, const std::string& n, uint64_t k) {
  for (int i = 0; i < w->ncnt; i++) if (n == w->cnt[i].name) { w->cnt[i].n += k; return; }
  if (w->ncnt < 256) { snprintf(w->cnt[w->ncnt].name, 48, "%s", n.c_str()); w->cnt[w->ncnt++].n = k; }
}
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; }
  return o + "\"";
}
struct Known { std::string prop, file, text; };
static std::vector<Known> knownFindings(const std::string& id) {
  // known_findings.txt lines:  known: property=<id> replay=<file under /verif> <what fails>
  std::vector<Known> v; std::ifstream f(verifDir + "/known_findings.txt"); std::string l;
  while (std::getline(f, l)) {
    if (l.compare(0, 6, "known:")) continue;
    std::istringstream is(l.substr(6)); std::string a, b, rest; is >> a >> b; std::getline(is, rest);
    if (a != "property=" + id) continue;
    Known k; k.prop = id; k.file = b.substr(b.find('=') + 1); k.text = rest; v.push_back(k);
  }
  return v;
}

static int doCheck(const std::string& id, const std::string& tier, uint64_t seed, int W, long maxRuns, double cap) {
  double t0 = wall();
  const Property* P = propOf(id);
  if (!P) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
  bool th = tier == "thorough";
  long total = maxRuns > 0 ? maxRuns : th ? P->thoroughRuns : P->quickRuns;
  if (cap <= 0) cap = th ? P->thoroughCap : P->quickCap;
  printf("check %s tier=%s VERIF_SEED=%lu runs<=%ld cap=%.0fs workers=%d\n", id.c_str(), tier.c_str(), (unsigned long)seed, total, cap, W);
  fflush(stdout);
  Shared* S = (Shared*)shm(sizeof(Shared)); S->firstViol = ~0ull; for (auto& x : S->viol) x = ~0ull;
  WStat* ws = (WStat*)shm(sizeof(WStat) * W);
  RunRec* rec = (RunRec*)shm(sizeof(RunRec) * (total + 1));
  for (int w = 0; w < W; w++) {
    pid_t p = fork();
    if (p == 0) {
      pinCpu(getppid() + w);
      setupRunner();
      for (long i = w; i < total; i += W) {
        if (wall() - t0 > cap) break;
        if (S->firstViol < (uint64_t)i) break;
        Spec s; uint64_t rs = runSeed(seed, id, i);
        genSpec(*P, rs, th, i, s);
        Outcome o = runSpec(*P, s, rs, nullptr);
        ws[w].runs++;
        RunRec& r = rec[i];
        uint64_t h = 0; for (char c : specText(s)) h = (h ^ (unsigned char)c) * 1099511628211ULL;
        r.spec = h; r.shape = o.shape; r.steps = o.steps; r.simtime = o.simtime; r.dec = o.nondefault; r.st = 1 + o.st; r.crashed = o.crashed; r.faults = std::min(o.faults, 255);
        r.nontrivial = s.num("nranks", 2) > 1 && o.nondefault > 0 && o.messages > 0;
        for (auto& c : o.cnt) addCnt(&ws[w], c.first, c.second);
        addCnt(&ws[w], "total.messages", o.messages);
        if (o.st == O_SIMERR) { ws[w].simerr++; snprintf(ws[w].simmsg, 256, "run %ld: %s %s", i, o.cls.c_str(), o.msg.c_str()); }
        if (o.st == O_VIOL) {
          if (getenv("SIM_TELL")) fprintf(stderr, "run %ld: %s: %s\n", i, o.cls.c_str(), o.msg.c_str());
          uint64_t old;
          S->viol[w % 64] = i;
          // what depends on the machine is only a suspicion until it happens again
          if (o.cls == "hang" || o.cls == "killed") __sync_fetch_and_or(&S->suspicion, 1);
          do { old = S->firstViol; if (old <= (uint64_t)i) break; } while (!__sync_bool_compare_and_swap(&S->firstViol, old, (uint64_t)i));
          break;
        }
      }
      _exit(0);
    }
  }
  for (int w = 0; w < W; w++) { int st; while (waitpid(-1, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker failed\n"); return 2; } }
  double search = wall() - t0;

  int rc = 0; long violations = 0;
  std::string violMsg;
  while (S->firstViol != ~0ull) {
    // gate + minimise in a fresh child that loads the rank copies anew
    uint64_t i = S->firstViol;
    setupRunner();
    Spec s; uint64_t rs = runSeed(seed, id, i); genSpec(*P, rs, th, i, s);
    Outcome a = runSpec(*P, s, rs, nullptr), b = runSpec(*P, s, rs, nullptr);
    if (S->suspicion && a.st != O_VIOL && a.st == b.st && a.hash == b.hash) {
      printf("run %lu used up its time or memory once and ended normally when repeated: not a violation\n", (unsigned long)i);
      S->firstViol = ~0ull;
      for (auto& x : S->viol) { if (x == i) x = ~0ull; if (x < S->firstViol) S->firstViol = x; }
      continue;
    }
    if (a.st != O_VIOL || b.st != O_VIOL || a.cls != b.cls || a.hash != b.hash) {
      fprintf(stderr, "non-deterministic violation at run %lu: [%s %s %016lx] vs [%s %s %016lx]\n", (unsigned long)i, a.cls.c_str(), a.msg.c_str(), (unsigned long)a.hash, b.cls.c_str(), b.msg.c_str(), (unsigned long)b.hash);
      return 2;
    }
    printf("run %lu (seed %lu) violates: %s: %s\n", (unsigned long)i, (unsigned long)rs, a.cls.c_str(), a.msg.c_str());
    fflush(stdout);
    Mini m{*P, rs, a.cls, wall() + (th ? 120 : a.cls == "hang" ? 60 : 45)};
    Spec ms = s; m.shrink(ms);
    std::vector<std::pair<int, Dec>> dec = m.useDec ? m.dec : a.dec;
    if (!m.useDec) ms = s;
    Outcome f = runSpec(*P, ms, rs, &dec);
    if (f.st != O_VIOL || f.cls != a.cls) { ms = s; dec = a.dec; f = runSpec(*P, ms, rs, &dec); }
    std::string dir = verifDir + "/replays"; if (system(("mkdir -p '" + dir + "'").c_str())) {}
    std::string file = dir + "/" + id + "-" + fmt("%lu-%lu", (unsigned long)seed, (unsigned long)i) + ".replay";
    { std::ofstream o(file); o << replayText(*P, ms, rs, f, dec, fmt("found by run %lu of VERIF_SEED=%lu tier=%s; minimised from %zu ops %zu verts %zu edges %zu decisions in %ld runs", (unsigned long)i, (unsigned long)seed, tier.c_str(), s.ops.size(), s.verts.size(), s.edges.size(), a.dec.size(), m.tries)); }
    // fresh process replay
    std::string cmd = "'" + selfExe + "' replay '" + file + "' >/dev/null 2>&1";
    int st = system(cmd.c_str());
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) { fprintf(stderr, "fresh-process replay of %s did not reproduce (%d)\n", file.c_str(), st); return 2; }
    printf("minimised to %s ranks, %zu ops, %zu vertices, %zu edges, %zu decisions: %s: %s\n", ms.get("nranks").c_str(), ms.ops.size(), ms.verts.size(), ms.edges.size(), dec.size(), f.cls.c_str(), f.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", id.c_str(), file.c_str());
    violMsg = f.cls + ": " + f.msg;
    violations = 1; rc = 1;
    break;
  }
  // listed findings
  auto known = knownFindings(id);
  int knownSeen = 0;
  if (!known.empty()) {
    setupRunner();
    for (auto& k : known) {
      Outcome o;
      int r = doReplay(verifDir + "/" + k.file, true, &o);
      if (r == 1) { printf("KNOWN-FINDING: property=%s%s\n", id.c_str(), k.text.c_str()); knownSeen++; }
      else if (o.st == O_VIOL) { printf("the listed scenario %s now fails differently: %s: %s\n", k.file.c_str(), o.cls.c_str(), o.msg.c_str()); printf("VIOLATION property=%s replay=%s/%s\n", id.c_str(), verifDir.c_str(), k.file.c_str()); violations++; rc = 1; }
    }
  }

  // ---- evidence
  long runs = 0, simerr = 0; std::map<std::string, uint64_t> cnt; std::string simmsg;
  for (int w = 0; w < W; w++) { runs += ws[w].runs; simerr += ws[w].simerr; if (ws[w].simerr) simmsg = ws[w].simmsg; for (int i = 0; i < ws[w].ncnt; i++) cnt[ws[w].cnt[i].name] += ws[w].cnt[i].n; }
  std::unordered_set<uint64_t> shapes, pairs, nt; double steps = 0, st_us = 0; long ok = 0, fs = 0, crashed = 0; uint64_t decs = 0;
  for (long i = 0; i < total; i++) {
    if (!rec[i].st) continue;
    shapes.insert(rec[i].shape); uint64_t k = mix64(rec[i].spec ^ mix64(rec[i].shape)); pairs.insert(k);
    if (rec[i].nontrivial) nt.insert(k);
    steps += rec[i].steps; st_us += rec[i].simtime; decs += rec[i].dec;
    if (rec[i].st == 1 + O_OK) ok++; if (rec[i].st == 1 + O_FAILSTOP) fs++; crashed += rec[i].crashed;
  }
  if (simerr && rc == 0) { fprintf(stderr, "simulator error in %ld runs: %s\n", simerr, simmsg.c_str()); return 2; }
  std::string j = "{\n";
  j += " \"property\": " + jstr(id) + ",\n \"tier\": " + jstr(tier) + ",\n \"seed\": " + fmt("%lu", (unsigned long)seed) + ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
  j += fmt("  \"evaluations\": %ld,\n  \"distinct_nontrivial\": %zu,\n", runs, nt.size());
  j += "  \"rule\": " + jstr(P->rule) + ",\n";
  j += fmt("  \"runs_per_hour\": %.0f,\n  \"distinct_interleavings\": %zu,\n", runs / std::max(search, 1e-3) * 3600, shapes.size());
  j += "  \"interleaving_measure\": \"hash of the sequence of (rank switched to) and (message delivered: source,destination) events of a run\",\n";
  j += fmt("  \"scheduler_steps\": %.0f,\n  \"simulated_seconds\": %.6f,\n  \"non_default_decisions\": %lu,\n", steps, st_us * 1e-6, (unsigned long)decs);
  j += fmt("  \"runs_completed\": %ld,\n  \"runs_fail_stopped_after_injected_fault\": %ld,\n  \"runs_with_job_kill\": %ld,\n  \"known_findings_reproduced\": %d,\n", ok, fs, crashed, knownSeen);
  std::string fa, pr;
  for (auto& c : cnt) {
    std::string e = jstr(c.first) + ": " + fmt("%lu", (unsigned long)c.second);
    if (c.first.compare(0, 6, "fault.") == 0) fa += (fa.empty() ? "" : ", ") + e; else pr += (pr.empty() ? "" : ", ") + e;
  }
  for (auto& p : P->wantProbes) if (!cnt.count(p)) pr += (pr.empty() ? "" : ", ") + jstr(p) + ": 0";
  j += "  \"faults_injected\": {" + fa + "},\n  \"probes\": {" + pr + "},\n";
  j += "  \"real_components\": " + jstr(P->real) + ",\n  \"stubbed_components\": " + jstr(P->stub) + ",\n";
  j += "  \"samples\": [";
  long done = 0;
  for (long i = 0; i < total && done < 3; i += std::max(1L, total / 3)) {
    if (!rec[i].st) continue;
    Spec s; uint64_t rs = runSeed(seed, id, i); genSpec(*P, rs, th, i, s);
    std::string t = specText(s); if (t.size() > 1500) t = t.substr(0, 1500) + "...";
    j += std::string(done ? ",\n   " : "\n   ") + "{\"run\": " + num(i) + ", \"run_seed\": " + fmt("%lu", (unsigned long)rs) + ", \"steps\": " + fmt("%u", rec[i].steps) + ", \"non_default_decisions\": " + fmt("%u", rec[i].dec) + ", \"outcome\": " + (rec[i].st == 1 + O_OK ? "\"completed\"" : rec[i].st == 1 + O_FAILSTOP ? "\"fail-stop\"" : "\"violation\"") + ", \"scenario\": " + jstr(t) + "}";
    done++;
  }
  j += "\n  ]\n },\n";
  j += " \"assumptions\": [\"MPI delivers reliably and in order per sender, communicator and tag (the guarantee EnGPar builds on); everything else about timing is adversarial\", \"a run that aborts or reports failure after an injected I/O, allocation or crash fault is a legal outcome; a wrong result is not\"],\n";
  j += fmt(" \"wall_s\": %.2f,\n \"violations\": %ld\n}\n", wall() - t0, violations);
  if (system(("mkdir -p '" + verifDir + "/evidence'").c_str())) {}
  { std::ofstream o(verifDir + "/evidence/" + id + ".json"); o << j; }
  printf("%s: %ld runs in %.1fs (%.0f/h), %zu distinct interleavings, %zu distinct non-trivial cases, %ld fail-stops after faults, violations %ld\n", id.c_str(), runs, search, runs / std::max(search, 1e-3) * 3600, shapes.size(), nt.size(), fs, violations);
  return rc;
}

// run many seeds in several processes, twice, and compare the event logs
static int doDeterminism(const std::string& id, uint64_t seed, long n, int procs) {
  const Property* P = propOf(id);
  if (!P) return 2;
  uint64_t* h = (uint64_t*)shm(sizeof(uint64_t) * n * 2);
  for (int pass = 0; pass < 2; pass++) {
    int W = pass ? std::max(1, procs / 3) : procs;
    for (int w = 0; w < W; w++)
      if (fork() == 0) {
        pinCpu(getppid() + w);
        setupRunner();
        // the second pass visits the runs in the opposite order
        for (long q = w; q < n; q += W) {
          long i = pass ? n - 1 - q : q;
          Spec s; uint64_t rs = runSeed(seed, id, i); genSpec(*P, rs, false, i, s);
          if (pass == 0) h[i] = runSpec(*P, s, rs, nullptr).hash;
          else {
            Outcome o = runSpec(*P, s, rs, nullptr);
            Spec s2; parseSpec(specText(s), s2, nullptr, nullptr);
            Outcome o2 = runSpec(*P, s2, rs, &o.dec);
            h[n + i] = o.hash;
            if (o2.hash != o.hash) h[n + i] = 1;
          }
        }
        _exit(0);
      }
    int st; while (wait(&st) > 0) {}
  }
  long bad = 0;
  for (long i = 0; i < n; i++) if (h[i] != h[n + i]) { if (bad < 5) printf("run %ld differs: %016lx %016lx\n", i, (unsigned long)h[i], (unsigned long)h[n + i]); bad++; }
  printf("%s: %ld of %ld runs differ between passes\n", id.c_str(), bad, n);
  return bad ? 2 : 0;
}

int main(int argc, char** argv) {
  // fixed address layout: heap addresses are part of what a seed determines
  int pers = personality(0xffffffff);
  if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  mallopt(M_MMAP_THRESHOLD, 1 << 28);
  mallopt(M_ARENA_MAX, 32);
  mallopt(M_TRIM_THRESHOLD, 1 << 30);
  char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0;
  selfExe = b; buildDir = selfExe.substr(0, selfExe.rfind('/'));
  verifDir = getenv("SIM_VERIF") ? getenv("SIM_VERIF") : "/verif";
  std::string cmd = argc > 1 ? argv[1] : "";
  uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1;
  int W = getenv("SIM_WORKERS") ? atoi(getenv("SIM_WORKERS")) : 8;
  if (cmd == "check" && argc > 2) {
    std::string tier = argc > 3 ? argv[3] : "quick";
    return doCheck(argv[2], tier, seed, W, argc > 4 ? atol(argv[4]) : 0, argc > 5 ? atof(argv[5]) : 0);
  }
  if (cmd == "replay" && argc > 2) { pinCpu(getpid()); setupRunner(); return doReplay(argv[2], false); }
  if (cmd == "determinism" && argc > 2) return doDeterminism(argv[2], seed, argc > 3 ? atol(argv[3]) : 300, 8);
  if (cmd == "gen" && argc > 3) {  // print scenario of run idx
    const Property* P = propOf(argv[2]); Spec s; uint64_t rs = runSeed(seed, P->id, atol(argv[3]));
    genSpec(*P, rs, argc > 4, atol(argv[3]), s); printf("%s", specText(s).c_str()); return 0;
  }
  if (cmd == "run" && argc > 3) {  // run one index verbosely
    const Property* P = propOf(argv[2]); Spec s; long i = atol(argv[3]); uint64_t rs = runSeed(seed, P->id, i);
    genSpec(*P, rs, argc > 4, i, s); setupRunner(); Outcome o = runSpec(*P, s, rs, nullptr);
    printf("st %d cls %s msg %s hash %016lx steps %lu dec %lu\n", o.st, o.cls.c_str(), o.msg.c_str(), (unsigned long)o.hash, (unsigned long)o.steps, (unsigned long)o.nondefault);
    char buf[65536]; ssize_t k = pread(OUTFD, buf, sizeof buf, 0); if (k > 0) fwrite(buf, 1, k, stdout);
    for (auto& c : o.cnt) printf("  %s %lu\n", c.first.c_str(), (unsigned long)c.second);
    return 0;
  }
  if (cmd == "sweep" && argc > 3) {  // survey: run n scenarios, print every violation without minimising
    const Property* P = propOf(argv[2]); long n = atol(argv[3]); if (!P) return 2;
    for (int w = 0; w < W; w++)
      if (fork() == 0) {
        pinCpu(getppid() + w);
        setupRunner();
        for (long i = w; i < n; i += W) {
          Spec s; uint64_t rs = runSeed(seed, P->id, i); genSpec(*P, rs, argc > 4, i, s);
          double t0 = wall(); Outcome o = runSpec(*P, s, rs, nullptr); double dt = wall() - t0;
          std::string l; if (o.st != O_OK && o.st != O_FAILSTOP) l += fmt("run %ld st %d %s: %s\n", i, o.st, o.cls.c_str(), o.msg.c_str());
          if (dt > 3) l += fmt("run %ld slow %.1fs steps %lu\n", i, dt, (unsigned long)o.steps);
          if (l.size() && write(1, l.data(), l.size())) {}
        }
        _exit(0);
      }
    int st; while (wait(&st) > 0) {}
    return 0;
  }
  if (cmd == "list") { for (auto& p : properties()) printf("%s\n", p.id.c_str()); return 0; }
  fprintf(stderr, "usage: simdrv check PROP [quick|thorough [runs [cap]]] | replay FILE | determinism PROP [n] | run PROP idx | gen PROP idx | list\n");
  return 2;
}
