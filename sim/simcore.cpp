// Deterministic simulator: every rank of the simulated MPI job is a real thread
// of this process, but exactly one runs at a time; the scheduler below decides
// which one after every MPI call and every file operation.
#include "simcore.h"
#include <mpi.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <ucontext.h>
#include <malloc.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <algorithm>
#include <deque>
#include <exception>
#include <memory>
#include <set>
#include <unordered_map>

namespace sim {

uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

static const char* const KINDS[] = {"sched", "src", "delay", "ack", "preempt", "io.open", "io.write", "io.short",
                                    "io.close", "io.read", "io.mkdir", "malloc", "eager", "jump", "wl", "tear", "burst", "reassoc"};
static const int NKINDS = sizeof(KINDS) / sizeof(KINDS[0]);
uint32_t kindId(const char* name) {
  for (int i = 0; i < NKINDS; i++)
    if (!strcmp(KINDS[i], name)) return i;
  fprintf(stderr, "unknown decision kind %s\n", name);
  _exit(97);
}
const char* kindName(uint32_t id) { return id < (uint32_t)NKINDS ? KINDS[id] : "?"; }

// ------------------------------------------------------------------ state
struct SimComm {
  int id;
  std::vector<int> members;  // world ranks
  std::vector<char> freed;
  std::vector<uint64_t> collSeq;  // per member
  int indexOf(int w) const {
    for (size_t i = 0; i < members.size(); i++) if (members[i] == w) return (int)i;
    return -1;
  }
};

struct Message {
  int src, dst;  // comm ranks
  int wsrc, wdst;
  SimComm* comm;
  int tag;
  std::vector<char> data;
  uint64_t seq;
  uint64_t visibleAt;
  struct Req* sync = nullptr;  // issend
};

struct Req {
  enum { SEND, RECV } kind;
  bool done = false;
  uint64_t doneAt = 0;
  // recv
  int src = 0, tag = 0;
  void* buf = nullptr;
  size_t cap = 0;
  SimComm* comm = nullptr;
  int owner = 0;
  MPI_Status st;
  uint64_t post = 0;
};

struct Coll {
  int kind;
  int arrived = 0, left = 0;
  std::vector<char> in;                    // arrived flags
  std::vector<std::vector<char>> dep;      // deposits
  std::vector<std::vector<long>> par;      // int params
  std::shared_ptr<void> obj;               // result object (comm creation)
  std::vector<void*> outs;
};

enum RSt { R_READY, R_BLOCKED, R_DONE };
struct Rank {
  pthread_t th;
  sem_t sem;
  RSt st = R_READY;
  std::function<bool()> pred;
  bool polled = false;      // last call was an unsuccessful poll
  unsigned rnd = 1;
  double woff = 0, wrate = 1;
  uint64_t stallUntil = 0;
  uint64_t prio = 0;
  const char* what = "start";
  bool faults = false, mfail = false;
  long mallocs = 0;
};

static RunCfg* G;
static Result* RS;
static const Spec* SP;
static int N;
static std::vector<Rank> R;
static int cur;
__thread int tlsRank = -1;
static uint64_t now_, steps, sinceProgress;
static uint64_t maxSteps, calmAfter;
static uint64_t H = 1469598103934665603ULL, SH = 1469598103934665603ULL;
static std::vector<uint64_t> rng;                   // one stream per decision kind
static std::vector<uint32_t> dcount;
static std::unordered_map<uint64_t, int> rdec;
static int pol;                                      // scheduling policy
static uint64_t pSwitch;                             // 1/65536
static std::vector<rank_main_t> mains;
static std::set<uint64_t> pctPoints;

static SimComm* world;
static std::vector<SimComm*> selfs;
static std::vector<SimComm*> comms;
static std::deque<Message*> net;                     // in send order
static std::map<std::pair<int, uint64_t>, Coll*> colls;
static std::vector<Req*> recvq;                      // posted irecvs in order
static uint64_t msgSeq, reqSeq;
static bool finishing;
static long knobDelayP, knobDelayMax, knobAckMax, knobBig, knobSrc, knobEager;

static void fnv(uint64_t& h, uint64_t v) { h = (h ^ v) * 1099511628211ULL; h ^= h >> 29; }
void event(uint64_t v) { fnv(H, v); }
static void logev(int type, uint64_t a, uint64_t b = 0, uint64_t c = 0) {
  fnv(H, ((uint64_t)type << 56) ^ ((uint64_t)cur << 48) ^ a); fnv(H, b); fnv(H, c);
  static int tr = -1;
  if (tr < 0) tr = getenv("SIM_TRACE") ? 1 : 0;
  if (tr) { char b2[160]; int n = snprintf(b2, 160, "%lu t=%lu r%d ev%d %lx %lx %lx\n", steps, now_, cur, type, a, b, c); if (write(2, b2, n)) {} }
}

static void count(const char* name, uint64_t n = 1) {
  for (int i = 0; i < RS->ncnt; i++)
    if (!strncmp(RS->cnt[i].name, name, 47)) { RS->cnt[i].n += n; return; }
  if (RS->ncnt < MAXCNT) {
    snprintf(RS->cnt[RS->ncnt].name, 48, "%s", name);
    RS->cnt[RS->ncnt++].n = n;
  }
}
void probe(const char* name, long n) { count(name, n); }

[[noreturn]] static void finish(int status) {
  if (getenv("SIM_HELD")) { std::map<uintptr_t, std::pair<long, size_t>> m; fenceHeld(m); int f = open(getenv("SIM_HELD"), O_WRONLY | O_APPEND | O_CREAT, 0644); for (auto& x : m) dprintf(f, "%lx %ld %zu\n", (long)x.first, x.second.first, x.second.second); close(f); }
  if (status == ST_OK) { finishing = true; fflush(nullptr); }
  RS->hash = H; RS->shape = SH; RS->steps = steps; RS->simtime = now_;
  RS->status = status;
  _exit(0);
}
[[noreturn]] static void vio(const std::string& cls, const std::string& msg) {
  snprintf(RS->cls, sizeof RS->cls, "%s", cls.c_str());
  snprintf(RS->msg, sizeof RS->msg, "%s", msg.c_str());
  finish(ST_VIOLATION);
}
void violation(const std::string& cls, const char* fmt, ...) {
  char b[3000];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  vio(cls, b);
}
[[noreturn]] static void logicError(const char* m) {
  snprintf(RS->cls, sizeof RS->cls, "simulator"); snprintf(RS->msg, sizeof RS->msg, "%s", m);
  finish(ST_LOGIC);
}
[[noreturn]] static void failstop(const char* why);
void refuse(const char* why) { failstop(why); }
void notBuilt(const char* why) { logicError(why); }
void refuseRightly(const char* why) { RS->refused = 1; failstop(why); }
void crashNow(const char* why) { snprintf(RS->failwhy, sizeof RS->failwhy, "crash: %s", why); finish(ST_CRASHED); }
[[noreturn]] static void failstop(const char* why) {
  snprintf(RS->failwhy, sizeof RS->failwhy, "rank %d: %s", tlsRank, why);
  finish(ST_FAILSTOP);
}
static void onSegv(int, siginfo_t* si, void* uc) {
  size_t n = 0;
  const char* w = fenceWhat(si->si_addr, &n);
  if (!w) { ::signal(SIGSEGV, SIG_DFL); return; }   // the access repeats and ends the run
  Dl_info d; memset(&d, 0, sizeof d);
  void* ip = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  dladdr(ip, &d);
  violation("memory", "rank %d accesses %s (%zu bytes) in %s (phase %s)", tlsRank, w, n, d.dli_sname ? d.dli_sname : "a library function", RS->phase);
}
static void memFaults() {
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO;
  sigaction(SIGSEGV, &sa, nullptr);
}
static long crashBase = -2;   // -2: not decided, -1: waiting for the phase
void phase(const char* n) {
  if (crashBase < 0 && SP->kv.count("crash_in") && SP->get("crash_in") == n) crashBase = (long)steps;
  snprintf(RS->phase, sizeof RS->phase, "%s", n); event(mix64(std::hash<std::string>()(n))); }

int rank() { return tlsRank; }
int nranks() { return N; }
const Spec& spec() { return *SP; }
int job() { return G->job; }
bool faultFired() { return RS->faultFired; }
double simNow() { return now_ * 1e-6; }
void setFaults(bool on) { R[tlsRank].faults = on; }
void setMallocFail(bool on) { R[tlsRank].mfail = on; }
uint64_t workloadRand(uint64_t s, uint64_t i) { return mix64(mix64(G->seed * 1000003 + s) + i); }

// ------------------------------------------------------------------ decisions
static uint64_t rnd(uint32_t k) { rng[k] += 0x9e3779b97f4a7c15ULL; return mix64(rng[k]); }
static int decide(uint32_t k, int n, const std::function<int()>& policy) {
  uint32_t idx = dcount[k]++;
  RS->decisions++;
  int c;
  if (G->replay) {
    auto it = rdec.find(((uint64_t)k << 32) | idx);
    c = it == rdec.end() ? 0 : it->second;
    if (n > 0 && c >= n) c = c % n;
  } else {
    c = policy();
    if (c != 0) {
      if (RS->ndec < MAXDEC) { RS->dec[RS->ndec].kind = k; RS->dec[RS->ndec].idx = idx; RS->dec[RS->ndec].val = c; RS->ndec++; }
      else RS->decOverflow = 1;
    }
  }
  logev(1, k, idx, (uint64_t)c);
  return c;
}
int choose(const char* kind, int n) {
  if (n <= 1) return 0;
  uint32_t k = kindId(kind);
  return decide(k, n, [&] { return (int)(rnd(k) % n); });
}
static bool chance(const char* kind, long permille, int n = 2) {
  uint32_t k = kindId(kind);
  (void)n;
  return decide(k, 2, [&] { return (long)(rnd(k) % 1000) < permille ? 1 : 0; });
}

// ------------------------------------------------------------------ scheduler
static bool canRun(int r) {
  if (R[r].st == R_DONE) return false;
  if (R[r].st == R_BLOCKED && !R[r].pred()) return false;
  return true;
}
static bool pendingLater(uint64_t& t) {
  bool any = false;
  t = ~0ULL;
  for (auto m : net) if (m->visibleAt > now_) { any = true; t = std::min(t, m->visibleAt); }
  return any;
}
static std::vector<Req*> ackq;  // send requests completed at a future time
static bool nextTime(uint64_t& t) {
  bool a = pendingLater(t);
  for (auto q : ackq) if (q->done && q->doneAt > now_) { a = true; t = std::min(t, q->doneAt); }
  for (int r = 0; r < N; r++) if (R[r].st != R_DONE && R[r].stallUntil > now_) { a = true; t = std::min(t, R[r].stallUntil); }
  return a;
}
static std::string whereAll() {
  std::string s;
  for (int r = 0; r < N; r++) {
    char b[160];
    snprintf(b, sizeof b, " rank%d:%s%s", r, R[r].what, R[r].st == R_DONE ? "(done)" : R[r].st == R_BLOCKED ? "(blocked)" : "");
    s += b;
  }
  return s;
}
static void matchRecvs();
static int pickNext(bool self) {
  for (;;) {
    matchRecvs();
    int live = 0;
    std::vector<int> run;
    bool selfOk = self && canRun(cur) && !R[cur].polled && R[cur].stallUntil <= now_;
    if (selfOk) run.push_back(cur);
    for (int i = 1; i <= N; i++) {
      int r = (cur + i) % N;
      if (R[r].st != R_DONE) live++;
      if (selfOk && r == cur) continue;
      if (!canRun(r)) continue;
      if (R[r].stallUntil > now_) continue;
      run.push_back(r);
    }
    if (live == 0) return -1;
    bool stuckPolling = sinceProgress > (uint64_t)(3 * live + 3);
    if (run.empty() || stuckPolling) {
      uint64_t t;
      if (nextTime(t)) { now_ = t; sinceProgress = 0; count("clock.jump"); if (run.empty()) continue; }
      else if (run.empty()) vio("deadlock", "no rank can make progress: every live rank is blocked and nothing is in flight:" + whereAll());
      else if (sinceProgress > (uint64_t)(20000 + 400 * live))
        vio("livelock", "all ranks poll forever with nothing in flight:" + whereAll());
    }
    int n = (int)run.size();
    int c = 0;
    if (n > 1) {
      c = decide(0, n, [&]() -> int {
        bool calm = steps > calmAfter;
        if (calm) return 0;
        switch (pol) {
          case 0: return 0;
          case 1: return (rnd(0) & 0xffff) < pSwitch ? (int)(rnd(0) % n) : 0;
          case 2: {  // priority based (PCT): highest priority runnable; pollers sink
            int best = 0;
            for (int i = 1; i < n; i++) if (R[run[i]].prio > R[run[best]].prio) best = i;
            return best;
          }
          default: return (int)(rnd(0) % n);
        }
      });
    }
    return run[c];
  }
}
static void transfer(int nx) {
  int me = tlsRank;
  if (nx == me) return;
  RS->switches++;
  fnv(SH, nx + 1);
  cur = nx;
  sem_post(&R[nx].sem);
  while (sem_wait(&R[me].sem) != 0) {}
  cur = me;
}
static void tick(const char* what) {
  now_++; steps++; sinceProgress++;
  R[tlsRank].what = what;
  if (steps > maxSteps)
    vio("no-progress", "step budget exhausted long after faults stopped:" + whereAll());
  if (pol == 2 && !G->replay && pctPoints.count(steps)) R[tlsRank].prio = rnd(4) % 100;
}
static void progress() { sinceProgress = 0; R[tlsRank].polled = false; }
static void maybeCrash() {
  long c = SP->num("crash_step", 0);
  if (crashBase == -2) crashBase = SP->kv.count("crash_in") ? -1 : 0;
  // with crash_in the step counts from the moment some rank first enters that phase
  if (c && crashBase >= 0 && G->job == 0 && (long)steps == c + crashBase) { count("fault.crash"); count(("crash.in." + std::string(RS->phase)).substr(0, 40).c_str()); crashNow("scheduled job kill"); }
}
// scheduling point after/before a non-blocking call
static void yield(const char* what) {
  if (finishing) return;
  tick(what);
  maybeCrash();
  int nx = pickNext(true);
  transfer(nx);
}
static void pollYield(const char* what) {  // an unsuccessful poll
  R[tlsRank].polled = true;
  if (pol == 2 && !G->replay) R[tlsRank].prio = R[tlsRank].prio / 2;
  tick(what);
  maybeCrash();
  int nx = pickNext(true);
  transfer(nx);
  R[tlsRank].polled = false;
}
static void block(const char* what, std::function<bool()> pred) {
  tick(what);
  maybeCrash();
  R[tlsRank].st = R_BLOCKED;
  R[tlsRank].pred = pred;
  int nx = pickNext(true);
  transfer(nx);
  R[tlsRank].st = R_READY;
  R[tlsRank].pred = nullptr;
  progress();
}
void yieldPoint(const char* what) { progress(); yield(what); }

static std::map<std::string, int> openFiles;
// A job that has destroyed everything it made gives everything back.
static void nothingHeld() {
  for (auto& f : openFiles) if (f.second) { char b[400]; snprintf(b, sizeof b, "%s is still open (%d times) after every object has been destroyed", f.first.c_str(), f.second); vio("file.held", b); }
  for (auto c : comms) if (c != world) for (size_t i = 0; i < c->members.size(); i++)
    if (!c->freed[i]) { char b[200]; snprintf(b, sizeof b, "rank %d never freed communicator %d of %zu ranks", c->members[i], c->id, c->members.size()); vio("comm.held", b); }
  if (!recvq.empty()) vio("request.held", "a receive is still posted after every rank has finished");
  for (size_t i = 0; i < mains.size(); i++) {
    Dl_info d; void* h = dladdr((void*)mains[i], &d) ? dlopen(d.dli_fname, RTLD_LAZY | RTLD_NOLOAD) : nullptr;
    if (void* f = h ? dlsym(h, "rank_statics") : nullptr) ((void (*)())f)();
  }
  fenceEmpty();
}
static int perturb;
__attribute__((noinline)) static void dirtyStack() { volatile char b[1 << 16]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)perturb; }
static void* rankThread(void* p) {
  int r = (int)(intptr_t)p;
  tlsRank = r;
  if (perturb) dirtyStack();
  while (sem_wait(&R[r].sem) != 0) {}
  cur = r;
  try {
    mains[r]();
  } catch (std::exception& e) {
    char b[200]; snprintf(b, sizeof b, "uncaught exception: %s", e.what());
    failstop(b);
  } catch (int e) {
    char b[200]; snprintf(b, sizeof b, "uncaught exception: int %d", e);
    failstop(b);
  } catch (...) { failstop("uncaught exception"); }
  R[r].st = R_DONE;
  R[r].what = "finished";
  logev(2, r);
  sinceProgress = 0;
  int nx = pickNext(false);
  if (nx < 0) {
    // leftovers: a clean shutdown leaves no user message undelivered
    if (!net.empty()) {
      for (auto m : net) {
        char b[200];
        snprintf(b, sizeof b, "message from rank %d to rank %d (tag %d, %zu bytes, comm %d) was sent but never received", m->wsrc, m->wdst, m->tag, m->data.size(), m->comm->id);
        vio("message-leak", b);
      }
    }
    if (G->hooks.onEnd) G->hooks.onEnd();
    if (SP->num("held", 0)) nothingHeld();
    finish(ST_OK);
  }
  cur = nx;
  sem_post(&R[nx].sem);
  for (;;) pause();
  return 0;
}

void runInChild(RunCfg& cfg, const std::vector<rank_main_t>& m) {
  G = &cfg; RS = cfg.res; SP = cfg.spec; mains = m;
  N = (int)SP->num("nranks", 2);
  if (cfg.replay) for (auto& d : cfg.dec) rdec[((uint64_t)d.kind << 32) | d.idx] = d.val;
  rng.resize(NKINDS); dcount.assign(NKINDS, 0);
  for (int i = 0; i < NKINDS; i++) rng[i] = mix64(cfg.seed * 31 + i * 7919 + cfg.job * 104729 + 17);
  pol = SP->num("policy", 1);
  pSwitch = SP->num("pswitch", 20000);
  maxSteps = SP->num("max_steps", 3000000);
  calmAfter = SP->num("calm_after", 200000);
  knobDelayP = SP->num("delay_p", 300);
  knobDelayMax = SP->num("delay_max", 40);
  knobAckMax = SP->num("ack_max", 20);
  knobBig = SP->num("delay_big", 10);
  knobSrc = SP->num("src_shuffle", 1);
  knobEager = SP->num("eager_coll", 500);
  // what fresh memory holds differs between the jobs of a run
  perturb = SP->num("perturb", 0);
  if (perturb && cfg.job) perturb ^= 255;
  if (perturb) mallopt(M_PERTURB, perturb);
  memFaults();
  if (SP->num("fence", 0)) { fenceOn(perturb ? perturb : 0x5b ^ (cfg.job ? 255 : 0)); count("knob.fence"); }
  R = std::vector<Rank>(N);
  world = new SimComm; world->id = 0;
  for (int i = 0; i < N; i++) world->members.push_back(i);
  world->freed.assign(N, 0); world->collSeq.assign(N, 0);
  comms.push_back(world);
  for (int i = 0; i < N; i++) {
    SimComm* s = new SimComm; s->id = -1 - i; s->members = {i}; s->freed = {0}; s->collSeq = {0};
    selfs.push_back(s);
  }
  long skew = SP->num("clock_skew", 0);
  for (int i = 0; i < N; i++) {
    R[i].rnd = 1;
    R[i].prio = 1000 + mix64(cfg.seed ^ (i * 977)) % 1000;
    if (skew) { R[i].woff = (double)(mix64(cfg.seed + 5 * i) % 1000); R[i].wrate = 1.0 + ((double)(mix64(cfg.seed + 9 * i) % 2001) - 1000) * 1e-4; }
  }
  if (pol == 2) for (int i = 0; i < 12; i++) pctPoints.insert(mix64(cfg.seed + 131 * i) % 4000);
  // stalled ranks: "stall=r:from:len"
  for (int i = 0; i < N; i++) {
    char k[32]; snprintf(k, sizeof k, "stall%d", i);
    long s = SP->num(k, 0);
    if (s) { R[i].stallUntil = s; count("fault.stall"); }
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
  for (int i = 0; i < N; i++) {
    sem_init(&R[i].sem, 0, 0);
    if (pthread_create(&R[i].th, &at, rankThread, (void*)(intptr_t)i)) logicError("pthread_create");
  }
  cur = 0;
  sem_post(&R[0].sem);
  for (;;) pause();
}

// ------------------------------------------------------------------ checkpoints
static std::map<int, std::vector<Dump>> dumps;
static std::map<int, int> dumpCnt;
static std::map<std::pair<int, std::string>, std::vector<std::vector<double>>> blobs;
static std::map<std::pair<int, std::string>, int> blobCnt;
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
void submit(int step, const Dump& d) {
  for (auto& v : d.verts) { event(v.id); event(dbits(v.w)); }
  for (auto& g : d.ghost) { event(g.id); event(g.owner); }
  for (auto& e : d.edges) { event(e.id); event(dbits(e.w)); for (auto p : e.pins) event(p); }
  auto& v = dumps[step];
  if (v.empty()) v.resize(N);
  v[tlsRank] = d;
  if (++dumpCnt[step] == N) {
    if (G->hooks.onDump) G->hooks.onDump(step, v);
    dumps.erase(step); dumpCnt.erase(step);
  }
}
void submitBlob(int step, const std::string& name, const std::vector<double>& x) {
  for (double d : x) event(dbits(d));
  auto k = std::make_pair(step, name);
  auto& v = blobs[k];
  if (v.empty()) { v.resize(N); if (G->hooks.onFirstBlob) G->hooks.onFirstBlob(step, name); }
  v[tlsRank] = x;
  if (++blobCnt[k] == N) {
    if (G->hooks.onBlob) G->hooks.onBlob(step, name, v);
    blobs.erase(k); blobCnt.erase(k);
  }
}

// ------------------------------------------------------------------ MPI helpers
static SimComm* C(MPI_Comm c) {
  if (c == MPI_COMM_WORLD) return world;
  if (c == MPI_COMM_SELF) return selfs[tlsRank];
  if (c == MPI_COMM_NULL || !c) vio("mpi-misuse", std::string("communicator is null in ") + R[tlsRank].what);
  for (auto k : comms) if ((void*)k == (void*)c) {
    int i = k->indexOf(tlsRank);
    if (i < 0) vio("mpi-misuse", "rank uses a communicator it is not a member of");
    if (k->freed[i]) vio("mpi-misuse", "use of a freed communicator");
    return k;
  }
  for (auto k : selfs) if ((void*)k == (void*)c) return k;
  vio("mpi-misuse", "invalid communicator handle");
}
static MPI_Comm handle(SimComm* c) { return c == world ? MPI_COMM_WORLD : (MPI_Comm)(void*)c; }

struct TypeInfo { size_t size; char k; };
static std::map<void*, TypeInfo> userTypes;
static TypeInfo T(MPI_Datatype t) {
  if (t == MPI_BYTE || t == MPI_CHAR || t == MPI_INT8_T || t == MPI_SIGNED_CHAR) return {1, 'c'};
  if (t == MPI_UNSIGNED_CHAR || t == MPI_UINT8_T || t == MPI_C_BOOL) return {1, 'C'};
  if (t == MPI_SHORT) return {2, 's'};
  if (t == MPI_INT || t == MPI_INT32_T) return {4, 'i'};
  if (t == MPI_UNSIGNED || t == MPI_UINT32_T) return {4, 'u'};
  if (t == MPI_LONG || t == MPI_LONG_LONG_INT || t == MPI_INT64_T) return {8, 'l'};
  if (t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG || t == MPI_UINT64_T) return {8, 'U'};
  if (t == MPI_FLOAT) return {4, 'f'};
  if (t == MPI_DOUBLE) return {8, 'd'};
  if (t == MPI_2INT) return {8, 'I'};
  if (t == MPI_DOUBLE_INT) return {16, 'D'};
  if (t == MPI_FLOAT_INT) return {8, 'F'};
  auto it = userTypes.find((void*)t);
  if (it != userTypes.end()) return it->second;
  logicError("unknown MPI datatype");
}

struct UserOp { MPI_User_function* f; };
static std::map<void*, UserOp> userOps;
template <class X> static void red(X* a, const X* b, int n, MPI_Op op, bool integral) {
  for (int i = 0; i < n; i++) {
    if (op == MPI_SUM) a[i] = a[i] + b[i];
    else if (op == MPI_MAX) a[i] = a[i] > b[i] ? a[i] : b[i];
    else if (op == MPI_MIN) a[i] = a[i] < b[i] ? a[i] : b[i];
    else if (op == MPI_PROD) a[i] = a[i] * b[i];
    else if (op == MPI_LOR) a[i] = a[i] || b[i];
    else if (op == MPI_LAND) a[i] = a[i] && b[i];
    else logicError("unsupported reduction");
  }
}
template <class X> static void redI(X* a, const X* b, int n, MPI_Op op) {
  for (int i = 0; i < n; i++) {
    if (op == MPI_BOR) a[i] |= b[i];
    else if (op == MPI_BAND) a[i] &= b[i];
    else if (op == MPI_BXOR) a[i] ^= b[i];
    else { red(a + i, b + i, 1, op, true); }
  }
}
template <class V> static void redLoc(void* A, const void* B, int n, MPI_Op op) {
  struct P { V v; int i; };
  P* a = (P*)A; const P* b = (const P*)B;
  for (int i = 0; i < n; i++) {
    bool take;
    if (op == MPI_MAXLOC) take = b[i].v > a[i].v || (b[i].v == a[i].v && b[i].i < a[i].i);
    else if (op == MPI_MINLOC) take = b[i].v < a[i].v || (b[i].v == a[i].v && b[i].i < a[i].i);
    else logicError("unsupported pair reduction");
    if (take) a[i] = b[i];
  }
}
static void reduce(void* a, const void* b, int n, MPI_Datatype t, MPI_Op op) {
  auto u = userOps.find((void*)op);
  if (u != userOps.end()) {
    // a = a op b with MPI argument order inoutvec = invec op inoutvec (a is the left operand)
    size_t sz = T(t).size * n;
    std::vector<char> tmp((const char*)b, (const char*)b + sz);
    int nn = n; MPI_Datatype tt = t;
    u->second.f(a, tmp.data(), &nn, &tt);
    memcpy(a, tmp.data(), sz);
    return;
  }
  switch (T(t).k) {
    case 'c': redI((signed char*)a, (const signed char*)b, n, op); break;
    case 'C': redI((unsigned char*)a, (const unsigned char*)b, n, op); break;
    case 's': redI((short*)a, (const short*)b, n, op); break;
    case 'i': redI((int*)a, (const int*)b, n, op); break;
    case 'u': redI((unsigned*)a, (const unsigned*)b, n, op); break;
    case 'l': redI((long*)a, (const long*)b, n, op); break;
    case 'U': redI((unsigned long*)a, (const unsigned long*)b, n, op); break;
    case 'f': red((float*)a, (const float*)b, n, op, false); break;
    case 'd': red((double*)a, (const double*)b, n, op, false); break;
    case 'I': redLoc<int>(a, b, n, op); break;
    case 'D': redLoc<double>(a, b, n, op); break;
    case 'F': redLoc<float>(a, b, n, op); break;
    default: logicError("reduce on opaque type");
  }
}

// ------------------------------------------------------------------ point to point
static uint64_t pickDelay(const char* kind, long p, long mx) {
  if (p <= 0 || mx <= 0) return 0;
  uint32_t k = kindId(kind);
  return decide(k, 0, [&]() -> int {
    if (steps > calmAfter) return 0;
    long x = rnd(k) % 1000;
    if (x >= p) return 0;
    if ((long)(rnd(k) % 1000) < knobBig) return (int)(rnd(k) % (mx * 40 + 1));
    return 1 + (int)(rnd(k) % mx);
  });
}
static void sendMsg(const void* buf, size_t len, int dest, int tag, SimComm* c, Req* sync) {
  int me = c->indexOf(tlsRank);
  if (dest < 0 || dest >= (int)c->members.size()) {
    char b[128]; snprintf(b, sizeof b, "send to invalid rank %d of communicator of size %zu", dest, c->members.size());
    vio("mpi-misuse", b);
  }
  Message* m = new Message;
  m->src = me; m->dst = dest; m->wsrc = tlsRank; m->wdst = c->members[dest];
  m->comm = c; m->tag = tag; m->seq = msgSeq++;
  m->data.assign((const char*)buf, (const char*)buf + len);
  uint64_t d = pickDelay("delay", knobDelayP, knobDelayMax);
  if (d) count(d > (uint64_t)knobDelayMax ? "fault.msg_delay_long" : "fault.msg_delay");
  m->visibleAt = now_ + d;
  m->sync = sync;
  net.push_back(m);
  RS->messages++; RS->bytes += len;
  uint64_t hh = 0; for (size_t i = 0; i < len; i++) hh = hh * 131 + (unsigned char)((const char*)buf)[i];
  logev(3, (uint64_t)m->wdst << 32 | (uint32_t)tag, len, hh);
  sinceProgress = 0;
}
// first message a receive (src,tag) on comm c by comm-rank dst may match, per source (non-overtaking)
static void candidates(SimComm* c, int dst, int src, int tag, std::vector<Message*>& out) {
  std::vector<char> seen(c->members.size(), 0);
  for (auto m : net) {
    if (m->comm != c || m->dst != dst) continue;
    if (src != MPI_ANY_SOURCE && m->src != src) continue;
    if (tag != MPI_ANY_TAG && m->tag != tag) continue;
    if (seen[m->src]) continue;
    seen[m->src] = 1;
    if (m->visibleAt <= now_) out.push_back(m);
  }
}
static Message* pickMsg(std::vector<Message*>& v) {
  if (v.empty()) return nullptr;
  if (v.size() == 1 || !knobSrc) return v[0];
  int n = (int)v.size();
  int c = decide(1, n, [&] { return (int)(rnd(1) % n); });
  if (c) count("fault.reorder");
  return v[c];
}
static void consume(Message* m) {
  for (auto it = net.begin(); it != net.end(); ++it) if (*it == m) { net.erase(it); break; }
  if (m->sync) {
    m->sync->done = true;
    uint64_t d = pickDelay("ack", knobDelayP, knobAckMax);
    if (d) count("fault.ack_delay");
    m->sync->doneAt = now_ + d;
    if (d) ackq.push_back(m->sync);
  }
  fnv(SH, 1000 + m->wsrc * 64 + m->wdst);
  logev(4, m->wsrc, m->seq, m->tag);
  delete m;
}
static void fillStatus(MPI_Status* st, const Message* m) {
  if (!st) return;
  st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->_cancelled = 0; st->_ucount = m->data.size();
}
static void deliver(Message* m, void* buf, size_t cap) {
  if (m->data.size() > cap) {
    char b[160]; snprintf(b, sizeof b, "message truncation: %zu bytes arrive in a %zu byte receive buffer (from rank %d)", m->data.size(), cap, m->wsrc);
    vio("mpi-misuse", b);
  }
  memcpy(buf, m->data.data(), m->data.size());
}
static void matchRecvs() {
  for (size_t i = 0; i < recvq.size();) {
    Req* q = recvq[i];
    std::vector<Message*> v;
    candidates(q->comm, q->comm->indexOf(q->owner), q->src, q->tag, v);
    Message* m = v.empty() ? nullptr : v[0];
    if (m && v.size() > 1) m = pickMsg(v);
    if (m) {
      fillStatus(&q->st, m);
      deliver(m, q->buf, q->cap);
      q->done = true; q->doneAt = now_;
      consume(m);
      recvq.erase(recvq.begin() + i);
      sinceProgress = 0;
    } else i++;
  }
}
static bool reqDone(Req* q) { return q->done && q->doneAt <= now_; }
static void freeReq(MPI_Request* r) {
  Req* q = (Req*)(void*)*r;
  for (size_t i = 0; i < ackq.size(); i++) if (ackq[i] == q) { ackq.erase(ackq.begin() + i); break; }
  delete q;
  *r = MPI_REQUEST_NULL;
}
static void emptyStatus(MPI_Status* st) {
  if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->_ucount = 0; st->_cancelled = 0; }
}

// ------------------------------------------------------------------ collectives
enum { K_BARRIER, K_BCAST, K_REDUCE, K_ALLREDUCE, K_ALLGATHER, K_ALLGATHERV, K_ALLTOALL, K_ALLTOALLV, K_SCAN, K_EXSCAN,
       K_GATHER, K_GATHERV, K_SCATTER, K_SCATTERV, K_REDSCAT, K_DUP, K_SPLIT, K_FREE, K_CREATE };
static const char* const KN[] = {"MPI_Barrier", "MPI_Bcast", "MPI_Reduce", "MPI_Allreduce", "MPI_Allgather", "MPI_Allgatherv", "MPI_Alltoall",
                                 "MPI_Alltoallv", "MPI_Scan", "MPI_Exscan", "MPI_Gather", "MPI_Gatherv", "MPI_Scatter", "MPI_Scatterv",
                                 "MPI_Reduce_scatter", "MPI_Comm_dup", "MPI_Comm_split", "MPI_Comm_free", "MPI_Comm_create"};
struct CollRef { Coll* c; SimComm* comm; int me; uint64_t seq; };
static CollRef enter(SimComm* c, int kind, const void* in, size_t len, std::vector<long> par) {
  int me = c->indexOf(tlsRank);
  uint64_t seq = c->collSeq[me]++;
  auto key = std::make_pair(c->id, seq);
  Coll*& k = colls[key];
  int n = (int)c->members.size();
  if (!k) {
    k = new Coll; k->kind = kind; k->in.assign(n, 0); k->dep.resize(n); k->par.resize(n); k->outs.assign(n, nullptr);
  }
  if (k->kind != kind)
    vio("collective-mismatch", std::string("ranks disagree on which collective they are in: ") + KN[k->kind] + " vs " + KN[kind]);
  k->in[me] = 1; k->arrived++;
  if (in && len) k->dep[me].assign((const char*)in, (const char*)in + len);
  k->par[me] = std::move(par);
  logev(5, kind, seq, c->id);
  sinceProgress = 0;
  return {k, c, me, seq};
}
static void waitColl(CollRef& r, std::function<bool()> p) {
  bool ok = p();
  if (ok) { progress(); yield(KN[r.c->kind]); }
  else block(KN[r.c->kind], p);
}
static void waitAll(CollRef& r) {
  Coll* k = r.c; int n = (int)r.comm->members.size();
  waitColl(r, [k, n] { return k->arrived == n; });
}
static void waitRoot(CollRef& r, int root) {
  Coll* k = r.c;
  waitColl(r, [k, root] { return (bool)k->in[root]; });
}
// a rank that need not synchronise may leave early (MPI allows, most programs forget)
static void leaveEarly(CollRef& r) {
  if (knobEager > 0 && chance("eager", knobEager)) { count("fault.eager_collective"); progress(); yield(KN[r.c->kind]); }
  else waitAll(r);
}
static void leave(CollRef& r) {
  if (++r.c->left == (int)r.comm->members.size()) {
    colls.erase(std::make_pair(r.comm->id, r.seq));
    delete r.c;
  }
}
static SimComm* newComm(const std::vector<int>& members) {
  SimComm* s = new SimComm;
  s->id = (int)comms.size();
  s->members = members; s->freed.assign(members.size(), 0); s->collSeq.assign(members.size(), 0);
  comms.push_back(s);
  return s;
}

// ------------------------------------------------------------------ disk
// "./" says nothing about where a file is
static std::string norm(const char* path) {
  std::string s = path;
  while (s.compare(0, 2, "./") == 0 && s.size() > 2) s.erase(0, 2);
  for (size_t p; (p = s.find("/./")) != std::string::npos;) s.erase(p, 2);
  return s;
}
static DiskFile* dfind(const char* given) {
  std::string n = norm(given); const char* path = n.c_str();
  for (int i = 0; i < ARENA_FILES; i++)
    if (G->disk->f[i].used && !strcmp(G->disk->f[i].name, path)) return &G->disk->f[i];
  return nullptr;
}
static DiskFile* dcreate(const char* given) {
  DiskFile* d = dfind(given);
  if (d) return d;
  std::string n = norm(given); const char* path = n.c_str();
  if (n.size() >= sizeof d->name) logicError("file name too long for the simulated disk");
  for (int i = 0; i < ARENA_FILES; i++)
    if (!G->disk->f[i].used) {
      d = &G->disk->f[i];
      d->used = 1; d->size = 0; d->durable = 0;
      snprintf(d->name, sizeof d->name, "%s", path);
      return d;
    }
  logicError("simulated disk is out of inodes");
}
bool diskExists(const std::string& p) { return dfind(p.c_str()); }
bool diskGet(const std::string& p, std::string& out) {
  DiskFile* d = dfind(p.c_str());
  if (!d) return false;
  out.assign((char*)d->data, d->size);
  return true;
}
void diskPut(const std::string& p, const std::string& b) {
  DiskFile* d = dcreate(p.c_str());
  if (b.size() > ARENA_BYTES) logicError("file too large");
  memcpy(d->data, b.data(), b.size()); d->size = b.size(); d->durable = b.size();
}
long tally(const std::string& k, long add) { static std::map<std::string, long> m; return m[k] += add; }
void diskRemove(const std::string& p) { DiskFile* d = dfind(p.c_str()); if (d) d->used = 0; }
std::vector<std::string> diskList() {
  std::vector<std::string> v;
  for (int i = 0; i < ARENA_FILES; i++) if (G->disk->f[i].used) v.push_back(G->disk->f[i].name);
  std::sort(v.begin(), v.end());
  return v;
}
struct Cookie { char path[1024]; size_t pos; bool w; };
static long ioP(const char* k) { return R[tlsRank].faults ? SP->num(k, 0) : 0; }
static size_t diskUsed() { size_t t = 0; for (int i = 0; i < ARENA_FILES; i++) if (G->disk->f[i].used) t += G->disk->f[i].size; return t; }
static void faulted(const char* n) { RS->faultFired++; count(n); }

static ssize_t ckRead(void* ck, char* buf, size_t n) {
  Cookie* c = (Cookie*)ck;
  progress(); yield("read");
  long p = ioP("io_read_p");
  if (p && chance("io.read", p)) { faulted("fault.io_read_eio"); errno = EIO; return -1; }
  DiskFile* d = dfind(c->path);
  if (!d) { errno = EIO; return -1; }
  size_t left = d->size > c->pos ? d->size - c->pos : 0;
  size_t k = std::min(n, left);
  memcpy(buf, d->data + c->pos, k);
  c->pos += k;
  logev(6, k, c->pos);
  return (ssize_t)k;
}
// One write(2); `k` bytes are accepted.  0 = error.
static size_t writeOnce(Cookie* c, const char* buf, size_t n) {
  progress(); yield("write");
  long p = ioP("io_write_p");
  if (p && chance("io.write", p)) { faulted("fault.io_write_eio"); errno = EIO; return 0; }
  size_t k = n;
  long cap = R[tlsRank].faults ? SP->num("disk_cap", 0) : 0;
  if (cap && (long)(diskUsed() + n) > cap) {
    long room = cap - (long)diskUsed();
    if (room < 0) room = 0;
    k = std::min((size_t)room, n);
    faulted("fault.io_enospc");
    if (k == 0) { errno = ENOSPC; return 0; }
  }
  long ps = ioP("io_short_p");
  if (ps && k > 1 && chance("io.short", ps)) { size_t m = std::min<size_t>(k - 1, 1 << 20); k = 1 + decide(15, (int)m, [&] { return (int)(rnd(15) % m); }); count("fault.io_short_write"); }
  DiskFile* d = dfind(c->path);
  if (!d) { errno = EIO; return 0; }
  if (c->pos + k > ARENA_BYTES) logicError("simulated file too large");
  memcpy(d->data + c->pos, buf, k);
  c->pos += k;
  if (c->pos > d->size) d->size = c->pos;
  logev(7, k, c->pos);
  return k;
}
// stdio on a real file retries short writes; on a cookie stream it does not,
// so the retry loop is here.  A job kill can land between the pieces.
static ssize_t ckWrite(void* ck, const char* buf, size_t n) {
  size_t done = 0;
  while (done < n) {
    size_t k = writeOnce((Cookie*)ck, buf + done, n - done);
    if (!k) break;
    done += k;
  }
  return (ssize_t)done;
}
static int ckSeek(void* ck, off64_t* off, int wh) {
  Cookie* c = (Cookie*)ck;
  DiskFile* d = dfind(c->path);
  long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)c->pos : (d ? (long)d->size : 0);
  long np = base + *off;
  if (np < 0) { errno = EINVAL; return -1; }
  c->pos = np; *off = np;
  return 0;
}
static int ckClose(void* ck) {
  Cookie* c = (Cookie*)ck;
  progress(); yield("close");
  long p = c->w ? ioP("io_close_p") : 0;
  bool bad = p && chance("io.close", p);
  if (bad) {
    // delayed-allocation / NFS style: the error surfaces at close and the tail of the file is gone
    faulted("fault.io_close_eio");
    DiskFile* d = dfind(c->path);
    if (d && d->size) d->size -= 1 + decide(15, (int)d->size, [&] { return (int)(rnd(15) % d->size); });
  }
  openFiles[c->path]--;
  delete c;
  if (bad) { errno = EIO; return -1; }
  return 0;
}
static bool dirMissing(const char* given) {
  std::string n = norm(given); const char* path = n.c_str();
  const char* sl = strrchr(path, '/');
  if (!sl || sl == path) return false;
  if (n.substr(0, sl - path) == ".") return false;
  return !dfind(std::string(path, sl - path + 1).c_str());
}
static bool simPath(const char* path) { return strncmp(path, "/proc/", 6) && strncmp(path, "/dev/", 5) && strncmp(path, "/sys/", 5); }
static FILE* simOpen(const char* path, const char* mode) {
  yield("fopen"); progress();
  bool w = mode[0] == 'w' || mode[0] == 'a', rd = mode[0] == 'r';
  long p = ioP("io_open_p");
  if (p && chance("io.open", p)) {
    faulted(w ? "fault.io_open_write" : "fault.io_open_read");
    errno = rd ? EACCES : ENOSPC;
    return nullptr;
  }
  if (!simPath(path)) { errno = ENOENT; return nullptr; }
  if (rd ? !dfind(path) : dirMissing(path)) { errno = ENOENT; return nullptr; }
  DiskFile* d = dcreate(path);
  if (mode[0] == 'w') d->size = 0;
  Cookie* c = new Cookie;
  snprintf(c->path, sizeof c->path, "%s", path);
  c->pos = mode[0] == 'a' ? d->size : 0;
  c->w = w || strchr(mode, '+');
  openFiles[c->path]++;
  cookie_io_functions_t f = {ckRead, ckWrite, ckSeek, ckClose};
  logev(8, w, std::hash<std::string>()(path));
  FILE* fp = fopencookie(c, mode, f);
  long bs = SP->num("stdio_buf", 0);   // buffer size knob: how early write errors surface
  if (fp && bs > 0) setvbuf(fp, new char[bs], _IOFBF, bs);   // (the buffer outlives the stream; glibc ignores the size without one)
  return fp;
}

}  // namespace sim

using namespace sim;

// ==================================================================== MPI ABI
extern "C" {
#define API __attribute__((visibility("default"), used))

API int MPI_Init(int*, char***) { return 0; }
API int MPI_Finalize(void) { return 0; }
API int MPI_Initialized(int* f) { *f = 1; return 0; }
API int MPI_Finalized(int* f) { *f = 0; return 0; }
API int MPI_Abort(MPI_Comm, int) { failstop("MPI_Abort"); }
API int MPI_Error_string(int, char* s, int* l) { strcpy(s, "error"); *l = 5; return 0; }
API int MPI_Get_processor_name(char* s, int* l) { strcpy(s, "sim"); *l = 3; return 0; }
API double MPI_Wtick(void) { return 1e-6; }
API double MPI_Wtime(void) {
  Rank& r = R[tlsRank];
  long p = SP->num("clock_jump_p", 0);
  if (p && chance("jump", p)) { r.woff += (double)(decide(16, 2000, [&] { return (int)(rnd(16) % 2000); }) - 700); count("fault.clock_jump"); }
  return r.woff + now_ * 1e-6 * r.wrate;
}
API int MPI_Comm_rank(MPI_Comm c, int* r) { *r = C(c)->indexOf(tlsRank); return 0; }
API int MPI_Comm_size(MPI_Comm c, int* s) { *s = (int)C(c)->members.size(); return 0; }
API MPI_Fint MPI_Comm_c2f(MPI_Comm c) { SimComm* s = C(c); return s->id < 0 ? 100000 - s->id : s->id; }
API MPI_Comm MPI_Comm_f2c(MPI_Fint f) {
  if (f >= 100000) return handle(selfs[f - 100001]);
  if (f < 0 || f >= (int)comms.size()) return MPI_COMM_NULL;
  return handle(comms[f]);
}
API int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) {
  SimComm* s = C(c);
  CollRef r = enter(s, K_DUP, 0, 0, {});
  if (!r.c->obj) r.c->obj = std::shared_ptr<void>((void*)newComm(s->members), [](void*) {});
  SimComm* n = (SimComm*)r.c->obj.get();
  waitAll(r);
  leave(r);
  *out = handle(n);
  return 0;
}
API int MPI_Comm_free(MPI_Comm* c) {
  SimComm* s = C(*c);
  if (s == world || s->id < 0) vio("mpi-misuse", "MPI_Comm_free of a predefined communicator");
  CollRef r = enter(s, K_FREE, 0, 0, {});
  waitAll(r);
  int me = r.me;
  leave(r);
  s->freed[me] = 1;
  *c = MPI_COMM_NULL;
  return 0;
}
API int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
  SimComm* s = C(c);
  CollRef r = enter(s, K_SPLIT, 0, 0, {color, key});
  waitAll(r);
  Coll* k = r.c;
  typedef std::map<int, SimComm*> M;
  if (!k->obj) {
    M* m = new M;
    std::map<int, std::vector<std::pair<std::pair<long, int>, int>>> g;
    for (size_t i = 0; i < s->members.size(); i++)
      if (k->par[i][0] != MPI_UNDEFINED) g[(int)k->par[i][0]].push_back({{k->par[i][1], (int)i}, s->members[i]});
    for (auto& e : g) {
      std::sort(e.second.begin(), e.second.end());
      std::vector<int> mem;
      for (auto& x : e.second) mem.push_back(x.second);
      (*m)[e.first] = newComm(mem);
    }
    k->obj = std::shared_ptr<void>(m);
  }
  M* m = (M*)k->obj.get();
  *out = color == MPI_UNDEFINED ? MPI_COMM_NULL : handle((*m)[color]);
  leave(r);
  return 0;
}
struct SimGroup { std::vector<int> w; };
API int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { SimGroup* q = new SimGroup; q->w = C(c)->members; *g = (MPI_Group)(void*)q; return 0; }
API int MPI_Group_free(MPI_Group* g) { delete (SimGroup*)(void*)*g; *g = 0; return 0; }
API int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* o) {
  SimGroup* q = new SimGroup;
  for (int i = 0; i < n; i++) q->w.push_back(((SimGroup*)(void*)g)->w[r[i]]);
  *o = (MPI_Group)(void*)q;
  return 0;
}
API int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* out) {
  SimComm* s = C(c);
  SimGroup* q = (SimGroup*)(void*)g;
  CollRef r = enter(s, K_CREATE, 0, 0, {});
  waitAll(r);
  typedef std::map<std::vector<int>, SimComm*> M;
  if (!r.c->obj) r.c->obj = std::shared_ptr<void>(new M);
  M* m = (M*)r.c->obj.get();
  bool in = std::find(q->w.begin(), q->w.end(), tlsRank) != q->w.end();
  if (in) { if (!(*m)[q->w]) (*m)[q->w] = newComm(q->w); *out = handle((*m)[q->w]); }
  else *out = MPI_COMM_NULL;
  leave(r);
  return 0;
}
API int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)T(t).size; return 0; }
API int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype* o) {
  char* p = new char[16];
  userTypes[p] = {T(t).size * n, '?'};
  *o = (MPI_Datatype)(void*)p;
  return 0;
}
API int MPI_Type_create_struct(int n, const int* bl, const MPI_Aint* ds, const MPI_Datatype* ty, MPI_Datatype* o) {
  size_t ext = 0;
  for (int i = 0; i < n; i++) ext = std::max(ext, (size_t)ds[i] + bl[i] * T(ty[i]).size);
  char* p = new char[16];
  userTypes[p] = {ext, '?'};
  *o = (MPI_Datatype)(void*)p;
  return 0;
}
API int MPI_Get_address(const void* a, MPI_Aint* o) { *o = (MPI_Aint)a; return 0; }
API int MPI_Group_excl(MPI_Group g, int n, const int* r, MPI_Group* o) {
  SimGroup* q = new SimGroup;
  std::vector<int>& w = ((SimGroup*)(void*)g)->w;
  for (size_t i = 0; i < w.size(); i++) if (std::find(r, r + n, (int)i) == r + n) q->w.push_back(w[i]);
  *o = (MPI_Group)(void*)q;
  return 0;
}
API int MPI_Type_commit(MPI_Datatype*) { return 0; }
API int MPI_Type_free(MPI_Datatype* t) { *t = 0; return 0; }
API int MPI_Op_create(MPI_User_function* f, int, MPI_Op* o) { char* p = new char[16]; userOps[p] = {f}; *o = (MPI_Op)(void*)p; return 0; }
API int MPI_Op_free(MPI_Op* o) { userOps.erase((void*)*o); *o = 0; return 0; }
API int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = (int)(st->_ucount / T(t).size); return 0; }
API int MPI_Get_elements(const MPI_Status* st, MPI_Datatype t, int* n) { *n = (int)(st->_ucount / T(t).size); return 0; }

API int MPI_Issend(const void* b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request* rq) {
  yield("MPI_Issend"); progress();
  Req* q = new Req; q->kind = Req::SEND; q->owner = tlsRank;
  sendMsg(b, T(t).size * n, dest, tag, C(c), q);
  *rq = (MPI_Request)(void*)q;
  return 0;
}
API int MPI_Isend(const void* b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request* rq) {
  yield("MPI_Isend"); progress();
  Req* q = new Req; q->kind = Req::SEND; q->owner = tlsRank; q->done = true; q->doneAt = now_;
  sendMsg(b, T(t).size * n, dest, tag, C(c), nullptr);
  *rq = (MPI_Request)(void*)q;
  return 0;
}
API int MPI_Irsend(const void* b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request* rq) { return MPI_Isend(b, n, t, dest, tag, c, rq); }
API int MPI_Send(const void* b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) {
  yield("MPI_Send"); progress();
  sendMsg(b, T(t).size * n, dest, tag, C(c), nullptr);
  return 0;
}
API int MPI_Rsend(const void* b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dest, tag, c); }
API int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) {
  Req* q = new Req; q->kind = Req::SEND; q->owner = tlsRank;
  sendMsg(b, T(t).size * n, dest, tag, C(c), q);
  block("MPI_Ssend", [q] { return reqDone(q); });
  MPI_Request r = (MPI_Request)(void*)q; freeReq(&r);
  return 0;
}
API int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
  SimComm* s = C(c);
  matchRecvs();
  std::vector<Message*> v;
  candidates(s, s->indexOf(tlsRank), src, tag, v);
  Message* m = pickMsg(v);
  *flag = m != nullptr;
  if (m) {
    fillStatus(st, m);
    logev(9, m->wsrc, m->tag);
    progress();
    // probed message stays matched to this probe: deliver it on the next recv from that source
    return 0;
  }
  pollYield("MPI_Iprobe");
  return 0;
}
API int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) {
  SimComm* s = C(c); int me = s->indexOf(tlsRank);
  block("MPI_Probe", [=] { std::vector<Message*> v; candidates(s, me, src, tag, v); return !v.empty(); });
  std::vector<Message*> v; candidates(s, me, src, tag, v);
  fillStatus(st, pickMsg(v));
  return 0;
}
API int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st) {
  SimComm* s = C(c); int me = s->indexOf(tlsRank);
  size_t cap = T(t).size * n;
  std::vector<Message*> v;
  matchRecvs();
  candidates(s, me, src, tag, v);
  if (v.empty()) {
    block("MPI_Recv", [=] { std::vector<Message*> w; candidates(s, me, src, tag, w); return !w.empty(); });
    candidates(s, me, src, tag, v);
  }
  Message* m = pickMsg(v);
  fillStatus(st, m);
  deliver(m, b, cap);
  consume(m);
  progress();
  yield("MPI_Recv");
  return 0;
}
API int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* rq) {
  Req* q = new Req; q->kind = Req::RECV; q->owner = tlsRank; q->comm = C(c); q->src = src; q->tag = tag; q->buf = b; q->cap = T(t).size * n; q->post = reqSeq++;
  recvq.push_back(q);
  *rq = (MPI_Request)(void*)q;
  progress();
  yield("MPI_Irecv");
  return 0;
}
API int MPI_Test(MPI_Request* rq, int* flag, MPI_Status* st) {
  if (*rq == MPI_REQUEST_NULL) { *flag = 1; emptyStatus(st); return 0; }
  matchRecvs();
  Req* q = (Req*)(void*)*rq;
  *flag = reqDone(q);
  if (*flag) { if (st) *st = q->st; freeReq(rq); logev(10, 1); progress(); return 0; }
  pollYield("MPI_Test");
  return 0;
}
API int MPI_Wait(MPI_Request* rq, MPI_Status* st) {
  if (*rq == MPI_REQUEST_NULL) { emptyStatus(st); return 0; }
  Req* q = (Req*)(void*)*rq;
  block("MPI_Wait", [q] { return reqDone(q); });
  if (st) *st = q->st;
  freeReq(rq);
  return 0;
}
API int MPI_Waitall(int n, MPI_Request* rq, MPI_Status* st) {
  for (int i = 0; i < n; i++) MPI_Wait(rq + i, st ? st + i : nullptr);
  return 0;
}
API int MPI_Waitany(int n, MPI_Request* rq, int* idx, MPI_Status* st) {
  auto find = [=]() -> int { for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL && reqDone((Req*)(void*)rq[i])) return i; return -1; };
  bool any = false;
  for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL) any = true;
  if (!any) { *idx = MPI_UNDEFINED; emptyStatus(st); return 0; }
  block("MPI_Waitany", [=] { return find() >= 0; });
  std::vector<int> d;
  for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL && reqDone((Req*)(void*)rq[i])) d.push_back(i);
  int i = d[choose("src", (int)d.size())];
  *idx = i;
  if (st) *st = ((Req*)(void*)rq[i])->st;
  freeReq(rq + i);
  return 0;
}
API int MPI_Waitsome(int n, MPI_Request* rq, int* cnt, int* idx, MPI_Status* st) {
  bool any = false;
  for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL) any = true;
  if (!any) { *cnt = MPI_UNDEFINED; return 0; }
  block("MPI_Waitsome", [=] { for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL && reqDone((Req*)(void*)rq[i])) return true; return false; });
  int k = 0;
  for (int i = 0; i < n; i++)
    if (rq[i] != MPI_REQUEST_NULL && reqDone((Req*)(void*)rq[i])) { idx[k] = i; if (st) st[k] = ((Req*)(void*)rq[i])->st; freeReq(rq + i); k++; }
  *cnt = k;
  return 0;
}
API int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stp, int dest, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* st) {
  sendMsg(sb, T(stp).size * sn, dest, stag, C(c), nullptr);
  return MPI_Recv(rb, rn, rt, src, rtag, c, st);
}
API int MPI_Request_free(MPI_Request* r) { freeReq(r); return 0; }

// ---- collectives
API int MPI_Barrier(MPI_Comm c) {
  CollRef r = enter(C(c), K_BARRIER, 0, 0, {});
  waitAll(r); leave(r);
  return 0;
}
API int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  SimComm* s = C(c);
  size_t len = T(t).size * n;
  bool me = s->indexOf(tlsRank) == root;
  CollRef r = enter(s, K_BCAST, me ? b : nullptr, me ? len : 0, {root});
  if (me) leaveEarly(r);
  else { waitRoot(r, root); memcpy(b, r.c->dep[root].data(), std::min(len, r.c->dep[root].size())); }
  leave(r);
  return 0;
}
static void reduceInto(CollRef& r, void* out, int n, MPI_Datatype t, MPI_Op op, int lo, int hi) {
  size_t len = T(t).size * n;
  if (lo >= hi) return;
  std::vector<char> acc = r.c->dep[lo];
  acc.resize(len);
  for (int i = lo + 1; i < hi; i++) {
    if (r.c->dep[i].size() != len) vio("collective-mismatch", "ranks pass different element counts to a reduction");
    reduce(acc.data(), r.c->dep[i].data(), n, t, op);
  }
  memcpy(out, acc.data(), len);
}
API int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  SimComm* s = C(c);
  CollRef r = enter(s, K_ALLREDUCE, in == MPI_IN_PLACE ? out : in, T(t).size * n, {n, userOps.count((void*)op) ? 1 : (long)(intptr_t)op});
  waitAll(r);
  for (size_t i = 0; i < s->members.size(); i++)
    if (r.c->par[i] != r.c->par[0]) vio("collective-mismatch", "ranks pass different arguments to MPI_Allreduce");
  reduceInto(r, out, n, t, op, 0, (int)s->members.size());
  leave(r);
  return 0;
}
API int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  SimComm* s = C(c);
  CollRef r = enter(s, K_REDUCE, in == MPI_IN_PLACE ? out : in, T(t).size * n, {n, root});
  if (r.me != root) leaveEarly(r);
  else { waitAll(r); reduceInto(r, out, n, t, op, 0, (int)s->members.size()); }
  leave(r);
  return 0;
}
API int MPI_Scan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  SimComm* s = C(c);
  CollRef r = enter(s, K_SCAN, in == MPI_IN_PLACE ? out : in, T(t).size * n, {n});
  waitAll(r);
  reduceInto(r, out, n, t, op, 0, r.me + 1);
  leave(r);
  return 0;
}
API int MPI_Exscan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  SimComm* s = C(c);
  CollRef r = enter(s, K_EXSCAN, in == MPI_IN_PLACE ? out : in, T(t).size * n, {n});
  waitAll(r);
  if (r.me > 0) reduceInto(r, out, n, t, op, 0, r.me);
  leave(r);
  return 0;
}
API int MPI_Reduce_scatter(const void* in, void* out, const int* cnt, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  SimComm* s = C(c);
  int n = 0; for (size_t i = 0; i < s->members.size(); i++) n += cnt[i];
  CollRef r = enter(s, K_REDSCAT, in == MPI_IN_PLACE ? out : in, T(t).size * n, {n});
  waitAll(r);
  std::vector<char> tmp(T(t).size * n + 16);
  reduceInto(r, tmp.data(), n, t, op, 0, (int)s->members.size());
  size_t off = 0; for (int i = 0; i < r.me; i++) off += cnt[i];
  memcpy(out, tmp.data() + off * T(t).size, T(t).size * cnt[r.me]);
  leave(r);
  return 0;
}
API int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, MPI_Comm c) {
  SimComm* s = C(c); int me = s->indexOf(tlsRank);
  size_t rl = T(rt).size * rn;
  CollRef r = enter(s, K_ALLGATHER, in == MPI_IN_PLACE ? (char*)out + me * rl : in, in == MPI_IN_PLACE ? rl : T(t).size * n, {});
  waitAll(r);
  for (size_t i = 0; i < s->members.size(); i++) memcpy((char*)out + i * rl, r.c->dep[i].data(), std::min(rl, r.c->dep[i].size()));
  leave(r);
  return 0;
}
API int MPI_Allgatherv(const void* in, int n, MPI_Datatype t, void* out, const int* rn, const int* ds, MPI_Datatype rt, MPI_Comm c) {
  SimComm* s = C(c); int me = s->indexOf(tlsRank);
  size_t es = T(rt).size;
  CollRef r = enter(s, K_ALLGATHERV, in == MPI_IN_PLACE ? (char*)out + ds[me] * es : in, in == MPI_IN_PLACE ? rn[me] * es : T(t).size * n, {});
  waitAll(r);
  for (size_t i = 0; i < s->members.size(); i++) memcpy((char*)out + ds[i] * es, r.c->dep[i].data(), std::min(rn[i] * es, r.c->dep[i].size()));
  leave(r);
  return 0;
}
API int MPI_Alltoall(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, MPI_Comm c) {
  SimComm* s = C(c); size_t P = s->members.size();
  size_t bl = T(t).size * n, rl = T(rt).size * rn;
  CollRef r = enter(s, K_ALLTOALL, in, bl * P, {n});
  waitAll(r);
  for (size_t i = 0; i < P; i++) memcpy((char*)out + i * rl, r.c->dep[i].data() + r.me * bl, std::min(bl, rl));
  leave(r);
  return 0;
}
API int MPI_Alltoallv(const void* in, const int* sn, const int* sd, MPI_Datatype t, void* out, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c) {
  SimComm* s = C(c); int P = (int)s->members.size();
  size_t es = T(t).size;
  std::vector<char> pk; std::vector<long> par;
  for (int i = 0; i < P; i++) {
    par.push_back((long)pk.size()); par.push_back(sn[i] * (long)es);
    pk.insert(pk.end(), (const char*)in + sd[i] * es, (const char*)in + (sd[i] + sn[i]) * es);
  }
  CollRef r = enter(s, K_ALLTOALLV, pk.data(), pk.size(), par);
  waitAll(r);
  for (int i = 0; i < P; i++) {
    long off = r.c->par[i][2 * r.me], len = r.c->par[i][2 * r.me + 1];
    if (len != (long)(rn[i] * T(rt).size)) vio("collective-mismatch", "MPI_Alltoallv send and receive counts disagree");
    if (len) memcpy((char*)out + rd[i] * T(rt).size, r.c->dep[i].data() + off, len);
  }
  leave(r);
  return 0;
}
API int MPI_Gather(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  SimComm* s = C(c);
  bool me = s->indexOf(tlsRank) == root;
  size_t rl = me ? T(rt).size * rn : 0;
  CollRef r = enter(s, K_GATHER, in == MPI_IN_PLACE ? (char*)out + root * rl : in, in == MPI_IN_PLACE ? rl : T(t).size * n, {root});
  if (me) { waitAll(r); for (size_t i = 0; i < s->members.size(); i++) memcpy((char*)out + i * rl, r.c->dep[i].data(), std::min(rl, r.c->dep[i].size())); }
  else leaveEarly(r);
  leave(r);
  return 0;
}
API int MPI_Gatherv(const void* in, int n, MPI_Datatype t, void* out, const int* rn, const int* ds, MPI_Datatype rt, int root, MPI_Comm c) {
  SimComm* s = C(c);
  bool me = s->indexOf(tlsRank) == root;
  CollRef r = enter(s, K_GATHERV, in == MPI_IN_PLACE ? (char*)out + ds[root] * T(rt).size : in, in == MPI_IN_PLACE ? rn[root] * T(rt).size : T(t).size * n, {root});
  if (me) { waitAll(r); for (size_t i = 0; i < s->members.size(); i++) memcpy((char*)out + ds[i] * T(rt).size, r.c->dep[i].data(), std::min(rn[i] * T(rt).size, r.c->dep[i].size())); }
  else leaveEarly(r);
  leave(r);
  return 0;
}
API int MPI_Scatter(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  SimComm* s = C(c);
  bool me = s->indexOf(tlsRank) == root;
  size_t rl = T(rt).size * rn;
  CollRef r = enter(s, K_SCATTER, me ? in : nullptr, me ? T(t).size * n * s->members.size() : 0, {root});
  if (me) leaveEarly(r); else waitRoot(r, root);
  if (out != MPI_IN_PLACE) memcpy(out, r.c->dep[root].data() + r.me * rl, rl);
  leave(r);
  return 0;
}
API int MPI_Scatterv(const void* in, const int* sn, const int* sd, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  SimComm* s = C(c);
  bool me = s->indexOf(tlsRank) == root;
  std::vector<char> pk; std::vector<long> par;
  if (me) for (size_t i = 0; i < s->members.size(); i++) { par.push_back(pk.size()); pk.insert(pk.end(), (const char*)in + sd[i] * T(t).size, (const char*)in + (sd[i] + sn[i]) * T(t).size); }
  CollRef r = enter(s, K_SCATTERV, pk.data(), pk.size(), par);
  if (me) leaveEarly(r); else waitRoot(r, root);
  if (out != MPI_IN_PLACE) memcpy(out, r.c->dep[root].data() + r.c->par[root][r.me], T(rt).size * rn);
  leave(r);
  return 0;
}

// ==================================================================== libc seams
// rand()/srand(): per rank, as each MPI process has its own generator state.
API void srand(unsigned s) { if (tlsRank >= 0) R[tlsRank].rnd = s ? s : 1; }
API int rand(void) {
  if (tlsRank < 0) return 4;
  unsigned& s = R[tlsRank].rnd;
  s = s * 1103515245u + 12345u; unsigned r = (s >> 16) & 0x7fff;
  s = s * 1103515245u + 12345u; r = (r << 15) | ((s >> 16) & 0x7fff);
  return (int)r;
}
API FILE* __wrap_fopen(const char* p, const char* m) { return simOpen(p, m); }
API FILE* __wrap_fopen64(const char* p, const char* m) { return simOpen(p, m); }
API FILE* __wrap_freopen(const char* p, const char* m, FILE* f) {
  (void)p; (void)m;
  return f;  // only used to redirect stdio
}
// directories are entries whose name ends in a slash
API int __wrap_mkdir(const char* path, mode_t) {
  std::string d = path; while (d.size() > 1 && d.back() == '/') d.pop_back();
  yield("mkdir"); progress();
  long p = ioP("io_mkdir_p");
  if (p && chance("io.mkdir", p)) { faulted("fault.io_mkdir"); errno = ENOSPC; return -1; }
  if (norm(d.c_str()) == "." || dfind((d + "/").c_str())) { errno = EEXIST; return -1; }
  if (dirMissing(d.c_str())) { errno = ENOENT; return -1; }
  dcreate((d + "/").c_str());
  return 0;
}
API int __wrap_unlink(const char* path) { yield("unlink"); progress(); DiskFile* d = dfind(path); if (!d) { errno = ENOENT; return -1; } d->used = 0; return 0; }
API int __wrap_remove(const char* path) { return __wrap_unlink(path); }
API int __wrap_rename(const char* a, const char* b) {
  yield("rename"); progress();
  DiskFile* d = dfind(a); if (!d) { errno = ENOENT; return -1; }
  if (dirMissing(b)) { errno = ENOENT; return -1; }
  DiskFile* e = dfind(b); if (e && e != d) e->used = 0;
  snprintf(d->name, sizeof d->name, "%s", norm(b).c_str());
  return 0;
}
// std::ifstream opens its file from inside libstdc++ and then reads the file
// descriptor directly: hand it a descriptor holding a snapshot of the
// simulated file.
static FILE* streamOpen(const char* path, const char* mode, const char* sym) {
  typedef FILE* (*fn)(const char*, const char*);
  static fn real = 0;
  if (tlsRank < 0 || !G || !simPath(path)) { if (!real) real = (fn)dlsym(RTLD_NEXT, sym); return real(path, mode); }
  yield("fopen"); progress();
  long p = ioP("io_open_p");
  if (p && chance("io.open", p)) { faulted("fault.io_open_read"); errno = EACCES; return nullptr; }
  DiskFile* d = dfind(path);
  if (mode[0] != 'r' || !d) { errno = ENOENT; return nullptr; }
  int fd = memfd_create("sim", 0);
  if (fd < 0 || write(fd, d->data, d->size) != (ssize_t)d->size) logicError("memfd");
  lseek(fd, 0, SEEK_SET);
  return fdopen(fd, "r");
}
API FILE* fopen(const char* p, const char* m) { return streamOpen(p, m, "fopen"); }
API FILE* fopen64(const char* p, const char* m) { return streamOpen(p, m, "fopen64"); }
API void __wrap_abort(void) { failstop("abort()"); }
API void __wrap_exit(int c) { char b[64]; snprintf(b, 64, "exit(%d)", c); failstop(b); }
API void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  char b[400]; snprintf(b, sizeof b, "assertion `%s' failed at %s:%u (%s)", e, f, l, fn);
  snprintf(RS->cls, sizeof RS->cls, "assert");
  failstop(b);
}
API void* __wrap_signal(int, void*) { return nullptr; }
API void* __wrap_malloc(size_t n) {
  if (tlsRank >= 0 && R[tlsRank].mfail) {
    long at = SP->num("malloc_fail_at", 0);
    if (at && ++R[tlsRank].mallocs == at) { RS->faultFired++; count("fault.malloc"); return nullptr; }
  }
  return fenceMalloc(n, __builtin_return_address(0));
}
API void* __wrap_calloc(size_t a, size_t b) { return fenceCalloc(a, b, __builtin_return_address(0)); }
API void __wrap_free(void* p) { fenceFree(p); }
API void* __wrap_realloc(void* p, size_t n) {
  if (tlsRank >= 0 && R[tlsRank].mfail && n) {
    long at = SP->num("malloc_fail_at", 0);
    if (at && ++R[tlsRank].mallocs == at) { RS->faultFired++; count("fault.realloc"); return nullptr; }
  }
  return fenceRealloc(p, n, __builtin_return_address(0));
}
}  // extern C
