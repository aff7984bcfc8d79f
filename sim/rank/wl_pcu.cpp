// Workloads over the PCU messaging layer.
#include "common.h"
#include <algorithm>
#include <set>

static unsigned char pat(long phase, int src, int dst, long k, long i) {
  return (unsigned char)(phase * 131 + src * 31 + dst * 17 + k * 7 + i * 3 + (i >> 8));
}
struct M { int src, dst; long size; };

// One communication phase: ops[lo+1..hi) are the messages of phase ops[lo].
static void runPhase(long ph, const std::vector<M>& ms, const std::string& mode, bool order, int nself, int P) {
  PCU_Comm_Order(order);
  std::vector<std::vector<M>> in(P);  // expected, by sender
  for (auto& m : ms) if (m.dst == nself) in[m.src].push_back(m);
  long expectBytes = 0; (void)expectBytes;
  if (mode == "start_local" || mode == "start_global") PCU_Comm_Start(mode == "start_local" ? PCU_LOCAL_METHOD : PCU_GLOBAL_METHOD);
  else PCU_Comm_Begin();
  std::vector<long> kOf(P, 0);
  std::vector<size_t> packedTotal(P, 0);
  for (auto& m : ms) {
    if (m.src != nself) continue;
    long k = kOf[m.dst]++;
    std::vector<unsigned char> b(m.size);
    for (long i = 0; i < m.size; i++) b[i] = pat(ph, m.src, m.dst, k, i);
    if (mode == "write") PCU_Comm_Write(m.dst, b.data(), m.size);
    else {
      int n = (int)m.size;
      PCU_COMM_PACK(m.dst, n);
      packedTotal[m.dst] += sizeof(int) + m.size;
      // a block may be packed in pieces
      long cut = m.size > 3 ? m.size / 3 : 0;
      if (cut) PCU_Comm_Pack(m.dst, b.data(), cut);
      PCU_Comm_Pack(m.dst, b.data() + cut, m.size - cut);
      size_t sz = 0; PCU_Comm_Packed(m.dst, &sz);
      if (sz != packedTotal[m.dst]) sim::violation("msg.packed", "rank %d packed %zu bytes for %d but the library reports %zu", nself, packedTotal[m.dst], m.dst, sz);
    }
    sim::yieldPoint("pack");
  }
  PCU_Comm_Send();
  std::vector<int> seenSender(P, 0);
  std::vector<long> got(P, 0);
  int last = -1;
  if (mode == "receive") {
    // one block per turn, whichever buffer is current
    while (PCU_Comm_Receive()) {
      int s = PCU_Comm_Sender();
      if (s < 0 || s >= P) sim::violation("msg.sender", "phase %ld: rank %d receives a message from invalid rank %d", ph, nself, s);
      if (order && s < last) sim::violation("msg.order", "phase %ld: rank %d receives from %d after %d in ordered mode", ph, nself, s, last);
      if (s != last && seenSender[s]++) sim::violation("msg.extra", "phase %ld: rank %d returns to the buffer from %d", ph, nself, s);
      last = s;
      long k = got[s]++;
      if (k >= (long)in[s].size()) sim::violation("msg.extra", "phase %ld: rank %d receives %ld block(s) from %d but only %zu were packed", ph, nself, k + 1, s, in[s].size());
      int n = -1; PCU_COMM_UNPACK(n);
      if (n != in[s][k].size) sim::violation("msg.payload", "phase %ld: rank %d block %ld from %d announces %d bytes, packed %ld", ph, nself, k, s, n, in[s][k].size);
      unsigned char* p = n ? (unsigned char*)PCU_Comm_Extract(n) : nullptr;
      for (long i = 0; i < n; i++)
        if (p[i] != pat(ph, s, nself, k, i)) sim::violation("msg.payload", "phase %ld: rank %d block %ld from %d differs at byte %ld", ph, nself, k, s, i);
      sim::yieldPoint("unpacked");
    }
  } else if (mode == "write") {
    int from; void* data; size_t size;
    while (PCU_Comm_Read(&from, &data, &size)) {
      if (from < 0 || from >= P) sim::violation("msg.sender", "phase %ld: rank %d reads a message from invalid rank %d", ph, nself, from);
      if (order && from < last) sim::violation("msg.order", "phase %ld: rank %d reads from %d after %d in ordered mode", ph, nself, from, last);
      last = from;
      long k = got[from]++;
      if (k >= (long)in[from].size()) sim::violation("msg.extra", "phase %ld: rank %d reads %ld message(s) from %d but only %zu were written", ph, nself, k + 1, from, in[from].size());
      if ((long)size != in[from][k].size) sim::violation("msg.payload", "phase %ld: rank %d message %ld from %d has %zu bytes, %ld were written", ph, nself, k, from, size, in[from][k].size);
      for (long i = 0; i < (long)size; i++)
        if (((unsigned char*)data)[i] != pat(ph, from, nself, k, i)) sim::violation("msg.payload", "phase %ld: rank %d message %ld from %d differs at byte %ld", ph, nself, k, from, i);
      sim::yieldPoint("read");
    }
  } else {
    while (PCU_Comm_Listen()) {
      int s = PCU_Comm_Sender();
      if (s < 0 || s >= P) sim::violation("msg.sender", "phase %ld: rank %d receives a message from invalid rank %d", ph, nself, s);
      int f2 = -1; PCU_Comm_From(&f2);
      if (f2 != s) sim::violation("msg.sender", "phase %ld: two sender queries disagree: %d vs %d", ph, s, f2);
      if (seenSender[s]++) sim::violation("msg.extra", "phase %ld: rank %d receives from %d more than once", ph, nself, s);
      if (order && s < last) sim::violation("msg.order", "phase %ld: rank %d receives from %d after %d in ordered mode", ph, nself, s, last);
      last = s;
      size_t tot = 0; PCU_Comm_Received(&tot);
      size_t want = 0; for (auto& m : in[s]) want += sizeof(int) + m.size;
      if (tot != want) sim::violation("msg.payload", "phase %ld: rank %d receives %zu bytes from %d, %zu were packed", ph, nself, tot, s, want);
      long k = 0;
      for (auto& m : in[s]) {
        if (PCU_Comm_Unpacked()) sim::violation("msg.payload", "phase %ld: rank %d finds the buffer from %d exhausted after %ld of %zu blocks", ph, nself, s, k, in[s].size());
        int n = -1; PCU_COMM_UNPACK(n);
        if (n != m.size) sim::violation("msg.payload", "phase %ld: rank %d block %ld from %d announces %d bytes, packed %ld", ph, nself, k, s, n, m.size);
        std::vector<unsigned char> b(n + 1);
        if (n % 2) { void* p = PCU_Comm_Extract(n); memcpy(b.data(), p, n); }
        else PCU_Comm_Unpack(b.data(), n);
        for (long i = 0; i < n; i++)
          if (b[i] != pat(ph, s, nself, k, i)) sim::violation("msg.payload", "phase %ld: rank %d block %ld from %d differs at byte %ld", ph, nself, k, s, i);
        k++; got[s]++;
      }
      if (!PCU_Comm_Unpacked()) sim::violation("msg.payload", "phase %ld: rank %d has unread bytes left in the buffer from %d", ph, nself, s);
      sim::yieldPoint("unpacked");
    }
  }
  for (int s = 0; s < P; s++)
    if (got[s] != (long)in[s].size()) sim::violation("msg.lost", "phase %ld: rank %d received %ld of the %zu message(s) sent by %d before the phase ended", ph, nself, got[s], in[s].size(), s);
}

static void phasesOn(const sim::Spec& sp, long ctx, int self, int P) {
  const std::vector<sim::Op>& ops = sp.ops;
  for (size_t i = 0; i < ops.size(); i++) {
    if (ops[i].a[0] != "p") continue;
    std::vector<M> ms;
    for (size_t j = i + 1; j < ops.size() && ops[j].a[0] != "p"; j++)
      if (ops[j].a[0] == "m") {
        M m = {(int)(toL(ops[j].a[1]) % P), (int)(toL(ops[j].a[2]) % P), toL(ops[j].a[3])};
        ms.push_back(m);
      }
    runPhase((long)i + ctx * 1000, ms, ops[i].a[1], toL(ops[i].a[2]), self, P);
    sim::probe("msg.phases");
    if (toL(ops[i].a[3]) == 1) PCU_Barrier();
    if (toL(ops[i].a[3]) == 2) { long s = PCU_Add_Long(self + 1); if (s != (long)P * (P + 1) / 2) sim::violation("coll.value", "sum over ranks right after a phase is %ld, expected %ld", s, (long)P * (P + 1) / 2); }
  }
}

WORKLOAD(msg) {
  const sim::Spec& sp = sim::spec();
  PCU_Comm_Init();
  sim::setMallocFail(true);
  phasesOn(sp, 0, PCU_Comm_Self(), PCU_Comm_Peers());
  sim::setMallocFail(false);
  PCU_Comm_Free();
}

// ---- collectives -----------------------------------------------------------
static double val(const sim::Op& o, int r, int i) {
  uint64_t h = strtoull(o.a[3].c_str(), 0, 10) + r * 1315423911ULL + i * 2654435761ULL;
  h ^= h >> 13; h *= 0x9e3779b97f4a7c15ULL; h ^= h >> 29;
  long x = (long)(h % 2000001) - 1000000;
  int style = (int)(strtoull(o.a[3].c_str(), 0, 10) % 4);
  if (style == 1) return (double)(x % 3);
  if (style == 2) return (double)(-labs(x) - 1);       // all negative
  if (style == 3) return (double)(labs(x) + 1);        // all positive
  return (double)x;
}
static bool wideOp(const sim::Op& o) { return strtoull(o.a[3].c_str(), 0, 10) % 3 == 1; }
// the same values in the element type, in a third of the collectives spread
// over its whole width (sums of eight stay exact)
template <class T> struct As;
template <> struct As<int> { static int of(const sim::Op& o, int r, int i) { long x = (long)val(o, r, i); return (int)(wideOp(o) ? x * 250 : x); } };
template <> struct As<long> { static long of(const sim::Op& o, int r, int i) { long x = (long)val(o, r, i); return wideOp(o) ? x * 1099511627791L + i : x; } };
template <> struct As<size_t> { static size_t of(const sim::Op& o, int r, int i) { size_t x = (size_t)labs((long)val(o, r, i)); return wideOp(o) ? x * 2000000000003UL + i : x; } };
template <> struct As<double> { static double of(const sim::Op& o, int r, int i) { double x = val(o, r, i); return wideOp(o) ? x * 262144.0 + x / 1024 : x; } };
template <class T> static void checkVec(const char* what, const std::vector<T>& got, const std::vector<T>& want) {
  for (size_t i = 0; i < got.size(); i++)
    if (got[i] != want[i]) sim::violation("coll.value", "rank %d: %s element %zu is %g, reference says %g", sim::rank(), what, i, (double)got[i], (double)want[i]);
}
static long firstEnter;  // per rank copy
WORKLOAD(coll) {
  const sim::Spec& sp = sim::spec();
  PCU_Comm_Init();
  int me = PCU_Comm_Self(), P = PCU_Comm_Peers();
  long idx = 0;
  for (auto& o : sp.ops) {
    idx++;
    if (o.a[0] == "p") {
      std::vector<M> ms;
      long cnt = toL(o.a[2]);
      for (long k = 0; k < cnt; k++) { uint64_t h = strtoull(o.a[3].c_str(), 0, 10) * 77 + k * 977; ms.push_back({(int)((h >> 3) % P), (int)((h >> 9) % P), (long)(h % 90)}); }
      runPhase(idx, ms, "pack", toL(o.a[1]) & 1, me, P);
      continue;
    }
    std::string op = o.a[0], ty = o.a[1];
    int n = (int)toL(o.a[2]);
    sim::probe(("coll." + op + "." + ty).c_str());
    if (op == "barrier") {
      // no rank may leave before the last one has entered
      sim::submitBlob((int)idx * 2, "enter", {1.0});
      PCU_Barrier();
      sim::submitBlob((int)idx * 2 + 1, "leave", {1.0});
      continue;
    }
    if (op == "or" || op == "and") {
      int mine = (int)val(o, me, 0) & 1, want = op == "and";
      if (n > 3) mine = op == "and" ? 1 : 0;                         // unanimous
      if (n == 3) mine = (me == (int)(strtoull(o.a[3].c_str(), 0, 10) % P)) ? (op == "or") : (op == "and");  // one dissenter
      for (int r = 0; r < P; r++) {
        int x = (int)val(o, r, 0) & 1;
        if (n > 3) x = op == "and" ? 1 : 0;
        if (n == 3) x = (r == (int)(strtoull(o.a[3].c_str(), 0, 10) % P)) ? (op == "or") : (op == "and");
        if (op == "or") want |= x; else want &= x;
      }
      int got = op == "or" ? PCU_Or(mine) : PCU_And(mine);
      if ((got != 0) != (want != 0)) sim::violation("coll.value", "rank %d: logical %s is %d, reference says %d", me, op.c_str(), got, want);
      continue;
    }
#define RUN(T, NAME, REF, CALLN, CALL1)                                                   \
  {                                                                                       \
    std::vector<T> v(n), w(n);                                                            \
    for (int i = 0; i < n; i++) {                                                         \
      v[i] = As<T>::of(o, me, i);                                                           \
      REF;                                                                                \
    }                                                                                     \
    T one = n ? v[0] : 0;                                                                 \
    std::string nm = op + "." + ty;                                                       \
    if (n == 1 && (strtoull(o.a[3].c_str(), 0, 10) & 16)) { T g1 = CALL1(one); std::vector<T> q(1, g1); checkVec(nm.c_str(), q, w); } \
    else { CALLN(v.data(), (size_t)n); checkVec(nm.c_str(), v, w); }                      \
    done = true;                                                                          \
  }
#define RSUM(T) { w[i] = 0; for (int r = 0; r < P; r++) w[i] = (T)(w[i] + As<T>::of(o, r, i)); }
#define RMIN(T) { w[i] = As<T>::of(o, 0, i); for (int r = 1; r < P; r++) if (As<T>::of(o, r, i) < w[i]) w[i] = As<T>::of(o, r, i); }
#define RMAX(T) { w[i] = As<T>::of(o, 0, i); for (int r = 1; r < P; r++) if (As<T>::of(o, r, i) > w[i]) w[i] = As<T>::of(o, r, i); }
#define REXS(T) { w[i] = 0; for (int r = 0; r < me; r++) w[i] = (T)(w[i] + As<T>::of(o, r, i)); }
    bool done = false;
    if (op == "add" && ty == "double") RUN(double, "", RSUM(double), PCU_Add_Doubles, PCU_Add_Double)
    if (op == "add" && ty == "int") RUN(int, "", RSUM(int), PCU_Add_Ints, PCU_Add_Int)
    if (op == "add" && ty == "long") RUN(long, "", RSUM(long), PCU_Add_Longs, PCU_Add_Long)
    if (op == "add" && ty == "size") RUN(size_t, "", RSUM(size_t), PCU_Add_SizeTs, PCU_Add_SizeT)
    if (op == "min" && ty == "double") RUN(double, "", RMIN(double), PCU_Min_Doubles, PCU_Min_Double)
    if (op == "min" && ty == "int") RUN(int, "", RMIN(int), PCU_Min_Ints, PCU_Min_Int)
    if (op == "min" && ty == "size") RUN(size_t, "", RMIN(size_t), PCU_Min_SizeTs, PCU_Min_SizeT)
    if (op == "max" && ty == "double") RUN(double, "", RMAX(double), PCU_Max_Doubles, PCU_Max_Double)
    if (op == "max" && ty == "int") RUN(int, "", RMAX(int), PCU_Max_Ints, PCU_Max_Int)
    if (op == "max" && ty == "size") RUN(size_t, "", RMAX(size_t), PCU_Max_SizeTs, PCU_Max_SizeT)
    if (op == "exscan" && ty == "int") RUN(int, "", REXS(int), PCU_Exscan_Ints, PCU_Exscan_Int)
    if (op == "exscan" && ty == "long") RUN(long, "", REXS(long), PCU_Exscan_Longs, PCU_Exscan_Long)
    if (!done) { fprintf(stderr, "unknown collective %s %s\n", op.c_str(), ty.c_str()); _Exit(95); }
    if (toL(o.a[4]) == 1) sim::yieldPoint("between");
  }
  (void)firstEnter;
  PCU_Comm_Free();
}

// ---- communicator switching ------------------------------------------------
// ops: "split <c0,c1,...>" switches every rank to its colour's communicator,
// "p"/"m" lines run a phase on the current communicator (ranks are local to the
// group), "sum" a collective there, "back" returns to the world.
WORKLOAD(comm) {
  const sim::Spec& sp = sim::spec();
  bool eng = sp.num("engpar_layer", 0);
  // EnGPar starts and stops the messaging layer itself unless its user did
  bool alone = sp.num("engpar_layer", 0) == 2;
  if (sp.num("engpar_layer", 0) == 3) {  // an earlier session of its own
    EnGPar_Initialize(-1);
    long all = PCU_Add_Long(1);
    if (all != sim::nranks()) sim::violation("comm.collective", "in a session EnGPar_Initialize started, a sum of ones over all %d ranks is %ld", sim::nranks(), all);
    EnGPar_Finalize();
    if (PCU_Comm_Initialized()) sim::violation("comm.life", "EnGPar_Finalize left running the messaging layer that EnGPar_Initialize had started");
  }
  if (!alone) PCU_Comm_Init();
  if (eng) EnGPar_Initialize(-1);
  if (!PCU_Comm_Initialized()) sim::violation("comm.life", "the messaging layer is not ready after initialisation");
  int W = sim::rank(), NW = sim::nranks();
  std::vector<MPI_Comm> made;
  long phases = 0;
  std::vector<int> group;  // world ranks of my current group in order
  bool skip = false;       // the next collective or phase is for the other groups only
  auto toWorld = [&] { group.clear(); for (int i = 0; i < NW; i++) group.push_back(i); };
  toWorld();
  for (size_t i = 0; i < sp.ops.size(); i++) {
    const sim::Op& o = sp.ops[i];
    if (o.a[0] == "split") {
      std::vector<int> col, key;
      int nk = 0;
      for (int r = 0; r < NW; r++) { col.push_back((int)toL(o.a[1 + (r % (o.a.size() - 1))]) % 3); key.push_back(0); nk++; }
      bool rev = o.a[1] == "1";
      for (int r = 0; r < NW; r++) key[r] = rev ? NW - r : r;
      MPI_Comm c;
      MPI_Comm_split(MPI_COMM_WORLD, col[W], key[W], &c);
      made.push_back(c);
      if (eng) EnGPar_Switch_Comm(c); else PCU_Switch_Comm(c);
      group.clear();
      for (int r = 0; r < NW; r++) { int q = rev ? NW - 1 - r : r; if (col[q] == col[W]) group.push_back(q); }
      sim::probe("comm.split");
    } else if (o.a[0] == "back") {
      if (eng) EnGPar_Switch_Comm(MPI_COMM_WORLD); else PCU_Switch_Comm(MPI_COMM_WORLD);
      toWorld();
    } else if (o.a[0] == "self") {
      PCU_Switch_Comm(MPI_COMM_SELF);
      group.assign(1, W);
    } else if (o.a[0] == "only") {
      bool has0 = std::count(group.begin(), group.end(), 0);
      skip = has0 != (toL(o.a[1]) == 0);
      continue;
    } else if (skip && (o.a[0] == "sum" || o.a[0] == "scan" || o.a[0] == "p")) {
      skip = false;
    } else if (o.a[0] == "scan") {
      long want = 0; for (int r : group) { if (r == W) break; want += r * 10 + 1; }
      long got = PCU_Exscan_Long(W * 10 + 1);
      if (got != want) sim::violation("comm.collective", "world rank %d: a prefix sum over its group is %ld, expected %ld", W, got, want);
      std::string key = std::to_string(i) + "." + std::to_string(*std::min_element(group.begin(), group.end()));
      sim::tally(key, 1);
      PCU_Barrier();
      if (sim::tally(key, 0) != (long)group.size()) sim::violation("barrier.early", "world rank %d left a barrier of its group of %zu when %ld had entered", W, group.size(), sim::tally(key, 0));
    } else if (o.a[0] == "sum") {
      long want = 0; for (int r : group) want += r * 10 + 1;
      long got = PCU_Add_Long(W * 10 + 1);
      if (got != want) sim::violation("comm.collective", "world rank %d: a sum over its group is %ld, the group's members sum to %ld", W, got, want);
      int mx = PCU_Max_Int(W), wm = *std::max_element(group.begin(), group.end());
      if (mx != wm) sim::violation("comm.collective", "world rank %d: a max over its group is %d, expected %d", W, mx, wm);
    } else if (o.a[0] == "p") {
      std::vector<M> ms;
      int P = (int)group.size();
      for (size_t j = i + 1; j < sp.ops.size() && sp.ops[j].a[0] == "m"; j++)
        ms.push_back({(int)(toL(sp.ops[j].a[1]) % P), (int)(toL(sp.ops[j].a[2]) % P), toL(sp.ops[j].a[3])});
      int self = -1; for (int k = 0; k < P; k++) if (group[k] == W) self = k;
      runPhase((long)i + 7000 * (group[0] + 1), ms, o.a[1], toL(o.a[2]), self, P);
      phases++;
    }
    skip = false;
    int self = -1; for (size_t k = 0; k < group.size(); k++) if (group[k] == W) self = (int)k;
    if (PCU_Comm_Self() != self || PCU_Comm_Peers() != (int)group.size())
      sim::violation("comm.identity", "world rank %d sees itself as %d of %d, expected %d of %zu", W, PCU_Comm_Self(), PCU_Comm_Peers(), self, group.size());
    int r2, s2; PCU_Comm_Rank(&r2); PCU_Comm_Size(&s2);
    int pr, ps; MPI_Comm_rank(PCU_Get_Comm(), &pr); MPI_Comm_size(PCU_Get_Comm(), &ps);
    if (r2 != self || s2 != (int)group.size() || PCU_Proc_Self() != self || PCU_Proc_Peers() != s2 || pr != self || ps != (int)group.size())
      sim::violation("comm.identity", "world rank %d: rank/size queries disagree about the current communicator", W);
  }
  if (eng) { EnGPar_Switch_Comm(MPI_COMM_WORLD); } else PCU_Switch_Comm(MPI_COMM_WORLD);
  toWorld();
  long want = (long)NW * (NW - 1) / 2, got = PCU_Add_Long(W);
  if (got != want) sim::violation("comm.collective", "after returning to the full communicator a sum over all ranks is %ld, expected %ld", got, want);
  for (auto& c : made) MPI_Comm_free(&c);
  if (eng) EnGPar_Finalize();
  if (PCU_Comm_Initialized() == alone) sim::violation("comm.life", "world rank %d: EnGPar_Finalize %s the messaging layer that %s had started", W, alone ? "left running" : "stopped", alone ? "EnGPar_Initialize" : "its user");
  if (!alone) PCU_Comm_Free();
  if (PCU_Comm_Initialized()) sim::violation("comm.life", "the messaging layer is still running after it was stopped");
}
