// Workload over PCU's portable typed files and per-process debug files.
#include "common.h"
#include <pcu_io.h>
extern "C" {
#include <noto_malloc.h>
}

static uint64_t hx(uint64_t a, uint64_t b, uint64_t c) { uint64_t h = a * 0x9e3779b97f4a7c15ULL ^ (b + 1) * 0xbf58476d1ce4e5b9ULL ^ (c + 1) * 0x94d049bb133111ebULL; h ^= h >> 31; h *= 0xd6e8feb86659fd93ULL; return h ^ (h >> 29); }
// element i of the block `seed` as rank r wrote it
static uint64_t bits(long seed, int r, long i) { uint64_t h = hx(seed, r, i); int k = (int)(h % 16); return k == 0 ? 0 : k == 1 ? ~0ULL : k == 2 ? 1 : k == 3 ? 0x80000000u : hx(h, 3, 7); }
static std::string text(long seed, int r, long n) { std::string s; for (long i = 0; i < n; i++) s += (char)(1 + bits(seed, r, i) % 255); return s; }
static void big(std::string& f, uint64_t v, int bytes) { for (int i = bytes - 1; i >= 0; i--) f += (char)(v >> (8 * i)); }
static double asD(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }

// what the file of rank r must contain: big-endian, nothing else
static std::string image(const std::vector<sim::Op>& ops, size_t lo, size_t hi, int r) {
  std::string f;
  for (size_t i = lo; i < hi; i++) {
    char k = ops[i].a[0][0]; long n = toL(ops[i].a[1]), seed = toL(ops[i].a[2]);
    if (k == 's') { f += text(seed, r, n); f += '\0'; }
    else if (k == 'b') f += text(seed, r, n);
    else for (long j = 0; j < n; j++) big(f, bits(seed, r, j), k == 'u' ? 4 : 8);
  }
  return f;
}
static bool isData(const sim::Op& o) { return o.a[0] == "u" || o.a[0] == "d" || o.a[0] == "s" || o.a[0] == "b"; }

WORKLOAD(pio) {
  const sim::Spec& sp = sim::spec();
  PCU_Comm_Init();
  int self = PCU_Comm_Self(), P = PCU_Comm_Peers();
  const std::vector<sim::Op>& ops = sp.ops;
  std::string dbg; bool opened = false, maybe = false;
  for (size_t i = 0; i < ops.size(); i++) {
    const std::string& k = ops[i].a[0];
    sim::phase(k.c_str());
    if (k == "file") {
      // file NAME HOW SHIFT CUT
      size_t hi = i + 1; while (hi < ops.size() && isData(ops[hi])) hi++;
      std::string base = ops[i].a[1]; const std::string& how = ops[i].a[2];
      std::string mine = base + std::to_string(self);
      sim::setFaults(true);
      pcu_file* f = pcu_fopen(mine.c_str(), true, false);
      for (size_t j = i + 1; j < hi; j++) {
        char t = ops[j].a[0][0]; long n = toL(ops[j].a[1]), seed = toL(ops[j].a[2]);
        if (t == 's') pcu_write_string(f, text(seed, self, n).c_str());
        else if (t == 'b') { std::string s = text(seed, self, n); pcu_write(f, s.data(), n); }
        else if (t == 'u') {
          std::vector<unsigned> v; for (long q = 0; q < n; q++) v.push_back((unsigned)bits(seed, self, q));
          sim::Array<unsigned> a(v);
          if (n == 1 && seed % 2) PCU_WRITE_UNSIGNED(f, a[0]) else pcu_write_unsigneds(f, a, n);
          for (long q = 0; q < n; q++) if (a[q] != v[q]) sim::violation("pio.caller", "writing changed element %ld of the caller's array", q);
        } else {
          std::vector<double> v; for (long q = 0; q < n; q++) v.push_back(asD(bits(seed, self, q)));
          sim::Array<double> a(v);
          pcu_write_doubles(f, a, n);
          if (n && memcmp((double*)a, v.data(), n * 8)) sim::violation("pio.caller", "writing changed the caller's array");
        }
        sim::yieldPoint("written");
      }
      pcu_fclose(f);
      sim::setFaults(false);
      std::string want = image(ops, i + 1, hi, self), got;
      bool there = sim::diskGet(mine, got);
      if (!there || got != want) {
        size_t at = 0; while (at < got.size() && at < want.size() && got[at] == want[at]) at++;
        sim::violation("pio.bytes", "rank %d wrote and closed a file without an error, but it has %zu bytes where %zu were written, and differs from the big-endian image at byte %zu", self, got.size(), want.size(), at);
      }
      PCU_Barrier();
      int shift = (int)toL(ops[i].a[3]); long cut = toL(ops[i].a[4]);
      int src = how == "shift" ? (self + shift) % P : shift % P;
      std::string theirs = base + std::to_string(src);
      bool bad = false;
      if (cut == -2) bad = true;
      if (cut > 0 && image(ops, i + 1, hi, src).size() > 0) {
        bad = true;
        if (how == "shift" || self == src) { std::string b; sim::diskGet(mine, b); b.resize(b.size() > (size_t)cut ? b.size() - cut : 0); sim::diskPut(mine, b); }
      }
      PCU_Barrier();
      sim::setFaults(true);
      if (cut == -2) theirs += ".none";
      f = pcu_fopen(theirs.c_str(), false, false);
      for (size_t j = i + 1; j < hi; j++) {
        char t = ops[j].a[0][0]; long n = toL(ops[j].a[1]), seed = toL(ops[j].a[2]);
        if (t == 's') {
          char* p = 0; pcu_read_string(f, &p);
          if (text(seed, src, n) != p) sim::violation("pio.value", "rank %d reads another string than rank %d wrote (%zu characters, expected %ld)", self, src, strlen(p), n);
          noto_free(p);
        } else if (t == 'b') {
          sim::Array<char> a(std::vector<char>(n, 0)); pcu_read(f, a, n);
          if (n && memcmp((char*)a, text(seed, src, n).data(), n)) sim::violation("pio.value", "rank %d reads other bytes than rank %d wrote", self, src);
        } else if (t == 'u') {
          sim::Array<unsigned> a(std::vector<unsigned>(n, 0x5a5a5a5a));
          if (n == 1 && seed % 2) PCU_READ_UNSIGNED(f, a[0]) else pcu_read_unsigneds(f, a, n);
          for (long q = 0; q < n; q++) if (a[q] != (unsigned)bits(seed, src, q)) sim::violation("pio.value", "rank %d reads %u as element %ld, rank %d wrote %u", self, a[q], q, src, (unsigned)bits(seed, src, q));
        } else {
          sim::Array<double> a(std::vector<double>(n, 0.5)); pcu_read_doubles(f, a, n);
          for (long q = 0; q < n; q++) { uint64_t u; memcpy(&u, (double*)a + q, 8); if (u != bits(seed, src, q)) sim::violation("pio.value", "rank %d reads another double as element %ld than rank %d wrote", self, q, src); }
        }
        sim::yieldPoint("read");
      }
      if (bad) sim::violation("pio.short", "rank %d read a whole file that is not there in full", self);
      pcu_fclose(f);
      sim::setFaults(false);
      sim::probe("pio.file");
      PCU_Barrier();
      i = hi - 1;
    } else if (k == "dopen") {
      sim::setFaults(true); PCU_Debug_Open(); sim::setFaults(false);
      if (!opened && sim::faultFired()) maybe = true;   // the open may have failed: printing is then a no-op
      opened = true;
      sim::probe("pio.debug");
    } else if (k == "dprint") {
      long n = toL(ops[i].a[1]), seed = toL(ops[i].a[2]);
      for (long j = 0; j < n; j++) {
        std::string t = text(seed, self, (long)(hx(seed, self, j) % 40)); for (auto& c : t) if (c == '%') c = '_';
        char b[200]; snprintf(b, sizeof b, "%ld %d %g|", j, self, j * 0.25);
        PCU_Debug_Print("%ld %d %g|%s\n", j, self, j * 0.25, t.c_str());
        if (opened) dbg += b + t + "\n";
        std::string got, name = "debug" + std::to_string(self) + ".txt";
        bool there = sim::diskGet(name, got);
        if (!maybe && (there != opened || (there && got != dbg))) sim::violation("pio.debug", "rank %d printed %zu bytes to its debug file, which now %s %zu bytes", self, dbg.size(), there ? "has" : "does not exist:", got.size());
        sim::yieldPoint("printed");
      }
    } else if (k == "swap") {
      long n = toL(ops[i].a[1]), seed = toL(ops[i].a[2]);
      std::vector<unsigned> u; std::vector<double> d;
      for (long j = 0; j < n; j++) { u.push_back((unsigned)bits(seed, self, j)); d.push_back(asD(bits(seed, self, j))); }
      sim::Array<unsigned> a(u); sim::Array<double> b(d);
      pcu_swap_unsigneds(a, n); pcu_swap_doubles(b, n);
      for (long j = 0; j < n; j++) { uint64_t x; memcpy(&x, (double*)b + j, 8); if (a[j] != __builtin_bswap32(u[j]) || x != __builtin_bswap64(bits(seed, self, j))) sim::violation("pio.swap", "element %ld is not byte-reversed", j); }
      pcu_swap_unsigneds(a, n); pcu_swap_doubles(b, n);
      for (long j = 0; j < n; j++) { uint64_t x; memcpy(&x, (double*)b + j, 8); if (a[j] != u[j] || x != bits(seed, self, j)) sim::violation("pio.swap", "reversing element %ld twice does not give it back", j); }
    } else if (k == "talk") {
      // messages between file operations
      PCU_Comm_Begin();
      int v = self * 7 + (int)i; PCU_COMM_PACK((self + 1) % P, v);
      PCU_Comm_Send();
      int n = 0;
      while (PCU_Comm_Receive()) { int w; PCU_COMM_UNPACK(w); n++; if (w != PCU_Comm_Sender() * 7 + (int)i) sim::violation("msg.payload", "rank %d receives %d from %d", self, w, PCU_Comm_Sender()); }
      if (n != 1) sim::violation("msg.lost", "rank %d receives %d messages instead of 1", self, n);
    }
  }
  PCU_Comm_Free();
}
