// The simulated heap's hostile placement.  With the `fence` knob on, every
// block a rank's own code allocates ends at an inaccessible page and becomes
// inaccessible when it is released, so a read or write past the end, or after
// the release, ends the run at that instruction instead of depending on what
// happens to lie there.
#include "simcore.h"
#include <dlfcn.h>
#include <link.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <map>
#include <new>

namespace sim {
extern __thread int tlsRank;
static bool on;
static int fill = 0x5b;
static const size_t SPAN = 1ull << 31, PG = 4096;
static char* base; static size_t brkPg;
struct Slot { size_t bytes; uint32_t pages; uint32_t state; uintptr_t ra; };   // state: 1 live, 2 released
static Slot* slots;
static long live, nFenced;
static struct { uintptr_t lo, hi; } mods[16]; static int nmods;
static void reserve() {
  if (base) return;
  base = (char*)mmap((void*)0x200000000000ull, SPAN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  slots = (Slot*)mmap(0, SPAN / PG * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED || slots == MAP_FAILED) { base = nullptr; on = false; }
}
static int eachMod(dl_phdr_info* i, size_t, void*) {
  if (i->dlpi_name && strstr(i->dlpi_name, "librank_") && nmods < 16) {
    uintptr_t lo = ~0ull, hi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
      uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
      if (a < lo) lo = a;
      if (b > hi) hi = b;
    }
    mods[nmods].lo = lo; mods[nmods++].hi = hi;
  }
  return 0;
}
void fenceOn(int f) { fill = f; reserve(); dl_iterate_phdr(eachMod, nullptr); on = base != nullptr; }
long fenceCount() { return nFenced; }
static inline bool inFence(const void* p) { return base && (const char*)p >= base && (const char*)p < base + SPAN; }
static const unsigned char CAN = 0xC5;
static void* take(size_t n, size_t align, void* ra = nullptr) {
  reserve();
  if (!base) return nullptr;
  size_t pages = (n + PG - 1) / PG; if (!pages) pages = 1;
  if (brkPg + pages + 1 > SPAN / PG || live > 28000 || nFenced >= 100000) return nullptr;
  char* s = base + brkPg * PG;
  if (n && mprotect(s, pages * PG, PROT_READ | PROT_WRITE)) return nullptr;
  size_t span = (n + align - 1) / align * align;
  char* p = s + pages * PG - span;
  if (!n) p = s;   // nothing of an empty block may be touched
  else { memset(s, CAN, p - s); memset(p, fill, n); memset(p + n, CAN, span - n); }
  Slot& k = slots[brkPg]; k.bytes = n; k.pages = (uint32_t)pages; k.state = 1; k.ra = (uintptr_t)ra;
  brkPg += pages + 1; live++; nFenced++;
  return p;
}
static Slot* slotOf(void* p) {
  size_t pg = ((char*)p - base) / PG;
  return &slots[pg];
}
static void give(void* p) {
  Slot* k = slotOf(p);
  if (k->state != 1) violation("memory.free", "a block is released %s", k->state == 2 ? "twice" : "that was never allocated");
  char* end = base + (k - slots) * PG + k->pages * PG;
  for (char* c = (char*)p + k->bytes; k->bytes && c < end; c++) if (*(unsigned char*)c != CAN) violation("memory.overrun", "a block of %zu bytes was written past its end (before it was released)", k->bytes);
  for (char* c = base + (k - slots) * PG; k->bytes && c < (char*)p; c++) if (*(unsigned char*)c != CAN) violation("memory.overrun", "a block of %zu bytes was written before its start (before it was released)", k->bytes);
  k->state = 2; live--;
  char* s = base + (k - slots) * PG;
  mprotect(s, k->pages * PG, PROT_NONE);
  if (brkPg > 100000) madvise(s, k->pages * PG, MADV_DONTNEED);
}
// what the address of a memory fault says
const char* fenceWhat(const void* a, size_t* bytes) {
  if (!inFence(a)) return nullptr;
  long pg = ((const char*)a - base) / PG;
  if ((size_t)pg >= brkPg) return "memory that was never allocated";
  for (long q = pg; q >= 0; q--) if (slots[q].state) {
    *bytes = slots[q].bytes;
    if (pg < q + (long)slots[q].pages) return slots[q].state == 2 ? "a block after it was released" : slots[q].bytes ? nullptr : "an empty block";
    return slots[q].state == 2 ? "past the end of a released block" : "past the end of a block";
  }
  return nullptr;
}
static inline bool wanted(void* ra) {
  if (!on || tlsRank < 0) return false;
  uintptr_t a = (uintptr_t)ra;
  for (int i = 0; i < nmods; i++) if (a >= mods[i].lo && a < mods[i].hi) return true;
  return false;
}
// blocks still held: (caller's offset in its rank's code, blocks, bytes)
void fenceHeld(std::map<uintptr_t, std::pair<long, size_t>>& m) {
  for (size_t i = 0; i < brkPg; i++) if (slots[i].state == 1 && slots[i].ra) {
    uintptr_t o = slots[i].ra;
    for (int k = 0; k < nmods; k++) if (o >= mods[k].lo && o < mods[k].hi) { o -= mods[k].lo; break; }
    m[o].first++; m[o].second += slots[i].bytes;
  }
}
// after every rank has returned: nothing may be left
void fenceEmpty() {
  std::map<uintptr_t, std::pair<long, size_t>> m; fenceHeld(m);
  if (m.empty()) return;
  std::string t; long blocks = 0; size_t bytes = 0;
  for (auto& x : m) {
    blocks += x.second.first; bytes += x.second.second;
    Dl_info d; memset(&d, 0, sizeof d);
    if (t.size() < 1500 && dladdr((void*)(mods[0].lo + x.first - 1), &d) && d.dli_sname) t += std::string(t.empty() ? "" : ", ") + d.dli_sname;
  }
  violation("memory.held", "every object has been destroyed, %ld block(s) of %zu bytes in all are still allocated; they came from %s", blocks, bytes, t.c_str());
}
void* fenceMalloc(size_t n, void* ra) { if (on && tlsRank >= 0) { void* p = take(n, 16, ra); if (p) return p; } return malloc(n); }
void* fenceCalloc(size_t a, size_t b, void* ra) { if (on && tlsRank >= 0 && (!b || a < SPAN / b)) { void* p = take(a * b, 16, ra); if (p) { memset(p, 0, a * b); return p; } } return calloc(a, b); }
void fenceFree(void* p) { if (inFence(p)) give(p); else free(p); }
void* fenceRealloc(void* p, size_t n, void* ra) {
  if (!inFence(p) && !(on && tlsRank >= 0)) return realloc(p, n);
  if (!p) return fenceMalloc(n, ra);
  if (!inFence(p)) return realloc(p, n);
  void* q = fenceMalloc(n, ra); if (!q) return q;
  size_t old = slotOf(p)->bytes;
  memcpy(q, p, old < n ? old : n); give(p);
  return q;
}
}  // namespace sim

// a caller's own array: ends exactly at an inaccessible page
extern "C" __attribute__((visibility("default"))) void* simArray(size_t bytes, size_t align) {
  void* p = sim::take(bytes, align); return p ? p : malloc(bytes);
}
extern "C" __attribute__((visibility("default"))) void simArrayFree(void* p) { sim::fenceFree(p); }

#define RA __builtin_return_address(0)
static inline void* plain(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { if (sim::wanted(RA)) if (void* p = sim::take(n, 16, RA)) return p; return plain(n); }
void* operator new[](size_t n) { if (sim::wanted(RA)) if (void* p = sim::take(n, 16, RA)) return p; return plain(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { sim::fenceFree(p); }
void operator delete[](void* p) noexcept { sim::fenceFree(p); }
void operator delete(void* p, size_t) noexcept { sim::fenceFree(p); }
void operator delete[](void* p, size_t) noexcept { sim::fenceFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::fenceFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::fenceFree(p); }
