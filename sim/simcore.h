// Simulator kernel: scheduler, simulated MPI, simulated disk, clocks, faults.
#ifndef SIMCORE_H
#define SIMCORE_H
#include "simapi.h"
#include <functional>
#include <string>
#include <vector>

namespace sim {

enum Status { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_FAILSTOP = 3, ST_CRASHED = 4, ST_LOGIC = 5 };

const int MAXDEC = 200000;
const int MAXCNT = 192;
const int ARENA_FILES = 64;
const size_t ARENA_BYTES = 1 << 19;

struct DiskFile { char name[1024]; int used; uint32_t size; uint32_t durable; unsigned char data[ARENA_BYTES]; };
struct Disk { DiskFile f[ARENA_FILES]; };

struct Dec { uint32_t kind; uint32_t idx; int32_t val; };

// Lives in memory shared between a driver worker and the forked run.
struct Result {
  int status;
  char cls[96];
  char msg[3072];
  char phase[96];
  char failwhy[256];
  int refused;          // the job ends because the library refused what it has to refuse
  uint64_t hash;        // hash of the full event log
  uint64_t shape;       // hash of the interleaving only (who ran / what was delivered)
  uint64_t steps, simtime, switches, messages, bytes, decisions;
  int faultFired;       // I/O or allocation faults delivered
  int ncnt;
  struct { char name[48]; uint64_t n; } cnt[MAXCNT];
  int ndec, decOverflow;
  Dec dec[MAXDEC];
};

struct Hooks {
  // called (under the token) when all ranks deposited checkpoint `step`
  std::function<void(int step, std::vector<Dump>& d)> onDump;
  std::function<void(int step, const std::string& name, std::vector<std::vector<double>>& v)> onBlob;
  std::function<void(int step, const std::string& name)> onFirstBlob;  // first rank to deposit
  std::function<void()> onEnd;   // all ranks returned normally
};

struct RunCfg {
  const Spec* spec;
  int job = 0;
  uint64_t seed = 1;
  bool replay = false;              // decisions come from `dec`, default 0
  std::vector<Dec> dec;
  Result* res;
  Disk* disk;
  Hooks hooks;
};

typedef void (*rank_main_t)();
// Runs the ranks to completion in this process; never returns (calls _exit).
[[noreturn]] void runInChild(RunCfg& cfg, const std::vector<rank_main_t>& mains);

uint64_t mix64(uint64_t x);
uint32_t kindId(const char* name);
const char* kindName(uint32_t id);

// fence.cpp
void fenceOn(int fill);
void fenceHeld(std::map<uintptr_t, std::pair<long, size_t>>& m);
void fenceEmpty();
void* fenceMalloc(size_t n, void* ra);
void* fenceCalloc(size_t a, size_t b, void* ra);
void* fenceRealloc(void* p, size_t n, void* ra);
void fenceFree(void* p);
const char* fenceWhat(const void* a, size_t* bytes);

}  // namespace sim
#endif
