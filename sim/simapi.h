// Interface between the simulator (main executable) and the per-rank shared
// object (EnGPar's real code + workload).  Everything here is exported by the
// executable and bound by each dlopen()ed rank copy.
#ifndef SIMAPI_H
#define SIMAPI_H
#include <cstdint>
#include <cstddef>
#include <map>
#include <string>
#include <vector>

namespace sim {

typedef int64_t gid;

// ---------------------------------------------------------------- scenario
struct GVert { gid id; int owner; double w; double xyz[3]; };
struct GEdge { int type; gid id; double w; std::vector<gid> pins; int home; };
struct Op { std::vector<std::string> a; };

// A Spec fully describes one simulated execution except for the scheduler /
// fault decisions (which are drawn from `seed` or read from `decisions`).
struct Spec {
  std::map<std::string, std::string> kv;
  std::vector<GVert> verts;
  std::vector<GEdge> edges;
  std::vector<Op> ops;
  std::string get(const std::string& k, const std::string& d = "") const {
    auto it = kv.find(k);
    return it == kv.end() ? d : it->second;
  }
  long num(const std::string& k, long d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : strtol(it->second.c_str(), 0, 10);
  }
  double real(const std::string& k, double d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : strtod(it->second.c_str(), 0);
  }
};

// ---------------------------------------------------------------- observation
// What one rank can see of the distributed graph through the public API.
struct DumpEdge {
  int type; gid id; double w; std::vector<gid> pins; std::vector<int> pinOwner;
  std::vector<int> residence; int cut; int degree;
};
struct DumpVert {
  gid id; double w; double xyz[3]; int orig; int owner;
  std::vector<int> degree;                        // per type
  std::vector<std::vector<gid>> edges;            // per type: edge ids (hyper) / neighbour gids (trad)
  std::vector<std::vector<gid>> adj;              // per type: graph-iterator neighbours
};
struct DumpGhost { gid id; int owner; double w; bool hasW; };
struct Dump {
  int rank = -1, self = -1, peers = -1;
  bool hyper = false, coords = false, hasOrig = false;
  int ntypes = 0;
  gid gverts = 0;
  std::vector<gid> gedges, gpins;
  int lverts = 0, ghosts = 0, tverts = 0;
  std::vector<gid> ledges, lpins;
  std::vector<DumpVert> verts;
  std::vector<DumpGhost> ghost;
  std::vector<DumpEdge> edges;
};

// ---------------------------------------------------------------- rank side API
int rank();                                 // world rank of the calling thread
int nranks();
const Spec& spec();
int job();                                  // 0 = first incarnation, 1 = after restart
// Deposit observation `d` for checkpoint `step`; when every rank has done so
// the oracle callback registered for this workload runs.
void submit(int step, const Dump& d);
void submitBlob(int step, const std::string& name, const std::vector<double>& v);
[[noreturn]] void violation(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char* name, long n = 1);   // coverage probe
void event(uint64_t h);                     // fold into the event log hash
int choose(const char* kind, int n);        // scheduler decision (0 is the benign default)
void yieldPoint(const char* what);          // a preemption point outside MPI / IO
uint64_t workloadRand(uint64_t stream, uint64_t idx);  // pure function of the seed
double simNow();
bool faultFired();                          // some I/O / allocation fault was delivered
void setFaults(bool on);                    // enable/disable I/O fault injection for this rank
void setMallocFail(bool on);
bool diskExists(const std::string& path);
bool diskGet(const std::string& path, std::string& out);
void diskPut(const std::string& path, const std::string& bytes);
void diskRemove(const std::string& path);
std::vector<std::string> diskList();
long tally(const std::string& key, long add);   // a counter all ranks share
void phase(const char* name);               // free-form progress marker, shows up in reports
[[noreturn]] void refuse(const char* why);   // the library reported failure and the job gives up
[[noreturn]] void notBuilt(const char* why);   // no answer
[[noreturn]] void refuseRightly(const char* why);   // the same, where that is the answer the library has to give
[[noreturn]] void crashNow(const char* why);

// A caller's own array: a copy of [p, p+n) that ends exactly at an
// inaccessible page, and is inaccessible once the handle is gone.
}  // namespace sim
extern "C" void* simArray(size_t bytes, size_t align);
extern "C" void simArrayFree(void* p);
namespace sim {
template <class T> struct Array {
  T* p;
  explicit Array(const std::vector<T>& v) : p((T*)simArray(v.size() * sizeof(T), sizeof(T))) { for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; }
  ~Array() { simArrayFree(p); }
  operator T*() { return p; }
  Array(const Array&) = delete;
};
}  // namespace sim
#endif
