// Workload over the graph data structure: construction, migration, partition
// map, tags.  Every op is executed by all ranks; after each one the whole
// observable state is handed to the oracle.
#include "common.h"
#include <algorithm>
using namespace agi;
void doSplit(Ngraph*& g, const sim::Op& o, MPI_Comm small, bool original, int step);  // wl_part.cpp
bool partOp(Ngraph* g, const sim::Op& o, int step, bool& orig);  // wl_part.cpp
int editOp(Ngraph* g, const sim::Op& o, int step);               // wl_edit.cpp

std::map<std::string, std::string> kvArgs(const sim::Op& o, size_t from);

static uint64_t hv(uint64_t a, uint64_t b, uint64_t c) {
  uint64_t h = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15) * 0xbf58476d1ce4e5b9ULL ^ c * 0x94d049bb133111ebULL;
  h ^= h >> 31; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32; return h;
}
// ghost tag callbacks run on the owner: the value names the vertex and the
// rank that evaluated it
static int tagSalt;
static int cbInt(Ngraph* g, GraphVertex* v) { sim::yieldPoint("cb"); return (int)(uint32_t)hv(g->globalID(v), PCU_Comm_Self(), tagSalt); }
static long cbLong(Ngraph* g, GraphVertex* v) { sim::yieldPoint("cb"); return (long)(hv(g->globalID(v), PCU_Comm_Self(), tagSalt + 1) % (1ull << 51) - (1ull << 50)); }
static double cbDouble(Ngraph* g, GraphVertex* v) { sim::yieldPoint("cb"); return (double)((int64_t)(hv(g->globalID(v), PCU_Comm_Self(), tagSalt + 2) % (1ull << 52)) - (int64_t)(1ull << 51)) / 64; }

static void doTags(Ngraph* g, int step, int salt, int which) {
  tagSalt = salt;
  GraphTag *ti = 0, *tl = 0, *td = 0;
  // local tags live at the same time as ghost tags
  GraphTag* lv = g->createLongTag(); GraphTag* li = g->createIntTag(); GraphTag* ld = g->createDoubleTag();
  std::vector<std::vector<GraphTag*>> et;
  for (int t = 0; t < g->numEdgeTypes(); t++) et.push_back({g->createIntTag(t), g->createDoubleTag(t), g->createLongTag(t)});
  VertexIterator* vi = g->begin(); GraphVertex* v;
  while ((v = g->iterate(vi))) { Gid id = g->globalID(v); g->setLongTag(lv, v, hv(id, 1, salt)); g->setIntTag(li, v, (int)hv(id, 2, salt)); g->setDoubleTag(ld, v, id / 3.0); }
  for (int t = 0; t < g->numEdgeTypes(); t++) {
    EdgeIterator* ei = g->begin(t); GraphEdge* e;
    while ((e = g->iterate(ei))) { Gid id = g->globalID(e); g->setIntTag(et[t][0], e, (int)hv(id, 3 + t, salt)); g->setDoubleTag(et[t][1], e, id / 7.0 + t); g->setLongTag(et[t][2], e, hv(id, 9 + t, salt)); }
    g->destroy(ei);
  }
  if (which & 1) ti = g->createIntGhostTag(cbInt);
  if (which & 2) tl = g->createLongGhostTag(cbLong);
  if (which & 4) td = g->createDoubleGhostTag(cbDouble);
  std::vector<double> out;
  GhostIterator* gi = g->beginGhosts();
  while ((v = g->iterate(gi))) {
    out.push_back((double)g->globalID(v));
    out.push_back(ti ? g->getIntTag(ti, v) : -1); out.push_back(tl ? (double)g->getLongTag(tl, v) : -1); out.push_back(td ? g->getDoubleTag(td, v) : -1);
    sim::probe("tags.ghost");
  }
  vi = g->begin();
  while ((v = g->iterate(vi))) {
    Gid id = g->globalID(v);
    if (g->getLongTag(lv, v) != (long)hv(id, 1, salt) || g->getIntTag(li, v) != (int)hv(id, 2, salt) || g->getDoubleTag(ld, v) != id / 3.0)
      sim::violation("tag.local", "rank %d reads back a different value from a vertex tag of %ld", sim::rank(), id);
  }
  for (int t = 0; t < g->numEdgeTypes(); t++) {
    EdgeIterator* ei = g->begin(t); GraphEdge* e;
    while ((e = g->iterate(ei))) {
      Gid id = g->globalID(e);
      if (g->getIntTag(et[t][0], e) != (int)hv(id, 3 + t, salt) || g->getDoubleTag(et[t][1], e) != id / 7.0 + t || g->getLongTag(et[t][2], e) != (long)hv(id, 9 + t, salt))
        sim::violation("tag.local", "rank %d reads back a different value from an edge tag of edge %ld type %d", sim::rank(), id, t);
    }
    g->destroy(ei);
    for (auto x : et[t]) g->destroyTag(x);
  }
  g->destroyTag(lv); g->destroyTag(li); g->destroyTag(ld);
  if (ti) g->destroyTag(ti); if (tl) g->destroyTag(tl); if (td) g->destroyTag(td);
  sim::submitBlob(step, "tags", out);
}

// Where every vertex is and what it weighs, written down by the first job and
// compared by the second.
static std::vector<std::string> splitLines(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
static std::string placement(Ngraph* g) {
  std::vector<std::pair<Gid, double>> v;
  VertexIterator* vi = g->begin(); GraphVertex* x;
  while ((x = g->iterate(vi))) v.push_back(std::make_pair(g->globalID(x), g->weight(x)));
  std::sort(v.begin(), v.end());
  std::string s; char b[80];
  for (auto& p : v) { snprintf(b, sizeof b, " %ld:%.17g", (long)p.first, p.second); s += b; }
  return s;
}

WORKLOAD(graph) {
  const sim::Spec& sp = sim::spec();
  PCU_Comm_Init();
  bool capi = sp.num("capi");
  if (sp.num("engpar_layer")) { if (capi) cengpar_initialize(); else EnGPar_Initialize(); }
  int self = PCU_Comm_Self(), world = self;
  bool jobs = sp.num("jobs", 1) > 1, first = sim::job() == 0;
  bool logging = sp.num(first ? "log1" : "log2");
  if (logging) EnGPar_Open_Log();
  if (sp.num("pcu_order")) PCU_Comm_Order(true);
  int var = (int)sp.num("variant", 0);
  bool coords = sp.num("coords", 0);
  // a job that starts on some of its processes: the others join at the split
  std::vector<int> members;
  { std::string l = sp.get("members"); for (size_t i = 0; i < l.size();) { members.push_back(atoi(l.c_str() + i)); i = l.find(',', i); if (i == std::string::npos) break; i++; } }
  MPI_Comm small = MPI_COMM_NULL; bool original = true;
  if (!members.empty()) {
    int at = -1;
    for (size_t i = 0; i < members.size(); i++) if (members[i] == self) at = (int)i;
    original = at >= 0;
    MPI_Comm_split(MPI_COMM_WORLD, original ? 0 : 1, original ? at : self, &small);
    if (capi) cengpar_setftncommunicator(MPI_Comm_c2f(small)); else EnGPar_Switch_Comm(small);
    self = PCU_Comm_Self();
    if (original && self != at) sim::violation("comm.rank", "process %d should be rank %d of the small group and is %d", members[at], at, self);
  }
  auto myvar = [&](int v) { return (int)(v & 32 ? hv(v, self, 1) % 32 : v % 32); };
  Ngraph* g = original ? buildGraph(sp, self, myvar(var), coords) : createEmptyGraph();
  int step = 0;
  bool orig = sp.num("early_orig", 0);
  if (orig) g->setOriginalOwners();
  std::string hist;
  int norig = -1;   // the caller knows how many vertices it contributed
  auto dump = [&](const char* ph) {
    sim::phase(ph); sim::Dump d; dumpGraph(g, d, true, orig); sim::submit(step, d);
    if (jobs) hist += "step " + std::to_string(step) + placement(g) + "\n";
  };
  auto marker = [&] {
    // at the top level nothing is being executed: the log must say so
    if (!logging || !EnGPar_Is_Log_Open()) return;
    char m[40]; snprintf(m, sizeof m, "@%d\n", step);
    EnGPar_Log_Function(m); EnGPar_End_Function();
  };
  auto valid = [&] { if (!checkValidity(g)) sim::violation("valid", "the library's own validity check rejects the graph on rank %d", self); };
  if (members.empty()) {
    dump("built");
    marker();
    if (sp.num("check_valid", 0)) valid();
  }
  for (auto& o : sp.ops) {
    step++;
    const std::string& k = o.a[0];
    sim::phase(k.c_str());
    if (k == "mig") {
      std::unordered_map<Gid, int> dest;
      for (size_t i = 3; i + 1 < o.a.size(); i += 2) dest[toL(o.a[i])] = (int)toL(o.a[i + 1]);
      migrateTo(g, dest, toL(o.a[1]), (int)toL(o.a[2]));
      orig = true;
      dump("migrated");
      if (sp.num("check_valid", 0)) valid();
    } else if (k == "part") {
      if (!orig) { g->setOriginalOwners(); orig = true; }
      std::vector<double> out;
      if (sp.num("capi")) {
        int n = norig;
        if (n < 0) { n = 0; for (auto& v : sp.verts) n += (members.empty() ? v.owner : members[v.owner]) == self; }
        std::vector<Gid> gi(n, -7); std::vector<part_t> pi(n, -7);
        sim::Array<Gid> gs(gi); sim::Array<part_t> ps(pi);
        cengpar_getPartition((ngraph)g, gs, ps, n);
        for (int i = 0; i < n; i++) { out.push_back((double)gs[i]); out.push_back(ps[i]); }
      } else {
        PartitionMap* pm = g->getPartition();
        for (auto& p : *pm) { out.push_back((double)p.first); out.push_back(p.second); }
        delete pm;
      }
      sim::submitBlob(step, "part", out);
    } else if (k == "reset") {
      if (toL(o.a[1])) g->resetPartition(); else g->resetOwnership();
      orig = true;
      dump("reset");
    } else if (k == "rebuild") {
      constructInto(g, sp, self, myvar((int)toL(o.a[1])), coords);
      orig = false;
      dump("rebuilt");
    } else if (k == "save") {
      if (capi) cengpar_saveToFile((ngraph)g, o.a[1].c_str()); else g->saveToFile(o.a[1].c_str());
    } else if (k == "load") {
      if (capi) { cengpar_destroyGraph((ngraph)g); g = (Ngraph*)cengpar_createEmptyGraph(); cengpar_loadFromFile((ngraph)g, o.a[1].c_str()); }
      else { destroyGraph(g); g = createEmptyGraph(); g->loadFromFile(o.a[1].c_str()); }
      orig = false; norig = g->numLocalVtxs();
      dump("loaded");
    } else if (k == "valid") {
      if (capi) cengpar_checkValidity((ngraph)g); else valid();
    } else if (k == "tags") {
      doTags(g, step, (int)toL(o.a[1]), (int)toL(o.a[2]));
    } else if (k == "split") {
      doSplit(g, o, small, original, step);
      self = PCU_Comm_Self(); orig = true;
      dump("split");
      if (sp.num("check_valid", 0)) valid();
    } else if (int e = editOp(g, o, step)) {
      if (e == 2) dump("edited");
    } else if (partOp(g, o, step, orig)) {
      dump("after");
      if (sp.num("check_valid", 0)) valid();
    }
    marker();
  }
  if (jobs) {
    std::string f = "__hist." + std::to_string(world), before;
    if (first) sim::diskPut(f, hist);
    else if (sim::diskGet(f, before) && before != hist) {
      auto a = splitLines(before), b = splitLines(hist);
      for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
        std::string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
        if (x != y) sim::violation("repeat.differs", "rank %d: the same program on the same input ends up with different vertices: %.300s in one run, %.300s in another", self, x.c_str(), y.c_str());
      }
    }
  }
  sim::phase("destroy");
  if (sp.num("capi")) cengpar_destroyGraph((ngraph)g); else destroyGraph(g);
  step++; marker();
  if (small != MPI_COMM_NULL) MPI_Comm_free(&small);
  if (logging) {
    EnGPar_Close_Log();
    std::string t;
    if (!world && !sim::diskGet("log.txt", t)) sim::violation("log.missing", "the log was opened and closed but there is no log.txt");
    int want = 0; std::string since;
    for (auto& l : splitLines(t)) {
      size_t at = l.find('@');
      if (at == std::string::npos) { since += l + "\n"; continue; }
      // every call is recorded with what it was asked to do, those made here at the top level
      size_t done = (size_t)toL(l.substr(at + 1));
      if (done <= sp.ops.size() + 1) {
        std::vector<std::string> top, need; bool known = true;
        for (auto& x : splitLines(since)) if (x.size() && x[0] != ' ') top.push_back(x);
        const sim::Op* o = done >= 1 && done <= sp.ops.size() ? &sp.ops[done - 1] : nullptr;
        std::string k = done == 0 ? "build" : o ? o->a[0] : "destroy";
        std::string kind = sp.num("hyper", 1) ? "hypergraph" : "traditional graph";
        if (k == "build" || k == "rebuild") {
          if (top.size() && top[0].compare(0, 14, "constructGraph") == 0) need = {"constructGraph: Creating " + kind};
          else {
            need = {"constructVerts: Creating " + kind};
            for (long t = 0; t < sp.num("ntypes", 1); t++) need.push_back("constructEdges: " + std::to_string(t));
            need.push_back("constructGhosts");
          }
          if (!done && sp.num("early_orig", 0)) need.push_back("setOriginalOwners");
        } else if (k == "part") { if (top.size() > 1) need = {"setOriginalOwners"}; need.push_back("getPartition"); }
        else if (k == "reset") need = {"resetOriginalOwners"};
        else if (k == "rmtype") need = {"destroyEdges " + o->a[1]};
        else if (k == "balw") need = {"balanceWeights"};
        else if (k == "destroy") need = {"destroyGraph"};
        else if (k == "bal") {
          need = {"makeBalancer", "balance() : "};
          auto a = kvArgs(*o, 1); std::string pr = " priorities :", tl = " tolerances :", in = a["prio"]; char b[80];
          for (size_t i = 0; i < in.size();) { size_t c = in.find(':', i); pr += " " + in.substr(i, c - i); snprintf(b, 80, " %f", toD(in.substr(c + 1, in.find(',', i) - c - 1))); tl += b; i = in.find(',', i); if (i == std::string::npos) break; i++; }
          bool c = a.count("c") && (a["c"] == "1" || (a["c"] == "2" && first));
          auto n = [&](const char* key, const char* def) { return !c && a.count(key) ? a[key] : std::string(def); };
          snprintf(b, 80, " step_factor : %f", a.count("sf") ? toD(a["sf"]) : 0.1);
          for (auto& x : {pr, tl, " maxIterations : " + n("maxit", "1000"), " maxIterationsPerType : " + n("maxper", "100"), std::string(b), " sides_edge_type : " + n("side", "0"), " selection_edge_type : " + n("sel", "0"), " countGhosts : " + std::string(a.count("cg") && a["cg"] != "0" ? "1" : "0")})
            if (("\n" + since).find("\n" + x + "\n") == std::string::npos) sim::violation("log.content", "the log of balance number %zu does not show its '%s': %.200s", done, x.c_str(), since.c_str());
          // a diffusion of part weights tears its graph down after the balance
          if (a.count("pw") && a["pw"] != "0" && top.size() > 2) top.resize(2);
        } else known = false;
        if (known && top != need) { std::string n; for (auto& x : need) n += x + "; "; sim::violation("log.content", "the log of step %zu (%s) does not show the calls made, %s: %.300s", done, k.c_str(), n.c_str(), since.c_str()); }
      }
      since.clear();
      if (at != 0) sim::violation("log.depth", "a call made at the top level after step %s is logged as nested %zu levels deep", l.c_str() + at + 1, at / 2);
      want++;
    }
    if (!world && want != (members.empty() ? 2 : 1) + (int)sp.ops.size()) sim::violation("log.lost", "%zu calls were logged at the top level, the log shows %d", sp.ops.size(), want);
    if (!world) sim::diskRemove("log.txt");
  }
  if (sp.num("engpar_layer")) { if (capi) cengpar_finalize(); else EnGPar_Finalize(); }
  if (PCU_Comm_Initialized()) PCU_Comm_Free();
}
