// What the partitioners decide, recorded where the library calls them, so that
// the split the library then carries out can be compared with the decision.
#include "common.h"
#include <parmetis.h>
#include <zoltan.h>
static std::vector<double> decided, asked;
static struct { void (*fn)(); void* data; } cb[ZOLTAN_MAX_FN_TYPES];
std::vector<double> takeDecided() { std::vector<double> d; d.swap(decided); return d; }
std::vector<double> takeAsked() { std::vector<double> d; d.swap(asked); return d; }
// the graph as the partitioner will see it: number of vertices, their ids and weights, kind, and pins and edge weights or neighbours
static void ask() {
  asked.clear();
  auto has = [](int t) { return cb[t].fn != nullptr; };
  int err = 0;
  if (!has(ZOLTAN_NUM_OBJ_FN_TYPE) || !has(ZOLTAN_OBJ_LIST_FN_TYPE)) return;
#define CB(T, TYPE) ((ZOLTAN_##T*)cb[ZOLTAN_##TYPE##_FN_TYPE].fn)
#define DT(TYPE) cb[ZOLTAN_##TYPE##_FN_TYPE].data
  int n = CB(NUM_OBJ_FN, NUM_OBJ)(DT(NUM_OBJ), &err);
  std::vector<ZOLTAN_ID_TYPE> gid(n + 1), lid(n + 1); std::vector<float> w(n + 1);
  if (n) CB(OBJ_LIST_FN, OBJ_LIST)(DT(OBJ_LIST), 1, 1, gid.data(), lid.data(), 1, w.data(), &err);
  std::vector<double> a = {(double)n};
  for (int i = 0; i < n; i++) { a.push_back(gid[i]); a.push_back(w[i]); }
  if (has(ZOLTAN_HG_SIZE_CS_FN_TYPE) && has(ZOLTAN_HG_CS_FN_TYPE)) {
    int nl = 0, np = 0, fmt = 0;
    CB(HG_SIZE_CS_FN, HG_SIZE_CS)(DT(HG_SIZE_CS), &nl, &np, &fmt, &err);
    std::vector<ZOLTAN_ID_TYPE> l(nl + 1), p(np + 1); std::vector<int> off(nl + 1);
    CB(HG_CS_FN, HG_CS)(DT(HG_CS), 1, nl, np, fmt, l.data(), off.data(), p.data(), &err);
    a.push_back(fmt == ZOLTAN_COMPRESSED_VERTEX ? 1 : 2); a.push_back(np);
    for (int i = 0; i < nl; i++) for (int k = off[i]; k < (i + 1 < nl ? off[i + 1] : np); k++) { a.push_back(l[i]); a.push_back(p[k]); }
    if (has(ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE) && has(ZOLTAN_HG_EDGE_WTS_FN_TYPE)) {
      int ne = 0; CB(HG_SIZE_EDGE_WTS_FN, HG_SIZE_EDGE_WTS)(DT(HG_SIZE_EDGE_WTS), &ne, &err);
      std::vector<ZOLTAN_ID_TYPE> eg(ne + 1), el(ne + 1); std::vector<float> ew(ne + 1);
      CB(HG_EDGE_WTS_FN, HG_EDGE_WTS)(DT(HG_EDGE_WTS), 1, 1, ne, 1, eg.data(), el.data(), ew.data(), &err);
      a.push_back(ne);
      for (int i = 0; i < ne; i++) { a.push_back(eg[i]); a.push_back(ew[i]); }
    }
  } else if (has(ZOLTAN_NUM_EDGES_FN_TYPE) && has(ZOLTAN_EDGE_LIST_FN_TYPE)) {
    a.push_back(3);
    for (int i = 0; i < n; i++) {
      int k = CB(NUM_EDGES_FN, NUM_EDGES)(DT(NUM_EDGES), 1, 1, &gid[i], &lid[i], &err);
      std::vector<ZOLTAN_ID_TYPE> nb(k + 1); std::vector<int> ow(k + 1); std::vector<float> ew(k + 1);
      CB(EDGE_LIST_FN, EDGE_LIST)(DT(EDGE_LIST), 1, 1, &gid[i], &lid[i], nb.data(), ow.data(), 1, ew.data(), &err);
      for (int j = 0; j < k; j++) { a.push_back(gid[i]); a.push_back(nb[j]); a.push_back(ow[j]); a.push_back(ew[j]); }
    }
  } else return;
  if (err == ZOLTAN_OK) asked.swap(a);
}
extern "C" {
int __real_Zoltan_Set_Fn(struct Zoltan_Struct*, ZOLTAN_FN_TYPE, void (*)(), void*);
int __wrap_Zoltan_Set_Fn(struct Zoltan_Struct* z, ZOLTAN_FN_TYPE t, void (*fn)(), void* data) {
  if (t >= 0 && t < ZOLTAN_MAX_FN_TYPES) { cb[t].fn = fn; cb[t].data = data; }
  return __real_Zoltan_Set_Fn(z, t, fn, data);
}
int __real_ParMETIS_V3_PartKway(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*, MPI_Comm*);
int __wrap_ParMETIS_V3_PartKway(idx_t* vd, idx_t* xa, idx_t* ad, idx_t* vw, idx_t* aw, idx_t* wf, idx_t* nf, idx_t* nc, idx_t* np, real_t* tp, real_t* ub, idx_t* op, idx_t* ec, idx_t* part, MPI_Comm* c) {
  int r; MPI_Comm_rank(*c, &r);
  idx_t n = vd[r + 1] - vd[r];
  std::vector<double> w; for (idx_t i = 0; i < n; i++) w.push_back(vw && *wf & 2 ? vw[i] : 1);
  int rc = __real_ParMETIS_V3_PartKway(vd, xa, ad, vw, aw, wf, nf, nc, np, tp, ub, op, ec, part, c);
  decided = {1, (double)*ec, (double)(aw && *wf & 1)};
  for (idx_t i = 0; i < n; i++) { decided.push_back(part[i]); decided.push_back(w[i]); }
  sim::probe("split.parmetis");
  return rc;
}
int __real_Zoltan_LB_Partition(struct Zoltan_Struct*, int*, int*, int*, int*, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**, int*, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**);
int __wrap_Zoltan_LB_Partition(struct Zoltan_Struct* z, int* ch, int* ng, int* nl, int* ni, ZOLTAN_ID_PTR* ig, ZOLTAN_ID_PTR* il, int** ip, int** it, int* ne, ZOLTAN_ID_PTR* eg, ZOLTAN_ID_PTR* el, int** ep, int** et) {
  ask();
  for (auto& c : cb) c.fn = nullptr;
  int rc = __real_Zoltan_LB_Partition(z, ch, ng, nl, ni, ig, il, ip, it, ne, eg, el, ep, et);
  decided = {2};
  for (int i = 0; i < *ne; i++) decided.push_back((*ep)[i]);
  sim::probe("split.zoltan");
  return rc;
}
}
