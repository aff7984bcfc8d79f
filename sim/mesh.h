// A small distributed finite element mesh, computed from the scenario alone:
// used by the stand-in for PUMI (rank side) and by the oracle (driver side).
// Elements are cells of a structured grid (some missing, any placement);
// every part holds its elements and their closure.
#ifndef SIM_MESH_H
#define SIM_MESH_H
#include "simapi.h"
#include <algorithm>
#include <set>
// built when the program starts: not part of what a job takes and gives back
static const std::vector<std::vector<int>> meshEdges[4] = {{{0, 1}, {1, 2}, {2, 3}, {3, 0}}, {{0, 1}, {1, 2}, {2, 0}},
  {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}, {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}}};
static const std::vector<std::vector<int>> meshFaces[4] = {{}, {}, {{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}, {{0, 1, 2}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}};
struct SimMesh {
  struct Ent { std::vector<int> c; std::vector<int> parts; int owner; };
  int dim = 2, P = 1;
  long own = 0;
  std::vector<Ent> e[4];
  std::map<std::vector<int>, int> at[4];
  std::vector<std::vector<int>> local[4];   // per part, in the order of iteration
  std::vector<long> num[4];                 // global numbering over all entities of a dimension
  int nx, ny;
  static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
  int node(int x, int y, int z) const { return (z * (ny + 1) + y) * (nx + 1) + x; }
  void coord(int n, double* p) const {
    int x = n % (nx + 1), y = n / (nx + 1) % (ny + 1), z = n / (nx + 1) / (ny + 1);
    p[0] = x + (mix(n) % 16) / 64.0; p[1] = y + (mix(n + 999) % 16) / 64.0; p[2] = dim == 3 ? z + (mix(n + 5555) % 16) / 64.0 : 0;
  }
  void centroid(int d, int i, double* p) const {
    p[0] = p[1] = p[2] = 0;
    for (int n : e[d][i].c) { double q[3]; coord(n, q); for (int k = 0; k < 3; k++) p[k] += q[k]; }
    for (int k = 0; k < 3; k++) p[k] /= (double)e[d][i].c.size();
  }
  int add(int d, std::vector<int> c, int part) {
    std::sort(c.begin(), c.end());
    auto it = at[d].find(c);
    if (it == at[d].end()) { Ent x; x.c = c; it = at[d].insert({c, (int)e[d].size()}).first; e[d].push_back(x); }
    auto& p = e[d][it->second].parts;
    if (std::find(p.begin(), p.end(), part) == p.end()) { p.push_back(part); std::sort(p.begin(), p.end()); }
    return it->second;
  }
  void element(const std::vector<int>& c, int kind, int part) {
    add(dim, c, part);
    auto sub = [&](const std::vector<int>& l) { std::vector<int> r; for (int i : l) r.push_back(c[i]); return r; };
    for (int n : c) add(0, {n}, part);
    for (auto& l : meshEdges[kind]) add(1, sub(l), part);
    for (auto& l : meshFaces[kind]) add(2, sub(l), part);
  }
  bool adjacent(int d, int i, int d2, int j) const {
    if (d == d2) return false;
    auto &a = d < d2 ? e[d][i].c : e[d2][j].c, &b = d < d2 ? e[d2][j].c : e[d][i].c;
    return std::includes(b.begin(), b.end(), a.begin(), a.end());
  }
  explicit SimMesh(const sim::Spec& s) {
    P = (int)s.num("nranks", 1); nx = (int)s.num("nx", 2); ny = (int)s.num("ny", 2); own = s.num("own_rule");
    int kind = (int)s.num("kind"); dim = kind < 2 ? 2 : 3;
    for (auto& v : s.verts) {
      long id = v.id; int half = 0;
      if (kind == 1) { half = id % 2; id /= 2; }
      if (kind == 3) { half = id % 6; id /= 6; }
      int x = id % nx, y = id / nx % ny, z = id / nx / ny;
      int q[8] = {node(x, y, z), node(x + 1, y, z), node(x + 1, y + 1, z), node(x, y + 1, z), node(x, y, z + 1), node(x + 1, y, z + 1), node(x + 1, y + 1, z + 1), node(x, y + 1, z + 1)};
      if (kind == 0) element({q[0], q[1], q[2], q[3]}, 0, v.owner);
      if (kind == 1) { if (half) element({q[0], q[2], q[3]}, 1, v.owner); else element({q[0], q[1], q[2]}, 1, v.owner); }
      if (kind == 2) element(std::vector<int>(q, q + 8), 2, v.owner);
      if (kind == 3) {   // six tetrahedra around the diagonal 0-6
        static const int T[6][2] = {{1, 2}, {2, 3}, {3, 7}, {7, 4}, {4, 5}, {5, 1}};
        element({q[0], q[T[half][0]], q[T[half][1]], q[6]}, 3, v.owner);
      }
    }
    for (int d = 0; d <= dim; d++) {
      local[d].resize(P);
      for (size_t i = 0; i < e[d].size(); i++) {
        auto& x = e[d][i];
        x.owner = own == 0 ? x.parts.front() : own == 1 ? x.parts.back() : x.parts[mix(i * 4 + d) % x.parts.size()];
        for (int p : x.parts) local[d][p].push_back((int)i);
      }
      long n = 0;
      num[d].assign(e[d].size(), -1);
      for (int p = 0; p < P; p++) {
        auto& l = local[d][p];
        if (s.num("order")) for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[mix(s.num("order") * 1000 + p * 37 + d * 7 + i) % i]);
        for (int i : l) if (e[d][i].owner == p) num[d][i] = n++;
      }
    }
  }
};
#endif
