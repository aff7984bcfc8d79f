// Stand-in for the part of PUMI's apf that EnGPar's mesh interface uses
// (PUMI is not installed here).  Semantics as documented by PUMI; the mesh
// behind it is implemented in rank/wl_mesh.cpp.
#ifndef APF_STANDIN_H
#define APF_STANDIN_H
#include <set>
#include <vector>
#include <cstddef>
namespace apf {
class MeshEntity;
class MeshIterator;
class MeshTag;
typedef std::set<int> Parts;
typedef MeshEntity* Downward[12];
template <class T> class DynamicArray {
  std::vector<T> v;
public:
  void setSize(std::size_t n) { v.resize(n); }
  std::size_t getSize() const { return v.size(); }
  std::size_t size() const { return v.size(); }
  T& operator[](std::size_t i) { return v.at(i); }
  const T& operator[](std::size_t i) const { return v.at(i); }
  typename std::vector<T>::iterator begin() { return v.begin(); }
  typename std::vector<T>::iterator end() { return v.end(); }
  void append(T const& x) { v.push_back(x); }
};
typedef DynamicArray<MeshEntity*> Adjacent;
class Vector3 {
  double p[3];
public:
  Vector3() { p[0] = p[1] = p[2] = 0; }
  Vector3(double a, double b, double c) { p[0] = a; p[1] = b; p[2] = c; }
  double x() const { return p[0]; }
  double y() const { return p[1]; }
  double z() const { return p[2]; }
  double& operator[](int i) { return p[i]; }
  double operator[](int i) const { return p[i]; }
};
class Mesh {
public:
  virtual ~Mesh() {}
  virtual int getDimension() = 0;
  virtual std::size_t count(int dimension) = 0;
  virtual MeshIterator* begin(int dimension) = 0;
  virtual MeshEntity* iterate(MeshIterator* it) = 0;
  virtual void end(MeshIterator* it) = 0;
  virtual bool isShared(MeshEntity* e) = 0;
  virtual bool isOwned(MeshEntity* e) = 0;
  virtual int getOwner(MeshEntity* e) = 0;
  virtual void getAdjacent(MeshEntity* e, int dimension, Adjacent& adjacent) = 0;
  virtual int getDownward(MeshEntity* e, int dimension, MeshEntity** adjacent) = 0;
  virtual void getResidence(MeshEntity* e, Parts& residence) = 0;
};
class Mesh2 : public Mesh {};
class Numbering;
class GlobalNumbering;
std::size_t countOwned(Mesh* m, int dim);
Vector3 getLinearCentroid(Mesh* m, MeshEntity* e);
Numbering* numberOwnedDimension(Mesh* m, const char* name, int dim);
GlobalNumbering* makeGlobal(Numbering* n, bool destroy = true);
void synchronize(GlobalNumbering* n);
void destroyGlobalNumbering(GlobalNumbering* n);
void destroyNumbering(Numbering* n);
long getNumber(GlobalNumbering* n, MeshEntity* e, int node, int component = 0);
void number(GlobalNumbering* n, MeshEntity* e, int node, long value, int component = 0);
}
#endif
