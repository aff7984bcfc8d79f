#include "drv.h"
#include <sstream>
#include <cstdarg>
#include <cstring>
std::string fmt(const char* f, ...) {
  char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
void vio(const std::string& cls, const std::string& msg) { sim::violation(cls, "%s", msg.c_str()); }
std::string num(double d) { return fmt("%a", d); }
std::string num(long d) { return fmt("%ld", d); }

std::string specText(const Spec& s) {
  std::string o;
  for (auto& k : s.kv) o += "kv " + k.first + " " + k.second + "\n";
  for (auto& v : s.verts) o += fmt("v %ld %d %a %a %a %a\n", (long)v.id, v.owner, v.w, v.xyz[0], v.xyz[1], v.xyz[2]);
  for (auto& e : s.edges) {
    o += fmt("e %d %ld %a %d", e.type, (long)e.id, e.w, e.home);
    for (auto p : e.pins) o += fmt(" %ld", (long)p);
    o += "\n";
  }
  for (auto& op : s.ops) { o += "o"; for (auto& a : op.a) o += " " + a; o += "\n"; }
  return o;
}
bool parseSpec(const std::string& text, Spec& s, std::map<std::string, std::string>* meta, std::vector<std::pair<int, sim::Dec>>* dec) {
  std::istringstream is(text);
  std::string line;
  while (std::getline(is, line)) {
    std::istringstream l(line);
    std::string t; l >> t;
    if (t.empty() || t[0] == '#') continue;
    if (t == "kv") { std::string k, v; l >> k; std::getline(l, v); size_t p = v.find_first_not_of(' '); s.kv[k] = p == std::string::npos ? "" : v.substr(p); }
    else if (t == "v") { GVert g; long id; std::string w, x[3]; l >> id >> g.owner >> w >> x[0] >> x[1] >> x[2]; g.id = id; g.w = strtod(w.c_str(), 0); for (int i = 0; i < 3; i++) g.xyz[i] = strtod(x[i].c_str(), 0); s.verts.push_back(g); }
    else if (t == "e") { GEdge e; long id; std::string w; l >> e.type >> id >> w >> e.home; e.id = id; e.w = strtod(w.c_str(), 0); long p; while (l >> p) e.pins.push_back(p); s.edges.push_back(e); }
    else if (t == "o") { Op o; std::string a; while (l >> a) o.a.push_back(a); if (!o.a.empty()) s.ops.push_back(o); }
    else if (t == "d") { int job; std::string k; unsigned i; int v; l >> job >> k >> i >> v; sim::Dec d; d.kind = sim::kindId(k.c_str()); d.idx = i; d.val = v; if (dec) dec->push_back({job, d}); }
    else { std::string v; std::getline(l, v); size_t p = v.find_first_not_of(' '); if (meta) (*meta)[t] = p == std::string::npos ? "" : v.substr(p); }
  }
  return true;
}
std::vector<Property>& properties() { static std::vector<Property> p; return p; }
RegP::RegP(Property p) { properties().push_back(p); }
