#include <tuple>
// Partitioning layer: diffusive balancing, weight balancing, evaluation.
#include "drv.h"
#include <algorithm>
#include <cmath>
#include <unistd.h>
static Op op(std::initializer_list<std::string> l) { Op o; o.a = l; return o; }
static std::string I(long x) { return num(x); }

std::map<std::string, std::string> kvArgs(const Op& o, size_t from) {
  std::map<std::string, std::string> m;
  for (size_t i = from; i < o.a.size(); i++) { size_t e = o.a[i].find('='); if (e != std::string::npos) m[o.a[i].substr(0, e)] = o.a[i].substr(e + 1); }
  return m;
}
std::vector<double> partWeights(const Model& m, int dim, bool ghosts) {
  std::vector<double> w(m.P, 0);
  if (dim < 0) {
    for (auto& v : m.v) w[v.second.owner] += v.second.w;
    if (ghosts) {
      std::vector<std::set<gid>> gh(m.P);
      for (auto& e : m.e) {
        std::set<int> res;
        if (m.hyper) for (auto p : e.pins) res.insert(m.v.at(p).owner); else res.insert(m.v.at(e.pins[0]).owner);
        for (int r : res) for (auto p : e.pins) if (m.v.at(p).owner != r) gh[r].insert(p);
      }
      for (int r = 0; r < m.P; r++) for (auto p : gh[r]) w[r] += m.v.at(p).w;
    }
  } else
    for (auto& e : m.e) {
      if (e.type != dim) continue;
      std::set<int> res;
      if (m.hyper) for (auto p : e.pins) res.insert(m.v.at(p).owner); else res.insert(m.v.at(e.pins[0]).owner);
      for (int r : res) w[r] += e.w;
    }
  return w;
}
double imbalance(const std::vector<double>& w) {
  double mx = 0, t = 0; for (double x : w) { mx = std::max(mx, x); t += x; }
  return mx / (t / w.size());
}
static std::vector<std::pair<int, double>> prios(std::map<std::string, std::string>& a) {
  std::vector<std::pair<int, double>> pr; const std::string& s = a["prio"]; size_t i = 0;
  while (i < s.size()) { size_t c = s.find(':', i), e = s.find(',', c); if (e == std::string::npos) e = s.size(); pr.push_back({atoi(s.substr(i, c - i).c_str()), atof(s.substr(c + 1, e - c - 1).c_str())}); i = e + 1; }
  return pr;
}


struct PartState {
  GraphOracle g; std::vector<int> members; std::vector<std::vector<double>> wmap; int wmapStep = -1; std::vector<std::vector<double>> decided, asked; int decidedStep = -1; std::string progress;
  explicit PartState(const Spec& s) : g(s) {
    std::string l = s.get("members");
    for (size_t i = 0; i < l.size();) { members.push_back(atoi(l.c_str() + i)); i = l.find(',', i); if (i == std::string::npos) break; i++; }
  }
};

// per rank: parts reached through edges of type t held by the rank
static std::set<int> residence(const Model& m, const GEdge& e) { std::set<int> r; for (auto p : e.pins) r.insert(m.v.at(p).owner); return r; }
static void cutOf(const Model& m, int t, std::vector<double>& cut, std::vector<std::set<int>>& nb) {
  cut.assign(m.P, 0); nb.assign(m.P, {});
  for (auto& e : m.e) {
    if (e.type != t) continue;
    auto res = residence(m, e);
    if (res.size() < 2) continue;
    std::set<int> hold; if (m.hyper) hold = res; else hold.insert(m.v.at(e.pins[0]).owner);
    for (int r : hold) { cut[r] += e.w; for (int q : res) if (q != r) nb[r].insert(q); }
  }
}
static bool symmetricT(const Model& m, int t) {
  if (m.hyper) return true;
  std::set<std::pair<gid, gid>> s;
  for (auto& e : m.e) if (e.type == t) s.insert({e.pins[0], e.pins[1]});
  for (auto& x : s) if (!s.count({x.second, x.first})) return false;
  return true;
}
static std::vector<double> components(const Model& m, int t) {
  std::map<gid, gid> par; for (auto& v : m.v) par[v.first] = v.first;
  std::function<gid(gid)> find = [&](gid x) { while (par[x] != x) x = par[x] = par[par[x]]; return x; };
  for (auto& e : m.e) if (e.type == t) for (auto p : e.pins) for (auto q : e.pins) if (m.v.at(p).owner == m.v.at(q).owner) par[find(p)] = find(q);
  std::vector<double> c(m.P, 0);
  for (auto& v : m.v) if (find(v.first) == v.first) c[v.second.owner]++;
  return c;
}
static double vmax(const std::vector<double>& v) { double x = v[0]; for (double y : v) x = std::max(x, y); return x; }
static double vmin(const std::vector<double>& v) { double x = v[0]; for (double y : v) x = std::min(x, y); return x; }
static double vsum(const std::vector<double>& v) { double x = 0; for (double y : v) x += y; return x; }
static bool close3(double got, double want) {
  if (std::isnan(want) || std::isinf(want)) return true;   // nothing to divide by: unspecified
  return fabs(got - want) <= 0.00051 + 1e-9 * fabs(want);
}

// every line of the printed report against the reference model
static void evalCheck(const Model& m, const std::string& text, const std::string& name) {
  std::string pre = "PARTITION " + name;
  auto find = [&](const std::string& key, int n) {
    std::string k = pre + key; size_t at = text.find(k);
    if (at == std::string::npos) vio("eval.missing", fmt("the partition report has no entry '%s'", k.c_str()));
    if (text.find(k, at + 1) != std::string::npos) vio("eval.repeated", fmt("the partition report has the entry '%s' twice", k.c_str()));
    std::vector<double> r; const char* c = text.c_str() + at + k.size();
    for (int i = 0; i < n; i++) { char* e; r.push_back(strtod(c, &e)); if (e == c) vio("eval.format", fmt("entry '%s' of the partition report has no number %d", k.c_str(), i + 1)); c = e; }
    return r;
  };
  auto four = [&](const std::string& key, const std::vector<double>& w) {
    auto g = find(key, 4);
    double avg = vsum(w) / m.P, x[4] = {vmax(w), vmin(w), avg, vmax(w) / avg};
    static const char* nm[] = {"maximum", "minimum", "average", "imbalance"};
    for (int i = 0; i < 4; i++) if (!close3(g[i], x[i])) vio("eval.value", fmt("the partition report gives %s%s %.3f, the true value is %.3f", key.c_str(), nm[i], g[i], x[i]));
  };
  auto two = [&](const std::string& key, const std::vector<double>& w) {
    auto g = find(key, 2);
    if (!close3(g[0], vmax(w)) || !close3(g[1], vsum(w))) vio("eval.value", fmt("the partition report gives %s%.3f %.3f, the true values are %.3f %.3f", key.c_str(), g[0], g[1], vmax(w), vsum(w)));
  };
  std::vector<double> n(m.P, 0); int empty = 0;
  for (auto& v : m.v) n[v.second.owner]++;
  for (double x : n) empty += x == 0;
  auto e = find(": Empty Parts: ", 1);
  if (e[0] != empty) vio("eval.value", fmt("the partition report counts %g empty parts, there are %d", e[0], empty));
  std::vector<double> cut, nbn(m.P, 0); std::vector<std::set<int>> nb;
  if (symmetricT(m, 0)) { auto c = components(m, 0); for (auto& x : c) x = x > 0 ? x - 1 : 0; two(": Disconnected Components: <max,tot> ", c); }
  cutOf(m, 0, cut, nb);
  for (int r = 0; r < m.P; r++) nbn[r] = (double)nb[r].size();
  four(": Neighbors: <max,min,avg,imb> ", nbn);
  four(": Local Vertex: <max,min,avg,imb> ", partWeights(m, -1, false));
  four(": Total Vertex: <max,min,avg,imb> ", partWeights(m, -1, true));
  for (int t = 0; t < m.ntypes; t++) {
    four(": Edges type " + I(t) + ": <max,min,avg,imb> ", partWeights(m, t, false));
    cutOf(m, t, cut, nb);
    two(": Edges type " + I(t) + " Cut: <max,tot> ", cut);
  }
}
static void metricsCheck(const Model& m, std::vector<std::vector<double>>& v) {
  for (int r = 0; r < m.P; r++) {
    size_t k = 0;
    for (int t = -1; t < m.ntypes; t++)
      for (int gh = 0; gh < 2; gh++, k += 2) {
        auto w = partWeights(m, t, gh && t < 0);
        if (k + 1 >= v[r].size()) vio("metrics.missing", fmt("rank %d reports too few metrics", r));
        if (fabs(v[r][k] - w[r]) > 1e-9 * (1 + fabs(w[r]))) vio("metrics.weight", fmt("rank %d: weight of dimension %d%s is reported as %.9g, it is %.9g", r, t, gh ? " with ghosts" : "", v[r][k], w[r]));
        double im = imbalance(w);
        if (!std::isnan(im) && fabs(v[r][k + 1] - im) > 1e-9 * im) vio("metrics.imbalance", fmt("rank %d: imbalance of dimension %d%s is reported as %.9g, it is %.9g", r, t, gh ? " with ghosts" : "", v[r][k + 1], im));
      }
  }
}
static void imbCheck(const Model& m, const std::string& text, bool cg) {
  const char* c = text.c_str();
  for (int t = -1; t < m.ntypes; t++) {
    char* e; double g = strtod(c, &e);
    if (e == c) vio("metrics.text", fmt("the list of imbalances has no entry for dimension %d", t));
    c = e;
    double im = imbalance(partWeights(m, t, cg && t < 0));
    if (!std::isnan(im) && fabs(g - im) > 0.000051 + 1e-9 * im) vio("metrics.text", fmt("the list of imbalances gives %.4f for dimension %d, it is %.4f", g, t, im));
  }
}

static void statsCheck(const Model& m, const std::string& text) {
  auto after = [&](const std::string& key) { size_t p = text.find(key); if (p == std::string::npos) vio("stats.missing", "the graph's statistics have no entry '" + key + "'"); return text.substr(p + key.size(), text.find('\n', p) - p - key.size()); };
  auto same = [&](const std::string& what, long got, long want) { if (got != want) vio("stats.value", fmt("the graph's statistics give %ld for %s, it is %ld", got, what.c_str(), want)); };
  if ((text.find("Hyper N-graph") != std::string::npos) != m.hyper) vio("stats.kind", "the graph's statistics name the wrong kind of graph");
  same("vertices", atol(after("Vertices: ").c_str()), (long)m.v.size());
  for (int pins = 0; pins <= (int)m.hyper; pins++) {
    std::string l = after(pins ? "Pins: " : "Edges: ");
    for (int t = 0; t < m.ntypes; t++) {
      long n = 0; for (auto& e : m.e) if (e.type == t) n += pins ? (long)e.pins.size() : 1;
      size_t p = l.find("Type " + I(t) + ": ");
      if (p == std::string::npos) vio("stats.missing", fmt("the graph's statistics have no entry for type %d", t));
      same(fmt("%s of type %d", pins ? "pins" : "edges", t), atol(l.c_str() + p + 7 + (t > 9)), n);
    }
  }
}
// what balancing says about itself while it works
static void progressCheck(const Model& before, const Model& after, const std::string& text, bool cg) {
  if (before.P == 1) return;
  auto line = [&](size_t p) { return text.substr(p, text.find('\n', p) - p); };
  size_t p = text.find("with imbalances: ");
  if (p == std::string::npos) vio("progress.missing", "balancing at verbosity 0 does not say where it starts");
  imbCheck(before, line(p + 17), cg);
  p = text.rfind("Imbalances <v, e0, ...>: ");
  if (p != std::string::npos) imbCheck(after, line(p + 25), false);
  long steps = 0;
  for (p = text.find("Completed diffusion"); p != std::string::npos; p = text.find("Completed diffusion", p + 1)) { std::string l = line(p); size_t q = l.find(" in "); steps += q == std::string::npos ? 0 : atol(l.c_str() + q + 4); }
  p = text.find("Diffusion completed in ");
  if (p == std::string::npos) vio("progress.missing", "balancing at verbosity 0 does not say when it ends");
  if (atol(text.c_str() + p + 23) != steps) vio("progress.steps", fmt("balancing reports %ld steps in all, its criteria took %ld", atol(text.c_str() + p + 23), steps));
  // vertices sent, when there was only one step
  p = text.find("Migrating ");
  if (p != std::string::npos && text.find("Migrating ", p + 1) == std::string::npos) {
    long n = 0; for (auto& v : after.v) n += v.second.owner != before.v.at(v.first).owner;
    if (atol(text.c_str() + p + 10) != n) vio("progress.moved", fmt("the only step is said to have sent %ld vertices, %ld changed places", atol(text.c_str() + p + 10), n));
  }
}

// at verbosity 1 and above every diffusion step is announced: never more than the limits allow
static void stepsCheck(const Op& o, const std::string& text) {
  auto a = kvArgs(o, 1);
  auto count = [](const std::string& t, const char* k) { long n = 0; for (size_t i = t.find(k); i != std::string::npos; i = t.find(k, i + 1)) n++; return n; };
  long total = count(text, "Step took");
  if (o.a[0] == "balw") {
    long lim = a.count("maxit") ? atol(a["maxit"].c_str()) : 100;
    if (total > lim) vio("weights.limit", fmt("weight diffusion took %ld steps, its limit was %ld", total, lim));
    return;
  }
  long lim = a.count("maxit") ? atol(a["maxit"].c_str()) : 1000, per = a.count("maxper") ? atol(a["maxper"].c_str()) : 100;
  // a step that completes a criterion or migrates nothing ends it and is not counted
  if (total > lim + (long)prios(a).size()) vio("balance.limit", fmt("balancing took %ld steps, its limit was %ld", total, lim));
  for (size_t i = text.find("Starting diffusion"); i != std::string::npos;) {
    size_t e = text.find("Starting diffusion", i + 1);
    long n = count(text.substr(i, e == std::string::npos ? e : e - i), "Step took");
    if (n > per) vio("balance.limit", fmt("balancing one criterion took %ld steps, its limit was %ld", n, per));
    i = e;
  }
}
// ---- one step of diffusion
// what part a may send to b: its excess over b, in proportion to the share of its boundary that b has, times the step size
struct StepRule {
  std::vector<double> W, total; std::vector<std::map<int, double>> side;
  StepRule(const Model& m, int dim, bool cg, int t) : W(partWeights(m, dim, cg)), total(m.P, 0), side(m.P) {
    for (auto& e : m.e) {
      if (e.type != t) continue;
      auto res = residence(m, e);
      if (res.size() < 2) continue;
      std::set<int> hold; if (m.hyper) hold = res; else hold.insert(m.v.at(e.pins[0]).owner);
      for (int r : hold) { total[r] += e.w; for (int q : res) if (q != r) side[r][q] += e.w; }
    }
  }
  double target(int a, int b, double sf) const { auto i = side[a].find(b); return i == side[a].end() || !(W[a] > W[b]) ? 0 : (W[a] - W[b]) * i->second / total[a] * sf; }
  std::string wrongWay(int a, int b, const char* what) const {
    if (!side[a].count(b)) return fmt("part %d sends %s to part %d, with which it shares no edge", a, what, b);
    if (!(W[a] > W[b] * (1 - 1e-12))) return fmt("part %d, of weight %.9g, sends %s to part %d, of weight %.9g", a, W[a], what, b, W[b]);
    return "";
  }
};
static std::string stepFault(const Model& b, const Model& m, const std::vector<std::pair<int, double>>& pr, size_t at, double sf, int sideT, bool cg, double lim) {
  int dim = pr[at].first;
  StepRule R(b, dim, cg, sideT);
  std::map<std::pair<int, int>, std::vector<gid>> flow;
  for (auto& v : m.v) { int a = b.v.at(v.first).owner; if (a != v.second.owner) flow[{a, v.second.owner}].push_back(v.first); }
  // (a vertex may be given another destination after its weight was counted, so only the sum over the destinations is bounded)
  // vertices that travel together: those of one edge, fewer than twelve
  std::map<gid, std::vector<const GEdge*>> of;
  if (dim >= 0) for (auto& e : b.e) if (e.type == dim) for (auto p : e.pins) { of[p].push_back(&e); if (!b.hyper) break; }
  std::vector<double> cav(b.P, 0);
  for (auto& e : b.e) {
    auto res = residence(b, e);
    for (int r : res) {
      std::set<gid> c; for (auto p : e.pins) if (b.v.at(p).owner == r) c.insert(p);
      if (c.size() > 11) continue;
      double w = 0;
      if (dim < 0) for (auto p : c) w += b.v.at(p).w;
      else { std::set<const GEdge*> es; for (auto p : c) for (auto x : of[p]) es.insert(x); for (auto x : es) w += x->w; }
      cav[r] = std::max(cav[r], w);
    }
  }
  std::vector<double> sent(b.P, 0), may(b.P, 0);
  for (int a = 0; a < b.P; a++) for (auto& q : R.side[a]) may[a] += R.target(a, q.first, sf);
  for (auto& f : flow) {
    int a = f.first.first, q = f.first.second;
    std::string w = R.wrongWay(a, q, "vertices"); if (!w.empty()) return w;
    double g = 0;
    if (dim < 0) for (auto p : f.second) g += b.v.at(p).w;
    else { std::set<const GEdge*> es; for (auto p : f.second) for (auto x : of[p]) if (!residence(b, *x).count(q)) es.insert(x); for (auto x : es) g += x->w; }
    sent[a] += g;
    for (size_t i = 0; i < at; i++) {
      auto cw = partWeights(b, pr[i].first, cg); double mx = vmax(cw), ok = vsum(cw) / b.P * pr[i].second;
      if (mx > ok * (1 + 1e-6) && cw[q] == mx) return fmt("part %d sends vertices to part %d, the heaviest in dimension %d, which comes first", a, q, pr[i].first);
    }
    if (lim > 0 && lim <= 0.011) for (auto& e : b.e) if (e.type == 0 && !residence(b, e).count(q)) for (auto p : e.pins) {
      if (std::count(f.second.begin(), f.second.end(), p)) return fmt("the growth of the edge cut was limited to %g, part %d sends part %d vertex %ld although an edge of it does not touch that part", lim, a, q, (long)p);
      if (!b.hyper) break;
    }
  }
  for (int a = 0; a < b.P; a++) if (sent[a] > (may[a] + cav[a]) * (1 + 1e-9) + 1e-9) return fmt("part %d sends weight %.9g in all; its step is %.9g and at most %.9g travels at once", a, sent[a], may[a], cav[a]);
  return "";
}
static void oneStepCheck(const Spec& s, const Model& before, const Model& m, int step, const char* when) {
  auto a = kvArgs(s.ops[step - 1], 1);
  auto pr = prios(a);
  bool cg = a["cg"] == "1"; int side = atoi(a["side"].c_str());
  double sf = a.count("sf") ? atof(a["sf"].c_str()) : 0.1, lim = a.count("lim") ? atof(a["lim"].c_str()) : 0;
  if (a["maxit"] != "1" || m.P == 1 || !symmetricT(before, side)) return;
  bool moved = false; for (auto& v : m.v) moved |= v.second.owner != before.v.at(v.first).owner;
  if (!moved) return;
  // a criterion for which nothing can be done is passed over, the step is then the next one's
  std::string first;
  for (size_t i = 0; i < pr.size(); i++) {
    if (imbalance(partWeights(before, pr[i].first, cg)) < pr[i].second - 1e-9) continue;
    std::string f = stepFault(before, m, pr, i, sf, side, cg, lim);
    if (f.empty()) return;
    if (first.empty()) first = f;
  }
  if (!first.empty()) vio("step.rule", fmt("%s: %s", when, first.c_str()));
}

static void balCheck(const Spec& s, const Model& before, const Model& m, int step, const char* when, const std::string& what) {
  auto a = kvArgs(s.ops[step - 1], 1);
  auto pr = prios(a);
  bool cg = a.count("cg") && a["cg"] == "1";
  bool moved = false; for (auto& v : m.v) moved |= v.second.owner != before.v.at(v.first).owner;
  if (moved && m.P == 1) vio("balance.serial", "balancing moved vertices in a serial run");
  // nothing to do: every criterion already met
  bool all = true; for (auto& p : pr) if (!(imbalance(partWeights(before, p.first, cg)) < p.second - 1e-9)) all = false;
  if (all && moved) vio("balance.needless", fmt("%s: every criterion was within its tolerance, yet vertices were moved", when));
  // criteria are given in order of priority: improving a later one must not
  // push an earlier one, already satisfied, beyond its tolerance
  if (!cg && m.P > 1)
    for (size_t i = 0; i + 1 < pr.size(); i++) {
      auto w0 = partWeights(before, pr[i].first, false);
      if (!(imbalance(w0) < pr[i].second - 1e-9)) break;
      if (!m.hyper && pr[i].first >= 0) continue;
      double lim = pr[i].second * vsum(w0) / m.P, mx = vmax(partWeights(m, pr[i].first, false));
      if (mx > lim * (1 + 1e-9) + 1e-9) vio("balance.priority", fmt("%s: dimension %d was within its tolerance %g, balancing lower priorities raised its heaviest part to %.6g (limit %.6g)", when, pr[i].first, pr[i].second, mx, lim));
    }
  if (getenv("SIM_BALTRACE")) for (auto& p : pr) dprintf(9, "kind %s P %d h %d n %zu %s bal step %d dim %d tol %g: %.4f -> %.4f moved %d\n", s.get("kind","-").c_str(), m.P, m.hyper, m.v.size(), s.ops[step-1].a.back().c_str(), step, p.first, p.second, imbalance(partWeights(before, p.first, cg)), imbalance(partWeights(m, p.first, cg)), moved);
  if (what == "C05") oneStepCheck(s, before, m, step, when);
  if (what == "C04" && !getenv("SIM_BALTRACE")) {
    // the criterion the family puts out of balance is the last one asked for
    int kind = (int)s.num("kind"), dim = pr.back().first;
    double i0 = imbalance(partWeights(before, dim, false)), i1 = imbalance(partWeights(m, dim, false)), tol = pr.back().second;
    std::string what1 = dim < 0 ? "vertex" : "edge";
    if (i1 > i0 + (m.P == 2 ? 1e-9 : 0.35)) vio("balance.worse", fmt("%s: balancing raised the %s imbalance from %.4f to %.4f", when, what1.c_str(), i0, i1));
    bool sure = m.P == 2 || (!m.hyper && m.P == 3 && !kind);
    // targets taken from a diffusion of part weights first: that plan is in whole units, so a step of less than one does nothing
    if (kvArgs(s.ops[step - 1], 1)["pw"] == "1") {
      auto w0 = partWeights(before, dim, false); double sf = s.ops[step - 1].a.size() > 2 && s.ops[step - 1].a[2] == "sf=0.2" ? 0.2 : 0.1;
      double unit = sf * (vmax(w0) - *std::min_element(w0.begin(), w0.end()));
      if (sure && unit >= 2 && i0 >= 1.4 && i1 > i0 - 1e-9) vio("balance.ineffective", fmt("%s: %s imbalance was %.4f and still is after balancing with part weights to %.2f", when, what1.c_str(), i0, tol));
      sure = false;
    }
    if (sure && i0 >= tol && i1 > tol + 0.1) vio("balance.ineffective", fmt("%s: %s imbalance was %.4f and is %.4f after balancing to %.2f", when, what1.c_str(), i0, i1, tol));
  }
}

static void splitCheck(const Spec& s, const Model& before, const Model& m, int step, const PartState& st, const std::string& what) {
  auto a = kvArgs(s.ops[step - 1], 1);
  const std::string& me = a["method"];
  if (me == "LOCAL_PARMETIS") {
    std::vector<int> all; std::string l = a["others"];
    for (size_t i = 0; i < l.size();) { all.push_back(atoi(l.c_str() + i)); i = l.find(',', i); if (i == std::string::npos) break; i++; }
    int sf = atoi(a["sf"].c_str());
    for (auto& v : m.v) {
      int r0 = before.v.at(v.first).owner, at = (int)(std::find(st.members.begin(), st.members.end(), r0) - st.members.begin());
      bool ok = false; for (int i = 0; i < sf; i++) ok |= all[at * sf + i] == v.second.owner;
      if (!ok) vio("split.target", fmt("a local split sent vertex %ld of rank %d to rank %d, which is not one of that rank's targets", (long)v.first, r0, v.second.owner));
    }
  }
  if (what != "D02") return;
  // quality, per group of parts that was split: one group, or one per starting rank
  std::vector<double> w = partWeights(m, -1, false);
  bool local = me == "LOCAL_PARMETIS";
  int groups = local ? (int)st.members.size() : 1, k = m.P / groups;
  for (int gI = 0; gI < groups; gI++) {
    double cut = 0, tot = 0, wt = 0; std::map<int, double> pw;
    auto in = [&](gid v) { return !local || before.v.at(v).owner == st.members[gI]; };
    for (auto& v : m.v) if (in(v.first)) { pw[v.second.owner] += v.second.w; wt += v.second.w; }
    for (auto& e : m.e) { bool all = true; std::set<int> res; for (auto p : e.pins) { all &= in(p); res.insert(m.v.at(p).owner); } if (all) { tot += e.w; cut += res.size() > 1 ? e.w : 0; } }
    double mx = 0; for (auto& x : pw) mx = std::max(mx, x.second);
    double imb = mx / (wt / k), cf = tot ? cut / tot : 0;
    double heavy = 0; for (auto& v : m.v) heavy = std::max(heavy, v.second.w);
    double tol = atof(a["tol"].c_str()), lim = tol + heavy / (wt / k) + 0.03;
    if (getenv("SIM_BALTRACE")) { dprintf(9, "split %s tol %s k %d small %zu h %d uw %ld us %s n %g imb %.4f gran %.4f cut %.3f edges %g\n", me.c_str(), a["tol"].c_str(), k, st.members.size(), m.hyper, s.num("unit_weights"), s.get("strong", "-").c_str(), wt, imb, heavy / (wt / k), cf, tot); continue; }
    if (imb > lim) vio("split.imbalance", fmt("splitting to tolerance %s leaves the heaviest of %d parts at %.3f times the average, more than one element above the limit", a["tol"].c_str(), k, imb));
    if (cf > 0.45) vio("split.cut", fmt("%s cuts %.0f of %.0f edge weight of a structured mesh into %d parts: the connectivity of the graph is not being used", me.c_str(), cut, tot, k));
  }
}

// the partitioner's decision (recorded at its own interface) against the graph it was made for and the placement that came of it
static void decisionCheck(const Spec& s, const Model& before, const Model& m, int step, const PartState& st) {
  auto a = kvArgs(s.ops[step - 1], 1);
  const std::string& me = a["method"];
  bool local = me == "LOCAL_PARMETIS"; int et = atoi(a["et"].c_str());
  auto& d = st.decided;
  typedef std::vector<std::pair<int, double>> Col;   // per starting rank: number and weight of the vertices
  if (me == "ZOLTAN") {
    for (int q = 0; q < m.P; q++) {
      auto& z = st.asked[q]; if (z.empty()) continue;
      typedef std::multiset<std::vector<double>> Set;
      Set gv, wv, ge, we, gw, ww; size_t n = (size_t)z[0], at = 1;
      for (size_t i = 0; i < n; i++, at += 2) gv.insert({z[at], z[at + 1]});
      for (auto& v : before.v) if (v.second.owner == q) wv.insert({(double)v.first, (double)(float)v.second.w});
      int kind = (int)z[at++];
      if (kind == 2) continue;
      if (kind == 1) { size_t np = (size_t)z[at++]; for (size_t i = 0; i < np && at + 1 < z.size(); i++, at += 2) ge.insert({z[at], z[at + 1]}); at++; for (; at + 1 < z.size(); at += 2) gw.insert({z[at], z[at + 1]}); }
      else for (; at + 3 < z.size(); at += 4) ge.insert({z[at], z[at + 1], z[at + 2], z[at + 3]});
      for (auto& e : before.e) {
        if (e.type != 0) continue;
        bool here = false;
        if (kind == 1) for (auto p : e.pins) { if (before.v.at(p).owner == q) { we.insert({(double)p, (double)e.id}); here = true; } }
        else if (before.v.at(e.pins[0]).owner == q) we.insert({(double)e.pins[0], (double)e.pins[1], (double)before.v.at(e.pins[1]).owner, (double)(float)e.w});
        if (here) ww.insert({(double)e.id, (double)(float)e.w});
      }
      if (gw.empty()) ww.clear();
      if (gv != wv) vio("split.input", fmt("Zoltan is told of %zu vertices on rank %d that are not the %zu vertices and weights there", gv.size(), q, wv.size()));
      if (ge != we) vio("split.input", fmt("Zoltan is told of %zu %s on rank %d that are not the %zu there", ge.size(), kind == 1 ? "pins" : "neighbours", q, we.size()));
      if (gw != ww) vio("split.input", fmt("Zoltan is told of %zu edge weights on rank %d that are not the %zu there", gw.size(), q, ww.size()));
    }
    for (int q = 0; q < m.P; q++) if (d[q].empty()) return;
    for (int q = 0; q < m.P; q++) {
      std::map<int, int> want, got;
      for (size_t i = 1; i < d[q].size(); i++) if ((int)d[q][i] != q) want[(int)d[q][i]]++;
      for (auto& v : m.v) if (before.v.at(v.first).owner == q && v.second.owner != q) got[v.second.owner]++;
      for (int p = 0; p < m.P; p++) if (want[p] != got[p]) vio("split.decision", fmt("Zoltan assigned %d vertices of rank %d to rank %d, the split moved %d there", want[p], q, p, got[p]));
    }
    return;
  }
  std::map<int, int> starts; for (auto& v : before.v) starts[v.second.owner]++;
  double cut = 0; bool ewgt = true;
  std::map<std::pair<int, int>, Col> want; std::map<std::pair<int, int>, Col> got;
  for (auto& x : starts) {
    int q = x.first; auto& r = d[q];
    if (r.size() < 3 || r[0] != 1) return;
    if ((int)(r.size() - 3) / 2 != x.second) vio("split.input", fmt("rank %d has %d vertices, ParMETIS was given %zu", q, x.second, (r.size() - 3) / 2));
    if (local) cut += r[1]; else cut = r[1];
    ewgt &= r[2] != 0;
    for (size_t i = 3; i + 1 < r.size(); i += 2) { Col& c = want[{local ? q : -1, (int)r[i]}]; c.resize(m.P); c[q].first++; c[q].second += r[i + 1]; }
  }
  bool whole = true;
  for (auto& v : m.v) { int q = before.v.at(v.first).owner; whole &= v.second.w == floor(v.second.w); Col& c = got[{local ? q : -1, v.second.owner}]; c.resize(m.P); c[q].first++; c[q].second += v.second.w; }
  if (!whole) { for (auto* x : {&want, &got}) for (auto& c : *x) for (auto& y : c.second) y.second = 0; }
  std::vector<Col> cw, cg; for (auto& c : want) cw.push_back(c.second); for (auto& c : got) cg.push_back(c.second);
  std::sort(cw.begin(), cw.end()); std::sort(cg.begin(), cg.end());
  if (cw != cg) vio("split.decision", "the number or weight of the vertices on the new parts is not what ParMETIS decided for the vertices it was given");
  double c2 = 0; std::set<int> parts; for (auto& v : m.v) parts.insert(v.second.owner);
  for (auto& e : m.e) {
    if (e.type != et) continue;
    if (ewgt && e.w != floor(e.w)) return;
    double w = ewgt ? e.w : 1;
    // a hyperedge joins every pair of its vertices; a traditional edge is listed in both directions
    for (size_t i = 0; i < e.pins.size(); i++) for (size_t j = i + 1; j < e.pins.size(); j++) {
      gid u = e.pins[i], v = e.pins[j];
      if (u == v || m.v.at(u).owner == m.v.at(v).owner || (local && before.v.at(u).owner != before.v.at(v).owner)) continue;
      c2 += m.hyper ? w : w / 2;
    }
  }
  if (getenv("SIM_BALTRACE")) { dprintf(9, "cut %s P %d parts %zu h %d: %g %g\n", me.c_str(), m.P, parts.size(), m.hyper, cut, c2); return; }
  if (cut != c2) vio("split.input", fmt("ParMETIS reports a cut of %g for its decision, in the graph it is %g: it was not given this graph", cut, c2));
}

static void partHooks(const Spec& s, sim::Hooks& h, int, const std::string& what) {
  auto st = std::make_shared<PartState>(s);
  h.onDump = [st, &s, what](int step, std::vector<Dump>& d) {
    auto& g = st->g;
    g.advance(step);
    static std::string when; CheckOpts o;
    when = step ? fmt("after step %d (%s)", step, s.ops[step - 1].a[0].c_str()) : std::string("after construction");
    o.when = when.c_str();
    std::string k = step ? s.ops[step - 1].a[0] : "";
    if (k == "bal") {
      Model before = g.m;
      adoptOwners(g.m, d, when.c_str());
      if (g.m.P > 1) g.hasOrig = true;
      o.orig = g.hasOrig;
      checkDumps(g.m, d, o);
      balCheck(s, before, g.m, step, when.c_str(), what);
      if (what == "G01") { progressCheck(before, g.m, st->progress, kvArgs(s.ops[step - 1], 1)["cg"] == "1"); st->progress.clear(); }
    } else if (k == "balw") {
      auto a = kvArgs(s.ops[step - 1], 1);
      Model before = g.m;
      for (auto& x : d) for (auto& v : x.verts) { auto it = g.m.v.find(v.id); if (it != g.m.v.end()) it->second.w = v.w; }
      double t0 = 0, t1 = 0;
      for (auto& v : before.v) t0 += v.second.w;
      for (auto& v : g.m.v) t1 += v.second.w;
      if (fabs(t0 - t1) > 1e-6 * (1 + fabs(t0))) vio("weights.total", fmt("%s: total vertex weight was %.9g, is now %.9g", when.c_str(), t0, t1));
      o.orig = g.hasOrig;
      checkDumps(g.m, d, o);
      double tol = atof(a["tol"].c_str()), i0 = imbalance(partWeights(before, -1, false)), i1 = imbalance(partWeights(g.m, -1, false));
      bool moved = false; for (auto& v : g.m.v) moved |= v.second.w != before.v[v.first].w;
      if (moved && (g.m.P == 1 || i0 < tol - 1e-9)) vio("weights.needless", fmt("%s: weight was moved although the imbalance %.4f was within the tolerance %.4f", when.c_str(), i0, tol));
      // the weight plan explains every change
      if (st->wmapStep == step) {
        std::map<gid, double> delta; std::map<std::pair<gid, gid>, double> given;
        for (int r = 0; r < g.m.P; r++) for (size_t i = 0; i + 2 < st->wmap[r].size(); i += 3) {
          gid u = (gid)st->wmap[r][i], v = (gid)st->wmap[r][i + 1]; double w = st->wmap[r][i + 2];
          if (!g.m.v.count(u) || !g.m.v.count(v)) vio("weights.plan", fmt("%s: the weight plan of rank %d moves weight from %ld to %ld, one of which does not exist", when.c_str(), r, (long)u, (long)v));
          if (g.m.v[u].owner != r) vio("weights.plan", fmt("%s: the weight plan of rank %d gives away weight of vertex %ld, which rank %d owns", when.c_str(), r, (long)u, g.m.v[u].owner));
          if (!(w > 0)) vio("weights.plan", fmt("%s: the weight plan moves %g from %ld to %ld", when.c_str(), w, (long)u, (long)v));
          delta[u] -= w; delta[v] += w; given[{u, v}] += w;
        }
        for (auto& x : given) if (given.count({x.first.second, x.first.first})) vio("weights.plan", fmt("%s: the weight plan moves weight from vertex %ld to %ld and back", when.c_str(), (long)x.first.first, (long)x.first.second));
        if (a["maxit"] == "1" && symmetricT(before, atoi(a["et"].c_str()))) {
          double sf = atof(a["sf"].c_str());
          StepRule R(before, -1, false, atoi(a["et"].c_str()));
          std::map<std::pair<int, int>, double> flow;
          for (auto& x : given) {
            gid u = x.first.first, v = x.first.second; bool near = false;
            for (auto& e : before.e) near |= e.type == 0 && std::count(e.pins.begin(), e.pins.end(), u) && std::count(e.pins.begin(), e.pins.end(), v);
            if (!near) vio("weights.step", fmt("%s: vertex %ld gives weight to %ld, with which it shares no edge", when.c_str(), (long)u, (long)v));
            flow[{before.v[u].owner, before.v[v].owner}] += x.second;
          }
          for (auto& f : flow) {
            std::string w = R.wrongWay(f.first.first, f.first.second, "weight");
            double t = R.target(f.first.first, f.first.second, sf);
            if (w.empty() && f.second > t * (1 + 1e-9) + 1e-9) w = fmt("part %d sends weight %.9g to part %d, its step there is %.9g", f.first.first, f.second, f.first.second, t);
            if (!w.empty()) vio("weights.step", when + ": " + w);
          }
        }
        for (auto& v : g.m.v) if (fabs(before.v[v.first].w + delta[v.first] - v.second.w) > 1e-6 * (1 + fabs(v.second.w))) vio("weights.plan", fmt("%s: vertex %ld weighed %.9g, the weight plan changes that by %.9g, it now weighs %.9g", when.c_str(), (long)v.first, before.v[v.first].w, delta[v.first], v.second.w));
      }
      for (auto& v : g.m.v) if (v.second.w < -1e-9) vio("weights.negative", fmt("%s: vertex %ld weighs %.9g", when.c_str(), (long)v.first, v.second.w));
      if (s.num("strong") && !getenv("SIM_BALTRACE") && i0 >= tol && i1 > tol + 0.15) vio("weights.ineffective", fmt("%s: the weight imbalance was %.4f and is %.4f after diffusing to %.2f", when.c_str(), i0, i1, tol));
      if (getenv("SIM_BALTRACE")) dprintf(9, "balw fam %s sf %s P %d h %d n %zu step %d tol %g: %.4f -> %.4f moved %d\n", s.get("family", "-").c_str(), a["sf"].c_str(), g.m.P, g.m.hyper, g.m.v.size(), step, tol, i0, i1, moved);
    } else if (k == "split") {
      Model before = g.m;
      for (auto& v : before.v) v.second.owner = st->members[v.second.owner];
      g.m = before;
      adoptOwners(g.m, d, when.c_str());
      for (auto& v : g.m.v) v.second.orig = before.v[v.first].owner;
      g.hasOrig = true;
      checkDumps(g.m, d, o);
      splitCheck(s, before, g.m, step, *st, what);
      if (st->decidedStep == step) decisionCheck(s, before, g.m, step, *st);
    } else {
      o.orig = g.hasOrig;
      checkDumps(g.m, d, o);
    }
  };
  h.onBlob = [st, &s](int step, const std::string& name, std::vector<std::vector<double>>& v) {
    auto& g = st->g;
    g.advance(step);
    auto text = [&] { std::string t; for (double c : v[0]) t += (char)(int)c; return t; };
    auto& op = s.ops[step - 1].a;
    if (name == "eval") evalCheck(g.m, text(), op.size() > 1 && op[1] != "@c" ? op[1] : "");
    else if (name == "metrics") metricsCheck(g.m, v);
    else if (name == "imbalances") imbCheck(g.m, text(), op.size() > 1 && op[1] == "1");
    else if (name == "stats") statsCheck(g.m, text());
    else if (name == "steps") { stepsCheck(s.ops[step - 1], text()); st->progress = text(); }
    else if (name == "asked") st->asked = v;
    else if (name == "decided") { st->decided = v; st->decidedStep = step; }
    else if (name == "wmap") { st->wmap = v; st->wmapStep = step; }
    else graphBlob(g.m, s, step, name, v);
  };
}

static std::string balArgs(Rnd& r, bool hyper, int nt, Op& o, bool wild) {
  bool all = nt >= 4 && r.chance(60);   // every criterion, most of them easily met
  int n = all ? nt + 1 : r.chance(55) ? 1 : r.range(1, nt + 1);
  std::vector<int> dims; for (int t = -1; t < nt; t++) dims.push_back(t);
  std::string pr;
  if (r.chance(50)) std::swap(dims[0], dims[dims.size() - 1]);
  for (int i = 0; i < n && i < (int)dims.size(); i++) {
    static const char* tol[] = {"1.05", "1.1", "1.02", "1.3", "1.01", "2"};
    pr += (i ? "," : "") + I(dims[i]) + ":" + (all && i + 1 < n ? (r.chance(70) ? "4" : "1.3") : tol[r.below(6)]);
  }
  o.a = {"bal", "prio=" + pr};
  static const char* sf[] = {"0.1", "0.3", "0.5", "0.05", "1"};
  if (r.chance(60)) o.a.push_back(std::string("sf=") + sf[r.below(5)]);
  if (wild && r.chance(25)) o.a.push_back("cg=1");
  if (r.chance(15)) o.a.push_back("c=1");
  else {
    if (hyper && r.chance(40)) o.a.push_back("dq=0");
    if (hyper && r.chance(30)) o.a.push_back("push=0");
    if (wild) {
      if (r.chance(12)) { o.a.push_back("mc=" + I(r.range(2, 3))); o.a.push_back("ct=" + I(r.below(nt))); }
      if (r.chance(15)) o.a.push_back("side=" + I(r.below(nt)));
      if (r.chance(10)) o.a.push_back("pw=1");
      if (r.chance(20)) { static const char* l[] = {"1", "0.5", "3", "0.01"}; o.a.push_back(std::string("lim=") + l[r.below(4)]); }
      if (r.chance(15)) o.a.push_back("maxit=" + I(r.range(1, 20)));
      if (r.chance(15)) o.a.push_back("maxper=" + I(r.range(1, 20)));
    }
  }
  static const int vb[] = {-1, -1, 0, 1, 2, 3};
  o.a.push_back("verb=" + I(vb[r.below(6)]));
  return pr;
}

static RegP c01([] {
  Property p; p.id = "C01";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    s.kv["workload"] = "graph";
    int N = r.chance(6) ? 1 : r.range(2, r.chance(70) ? 4 : 8);
    s.kv["nranks"] = I(N);
    genSchedule(s, r);
    if (r.chance(55)) genMesh(s, r, th ? 100 : 48, -1, r.chance(40));
    else { GraphOpts g; g.maxV = th ? 60 : 36; g.connected = r.chance(60);
      if (r.chance(12)) g.maxTypes = 6;                                          // as many criteria as the library takes
      if (r.chance(6)) { g.hyper = 1; g.fat = true; g.minV = 110; g.maxV = 240; g.maxTypes = 2; }   // edges that span most of the graph
      genGraph(s, r, g); }
    s.kv["variant"] = I(r.below(64));
    if (r.chance(25)) s.kv["coords"] = "1";
    if (r.chance(25)) s.kv["early_orig"] = "1";
    bool hyper = s.num("hyper"); int nt = (int)s.num("ntypes");
    std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner;
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
      if (r.chance(20)) s.ops.push_back(migOp(s, r, own, N));
      if (nt > 1 && r.chance(12)) { int t = r.below(nt); s.ops.push_back(op({"rmtype", I(t)})); if (t == nt - 1) nt--; }
      if (r.chance(8)) s.ops.push_back(op({"setew", I(r.below(nt)), num(0.25 * r.range(1, 30))}));
      Op o; balArgs(r, hyper, nt, o, true); s.ops.push_back(o);
      if (r.chance(40)) s.ops.push_back(op({"part"}));
    }
  };
  p.hooks = [](const Spec& s, sim::Hooks& h, int job) { partHooks(s, h, job, "C01"); };
  p.quickRuns = 3000; p.thoroughRuns = 100000;
  p.rule = "a case is one simulated job that balances a generated graph 1-3 times with generated priorities, tolerances, step sizes and selection options, with migrations in between; after each balance every rank's whole observable graph is compared with the model; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair"; p.real = "agi/*, pcu/*, support/*, partition/*"; p.stub = "MPI, clock";
  return p; }());

// column strips of a structured mesh, rank i owning wd[i] columns; unit weights
static void stripMesh(Spec& s, const std::vector<int>& wd, int ny, bool hyper) {
  int nx = 0; for (int w : wd) nx += w;
  s.kv["hyper"] = I(hyper); s.kv["ntypes"] = "1"; s.kv["unit_weights"] = "1"; s.kv["unit_edge_weights"] = "1";
  int x0 = 0; std::vector<int> ox(nx); for (size_t i = 0; i < wd.size(); i++) for (int k = 0; k < wd[i]; k++) ox[x0++] = (int)i;
  for (int i = 0; i < nx * ny; i++) { GVert v; v.id = i; v.owner = ox[i % nx]; v.w = 1; v.xyz[0] = i % nx; v.xyz[1] = i / nx; v.xyz[2] = 0; s.verts.push_back(v); }
  gid id = 0;
  auto edge = [&](std::vector<gid> p) { GEdge e; e.type = 0; e.id = id++; e.home = 0; e.w = 1; e.pins = p; s.edges.push_back(e); };
  auto at = [&](int x, int y) { return (gid)(y * nx + x); };
  if (hyper) for (int y = 0; y <= ny; y++) for (int x = 0; x <= nx; x++) {
    std::vector<gid> p;
    for (int dy = -1; dy <= 0; dy++) for (int dx = -1; dx <= 0; dx++) if (x + dx >= 0 && x + dx < nx && y + dy >= 0 && y + dy < ny) p.push_back(at(x + dx, y + dy));
    edge(p);
  } else for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++)
    for (int k = 0; k < 4; k++) { static const int dx[] = {1, -1, 0, 0}, dy[] = {0, 0, 1, -1}; int a = x + dx[k], b = y + dy[k]; if (a >= 0 && a < nx && b >= 0 && b < ny) edge({at(x, y), at(a, b)}); }
}
// the family on which the balancer must make progress
static void genStrips(Spec& s, Rnd& r, bool hyper) {
  int N = (int)s.num("nranks"), ny = r.range(3, 6);
  std::vector<int> wd; for (int i = 0; i < N; i++) wd.push_back(r.range(2, 6));
  stripMesh(s, wd, ny, hyper);
}
// What the minimiser may try: the partitioners need symmetric graphs, and a quality threshold only holds on its family.
static bool splitValid(const Spec& s) {
  bool sp = false; for (auto& o : s.ops) sp |= o.a[0] == "split";
  if (!sp || s.num("hyper")) return true;
  std::map<std::tuple<int, gid, gid>, int> n;
  for (auto& e : s.edges) if (e.pins.size() == 2) { n[{e.type, e.pins[0], e.pins[1]}]++; n[{e.type, e.pins[1], e.pins[0]}]--; }
  for (auto& x : n) if (x.second) return false;
  return true;
}
static std::string familyOf(const Spec& s) { return fmt("%zu/%zu/%ld/%ld/%ld", s.verts.size(), s.edges.size(), s.num("nranks"), s.num("unit_weights", 0), s.num("unit_edge_weights", 0)); }
static bool familyValid(const Spec& s) { return s.get("family") == familyOf(s); }

static RegP c04([] {
  Property p; p.id = "C04";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    s.kv["workload"] = "graph";
    int N = r.chance(50) ? 2 : r.range(3, 5); s.kv["nranks"] = I(N);
    genSchedule(s, r);
    bool hyper = r.chance(60);
    // what is out of balance: vertices, vertices of different weight, edges, or edges below vertices that have room
    int kind = r.chance(40) ? 0 : r.range(1, 4);
    s.kv["kind"] = I(kind);
    genStrips(s, r, hyper);
    if (kind == 1) { s.kv.erase("unit_weights"); int cut = r.range(3, 8), f = r.range(2, 3); bool left = r.chance(50); for (auto& v : s.verts) v.w = (v.xyz[0] < cut) == left ? f : 1; }
    if (kind >= 3) {
      s.kv.erase("unit_edge_weights"); bool left = r.chance(50); int f = r.range(2, 3);
      std::map<gid, double> x; for (auto& v : s.verts) x[v.id] = v.xyz[0];
      double mx = 0; for (auto& v : s.verts) mx = std::max(mx, v.xyz[0]);
      for (auto& e : s.edges) { double lo = 1e9, hi = -1; for (auto p : e.pins) { lo = std::min(lo, x[p]); hi = std::max(hi, x[p]); } e.w = ((lo + hi) / 2 < mx / 2) == left ? f : 1; }
    }
    s.kv["variant"] = I(r.below(64));
    Op o; o.a = {"bal", kind == 2 || kind == 3 ? "prio=0:1.1" : kind == 4 ? "prio=-1:1.5,0:1.1" : "prio=-1:1.1"};
    if (r.chance(50)) o.a.push_back("sf=0.2");
    if (hyper && r.chance(30)) o.a.push_back("dq=0");
    if (r.chance(30)) o.a.push_back("push=0");
    if (r.chance(20)) o.a.push_back("c=1");
    if (N == 2 && kind < 2 && r.chance(25)) o.a.push_back("pw=1");
    s.ops.push_back(o);
    s.kv["family"] = familyOf(s);
  };
  p.valid = familyValid;
  p.hooks = [](const Spec& s, sim::Hooks& h, int job) { partHooks(s, h, job, "C04"); };
  p.quickRuns = 3000; p.thoroughRuns = 100000;
  p.rule = "a case is one simulated job that balances column strips of a structured mesh to 1.1, the vertices, vertices of different weight, the edges, edges of different weight or those below vertices that have room being out of balance; the imbalance is recomputed from the model; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair"; p.real = "agi/*, pcu/*, support/*, partition/*"; p.stub = "MPI, clock";
  return p; }());

static RegP c05([] {
  Property p; p.id = "C05";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    s.kv["workload"] = "graph";
    int N = r.range(2, r.chance(70) ? 4 : 8); s.kv["nranks"] = I(N);
    genSchedule(s, r);
    if (r.chance(65)) genMesh(s, r, th ? 120 : 60, -1, r.chance(50));
    else { GraphOpts g; g.maxV = th ? 70 : 44; g.connected = r.chance(70); g.symmetric = true; genGraph(s, r, g); }
    s.kv["variant"] = I(r.below(64));
    bool hyper = s.num("hyper"); int nt = (int)s.num("ntypes");
    std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner;
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) {
      if (r.chance(20)) s.ops.push_back(migOp(s, r, own, N));
      static const char* tol[] = {"1.05", "1.1", "1.02", "1.3", "1.01", "2"};
      static const char* sf[] = {"0.1", "0.3", "0.5", "0.05", "1", "0.01"};
      std::vector<int> dims; for (int t = -1; t < nt; t++) dims.push_back(t);
      if (r.chance(60)) for (size_t k = dims.size(); k > 1; k--) std::swap(dims[k - 1], dims[r.below((int)k)]);
      int c = r.chance(50) ? 1 : r.range(1, (int)dims.size());
      std::string pr; for (int k = 0; k < c; k++) pr += (k ? "," : "") + I(dims[k]) + ":" + (k + 1 < c && r.chance(60) ? "4" : tol[r.below(6)]);
      Op o; o.a = {"bal", "prio=" + pr, std::string("sf=") + sf[r.below(6)], "maxit=1"};
      if (r.chance(15)) o.a.push_back("cg=1");
      if (hyper && r.chance(40)) o.a.push_back("dq=0");
      if (hyper && r.chance(30)) o.a.push_back("push=0");
      if (r.chance(30)) o.a.push_back("side=" + I(r.below(nt)));
      if (r.chance(25)) o.a.push_back("lim=0.01");
      s.ops.push_back(o);
    }
  };
  p.hooks = [](const Spec& s, sim::Hooks& h, int job) { partHooks(s, h, job, "C05"); };
  p.quickRuns = 3000; p.thoroughRuns = 100000;
  p.rule = "a case is one simulated job that takes 1-4 single steps of diffusive balancing on a generated graph, with migrations in between; the placements before and after each step are compared with the step rule recomputed from the model; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair"; p.real = "agi/*, pcu/*, support/*, partition/*"; p.stub = "MPI, clock";
  return p; }());

static RegP c02([] {
  Property p; p.id = "C02";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    s.kv["workload"] = "graph";
    int N = r.range(2, r.chance(70) ? 4 : 8);
    s.kv["nranks"] = I(N);
    genSchedule(s, r);
    if (r.chance(75)) genMesh(s, r, th ? 120 : 60, r.chance(75), r.chance(50));
    else { GraphOpts g; g.maxV = th ? 70 : 44; g.connected = true; genGraph(s, r, g); }
    s.kv["variant"] = I(r.below(64));
    bool hyper = s.num("hyper"); int nt = (int)s.num("ntypes");
    std::vector<int> dims; for (int t = -1; t < nt; t++) dims.push_back(t);
    if (r.chance(40)) for (size_t i = dims.size(); i > 1; i--) std::swap(dims[i - 1], dims[r.below((int)i)]);
    static const char* tol[] = {"1.1", "1.05", "1.2", "1.5", "2", "1.3"};
    std::string pr; std::vector<std::string> extra;
    static const char* sf[] = {"0.1", "0.3", "0.5", "1"};
    extra.push_back(std::string("sf=") + sf[r.below(4)]);
    if (hyper && r.chance(40)) extra.push_back("dq=0");
    if (hyper && r.chance(30)) extra.push_back("push=0");
    if (r.chance(15)) { extra.push_back("mc=2"); extra.push_back("ct=" + I(r.below(nt))); }
    if (r.chance(20)) extra.push_back("c=1");
    // first every criterion alone, then again with one more of lower priority
    for (size_t i = 0; i < dims.size(); i++) {
      pr += (i ? "," : "") + I(dims[i]) + ":" + tol[r.below(6)];
      Op o; o.a = {"bal", "prio=" + pr}; for (auto& x : extra) o.a.push_back(x);
      s.ops.push_back(o);
    }
  };
  p.hooks = [](const Spec& s, sim::Hooks& h, int job) { partHooks(s, h, job, "C02"); };
  p.quickRuns = 3000; p.thoroughRuns = 100000;
  p.rule = "a case is one simulated job that balances a generated graph with one, then two, then more criteria of decreasing priority; the part weights before and after each balance are recomputed from the model; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair"; p.real = "agi/*, pcu/*, support/*, partition/*"; p.stub = "MPI, clock";
  return p; }());

// one vertex per rank standing for the rank's load, edges between neighbours
static void genPartGraph(Spec& s, Rnd& r, bool per1) {
  int N = (int)s.num("nranks");
  s.kv["hyper"] = r.chance(40) ? "1" : "0"; s.kv["ntypes"] = I(r.chance(70) ? 1 : 2);
  bool hyper = s.num("hyper");
  int shape = r.below(3);
  std::vector<std::vector<gid>> ids(N); gid id = r.chance(50) ? 0 : 100;
  for (int i = 0; i < N; i++) {
    int k = per1 ? 1 : r.below(4);
    for (int j = 0; j < k; j++) {
      GVert v; v.id = id; v.owner = i; v.w = r.chance(50) ? 50 * (1 + r.below(40)) : 0.25 * (1 + r.below(9000));
      if (r.chance(10)) v.w = 1;
      v.xyz[0] = v.xyz[1] = v.xyz[2] = 0; s.verts.push_back(v); ids[i].push_back(id++);
    }
  }
  for (int t = 0; t < (int)s.num("ntypes"); t++) {
    gid eid = 0;
    auto edge = [&](std::vector<gid> p) { GEdge e; e.type = t; e.id = eid++; e.home = 0; e.w = 1 + r.below(3); e.pins = p; s.edges.push_back(e); };
    for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) {
      bool nb = shape == 0 ? j == i + 1 || (i == 0 && j == N - 1) : shape == 1 ? true : r.chance(60);
      if (!nb) continue;
      for (gid a : ids[i]) for (gid b : ids[j]) {
        if (!per1 && r.chance(35)) continue;
        double w0 = 0; (void)w0;
        if (hyper) edge({a, b}); else { edge({a, b}); double w = s.edges.back().w; edge({b, a}); s.edges.back().w = w; }
      }
    }
    if (hyper && r.chance(40) && s.verts.size() > 2) { std::vector<gid> p; for (auto& v : s.verts) if (p.size() < 4) p.push_back(v.id); edge(p); }
  }
}
static RegP c03([] {
  Property p; p.id = "C03";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    s.kv["workload"] = "graph";
    int N = r.chance(6) ? 1 : r.range(2, r.chance(70) ? 4 : 8);
    s.kv["nranks"] = I(N);
    genSchedule(s, r);
    int k = r.below(10);
    if (r.chance(15)) {   // one heavy vertex per process, every process within reach: the weights must even out
      N = r.range(2, 5); s.kv["nranks"] = I(N);
      bool hyper = r.chance(50), all = r.chance(50); s.kv["hyper"] = I(hyper); s.kv["ntypes"] = "1";
      for (int i = 0; i < N; i++) { GVert v; v.id = 10 + i; v.owner = i; v.w = 1000 * (1 + r.below(9)); v.xyz[0] = v.xyz[1] = v.xyz[2] = 0; s.verts.push_back(v); }
      gid id = 0; auto edge = [&](gid a, gid b) { GEdge e; e.type = 0; e.id = id++; e.home = 0; e.w = 1; e.pins = {a, b}; s.edges.push_back(e); };
      for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) if (all || j == i + 1) { edge(10 + i, 10 + j); if (!hyper) edge(10 + j, 10 + i); }
      s.kv["variant"] = I(r.below(64));
      static const char* sf[] = {"0.1", "0.3", "0.5"};
      s.ops.push_back(op({"balw", std::string("tol=") + (r.chance(50) ? "1.1" : "1.05"), std::string("sf=") + sf[r.below(3)], "et=0", "verb=-1"}));
      s.kv["family"] = familyOf(s); s.kv["strong"] = "1";
      return;
    }
    if (k < 4) genPartGraph(s, r, true);
    else if (k < 8) genPartGraph(s, r, false);
    else { GraphOpts g; g.maxV = th ? 60 : 30; genGraph(s, r, g); if (r.chance(70)) { s.kv.erase("unit_weights"); for (auto& v : s.verts) v.w *= 100; } }
    s.kv["variant"] = I(r.below(64));
    if (r.chance(20)) s.kv["coords"] = "1";
    std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner;
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
      if (i && r.chance(30)) s.ops.push_back(migOp(s, r, own, N));
      static const char* tol[] = {"1.05", "1.1", "1.02", "1.3", "1.01", "2"};
      static const char* sf[] = {"0.1", "0.3", "0.5", "0.05", "1"};
      static const char* vb[] = {"-1", "-1", "0", "1", "2", "3"};
      Op o; o.a = {"balw", std::string("tol=") + tol[r.below(6)], std::string("sf=") + sf[r.below(5)], "et=" + I(r.below((int)s.num("ntypes"))), std::string("verb=") + vb[r.below(6)]};
      if (r.chance(45)) o.a.push_back("maxit=" + I(r.chance(50) ? 1 : r.range(2, 40)));
      s.ops.push_back(o);
      if (r.chance(30)) s.ops.push_back(op({"metrics"}));
    }
  };
  p.valid = [](const Spec& s) { return s.get("family").empty() || familyValid(s); };
  p.hooks = [](const Spec& s, sim::Hooks& h, int job) { partHooks(s, h, job, "C03"); };
  p.quickRuns = 4000; p.thoroughRuns = 120000;
  p.rule = "a case is one simulated job that diffuses vertex weights on a generated graph 1-3 times; totals, the weight plan and ghost copies are recomputed from the model after each; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair"; p.real = "agi/*, pcu/*, support/*, partition/*"; p.stub = "MPI, clock";
  return p; }());

static RegP g01([] {
  Property p; p.id = "G01";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    s.kv["workload"] = "graph";
    int N = r.chance(6) ? 1 : r.range(2, r.chance(70) ? 4 : 8);
    s.kv["nranks"] = I(N);
    genSchedule(s, r);
    if (r.chance(45)) genMesh(s, r, th ? 100 : 48, -1, r.chance(40));
    else { GraphOpts g; g.maxV = th ? 60 : 36; g.symmetric = r.chance(60); g.maxTypes = 4; genGraph(s, r, g); }
    s.kv["variant"] = I(r.below(64));
    if (r.chance(40)) s.kv["pcu_order"] = "1";
    if (r.chance(1) && r.chance(30)) {   // every edge type there can be, each with a five-digit number of pins
      GraphOpts g; g.minV = g.maxV = 104; g.hyper = 1; g.maxTypes = 1; g.spread = false; s.verts.clear(); s.edges.clear();
      genGraph(s, r, g); s.edges.clear(); s.kv["ntypes"] = "7";
      for (int t = 0; t < 7; t++) for (int i = 0; i < 98; i++) { GEdge e; e.type = t; e.id = i; e.home = 0; e.w = 1; for (auto& v : s.verts) e.pins.push_back(v.id); s.edges.push_back(e); }
      s.ops.push_back(op({"stats"}));
      return;
    }
    std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner;
    auto ask = [&] {
      static const char* nm[] = {"", "a", "split", "before", "afterbalance", "final_result"};
      int k = r.below(3);
      if (k != 1) { Op o; o.a = {"eval", nm[r.below(6)]}; if (o.a[1].empty()) o.a.pop_back(); else if (r.chance(20)) { o.a[1] = ""; } s.ops.push_back(o); }
      if (k != 0) s.ops.push_back(op({"metrics", I(r.below(2))}));
      if (r.chance(30)) s.ops.push_back(op({"stats"}));
    };
    ask();
    int n = r.range(0, 3);
    for (int i = 0; i < n; i++) {
      if (r.chance(20)) {
        Op o; balArgs(r, s.num("hyper"), (int)s.num("ntypes"), o, true);
        o.a.erase(std::remove_if(o.a.begin(), o.a.end(), [](const std::string& x) { return x.substr(0, 5) == "verb=" || x.substr(0, 6) == "maxit="; }), o.a.end());
        o.a.push_back("verb=" + I(r.below(3)));
        if (!std::count(o.a.begin(), o.a.end(), std::string("c=1"))) o.a.push_back("maxit=" + I(r.chance(50) ? 1 : r.range(2, 12)));
        s.ops.push_back(o);
      } else if (r.chance(75)) s.ops.push_back(migOp(s, r, own, N));
      ask();
    }
  };
  p.hooks = [](const Spec& s, sim::Hooks& h, int job) { partHooks(s, h, job, "G01"); };
  p.quickRuns = 8000; p.thoroughRuns = 200000;
  p.rule = "a case is one simulated job that asks for the partition report and the metrics of a generated graph before and after generated migrations; every printed number is recomputed from the model; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair"; p.real = "agi/*, pcu/*, support/*, partition/*"; p.stub = "MPI, clock";
  return p; }());

// jobs that start on a subset of the processes and are split onto all of them
static void genSplit(Spec& s, Rnd& r, bool th, bool quality) {
  s.kv["workload"] = "graph";
  int nS = r.range(1, 4), sf = r.range(1, std::max(1, 8 / nS));
  int N; std::string me = r.chance(40) ? "LOCAL_PARMETIS" : r.chance(60) ? "GLOBAL_PARMETIS" : "ZOLTAN";
  if (me == "LOCAL_PARMETIS") { while (nS * sf < 2) { nS = r.range(1, 4); sf = r.range(1, 8 / nS); } N = nS * sf; }
  else N = r.range(std::max(2, nS), 8);
  s.kv["nranks"] = I(N);
  genSchedule(s, r);
  // the graph lives on nS ranks
  s.kv["nranks"] = I(nS);
  if (quality) {
    // column strips of a mesh, enough elements per final part
    bool hyper = r.chance(50);
    // (parallel ParMETIS itself is erratic on small graphs)
    int want = me == "GLOBAL_PARMETIS" && nS > 1 ? 60 : 14;
    int ny = want == 60 ? r.range(8, 12) : r.range(4, 8), per = (want * N / nS + ny - 1) / ny;
    if (r.chance(10)) per = std::max(per, 260 / ny + 1);
    std::vector<int> wd; for (int i = 0; i < nS; i++) wd.push_back(std::max(per, 3) + r.below(4));
    stripMesh(s, wd, ny, hyper);
  } else if (r.chance(3)) { GraphOpts g; g.fat = true; g.minV = 260; g.maxV = 300; g.symmetric = true; g.bigIds = false; genGraph(s, r, g); }   // more than a byte holds
  else if (r.chance(60)) genMesh(s, r, th ? 100 : 60, -1, r.chance(40));
  else { GraphOpts g; g.maxV = th ? 60 : 40; g.minV = nS; g.symmetric = true; g.bigIds = false; g.hyper = -1; g.connected = r.chance(70); genGraph(s, r, g); }
  // the partitioners need vertices on every starting rank
  if (quality || r.chance(90)) { std::vector<int> cnt(nS, 0); for (auto& v : s.verts) cnt[v.owner]++;
    size_t at = 0;
    for (int i = 0; i < nS; i++) while (!cnt[i] && at < s.verts.size()) { auto& v = s.verts[at++]; if (cnt[v.owner] > 1) { cnt[v.owner]--; v.owner = i; cnt[i]++; } } }
  if (quality) {
    // heavier elements in one region, and couplings that are strong in one direction only
    double mx = 0, my = 0; for (auto& v : s.verts) { mx = std::max(mx, v.xyz[0]); my = std::max(my, v.xyz[1]); }
    if (r.chance(50)) { s.kv.erase("unit_weights"); int f = r.range(2, 4), side = r.below(4); for (auto& v : s.verts) { double p = side < 2 ? v.xyz[0] / (mx + 1) : v.xyz[1] / (my + 1); v.w = (side % 2 ? p < 0.4 : p > 0.6) ? f : 1; } }
    if (r.chance(40)) { s.kv.erase("unit_edge_weights"); int dir = r.below(2); s.kv["strong"] = I(dir);
      for (auto& e : s.edges) { bool same = true; if (s.num("hyper")) continue; for (auto p : e.pins) same &= s.verts[p].xyz[dir] == s.verts[e.pins[0]].xyz[dir]; e.w = same ? 1 : 8; } }
  } else
  for (auto& v : s.verts) v.w = 1 + (int)(v.w * 4) % 5;
  if (!quality) for (auto& e : s.edges) { e.w = 1 + (int)(e.w * 4) % 3; if (!s.num("hyper")) e.w = 1 + (e.pins[0] * e.pins[1]) % 3; }
  s.kv["nranks"] = I(N);
  std::vector<int> perm; for (int i = 0; i < N; i++) perm.push_back(i);
  if (r.chance(60)) for (int i = N - 1; i > 0; i--) std::swap(perm[i], perm[r.below(i + 1)]);
  std::string l; for (int i = 0; i < nS; i++) l += (i ? "," : "") + I(perm[i]);
  s.kv["members"] = l;
  s.kv["variant"] = I(r.below(64));
  if (!quality && r.chance(30)) s.kv["coords"] = "1";
  if (r.chance(40)) s.kv["pcu_order"] = "1";
  // a tolerance no whole number of elements can meet makes METIS give up on the cut
  static const char* tol[] = {"1.1", "1.2", "1.05", "1.02"};
  Op o; o.a = {"split", "method=" + me, std::string("tol=") + tol[r.below(quality ? 2 : 4)], "et=" + I(me == "ZOLTAN" ? 0 : r.below((int)s.num("ntypes")))};
  if (me == "LOCAL_PARMETIS") {
    o.a.push_back("sf=" + I(sf));
    // each original rank keeps its own place and takes sf-1 new ranks
    std::vector<int> fresh(perm.begin() + nS, perm.end()); std::string ol; size_t f = 0;
    bool keep = r.chance(70); std::vector<int> all = perm; 
    for (int i = 0; i < nS; i++) for (int k = 0; k < sf; k++) {
      int t = keep ? (k == 0 ? perm[i] : fresh[f++]) : all[(i * sf + k + 1) % N];
      ol += (ol.empty() ? "" : ",") + I(t);
    }
    o.a.push_back("others=" + ol);
  }
  if (me != "ZOLTAN" && r.chance(30)) o.a.push_back("c=1");
  s.ops.push_back(o);
}
static RegP d01([] {
  Property p; p.id = "D01";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    genSplit(s, r, th, false);
    bool hyper = s.num("hyper"); int nt = (int)s.num("ntypes"), N = (int)s.num("nranks");
    std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner;
    if (r.chance(60)) s.ops.push_back(op({"part"}));
    if (r.chance(40)) { Op o; balArgs(r, hyper, nt, o, false); s.ops.push_back(o); }
    if (r.chance(30)) { s.ops.push_back(migOp(s, r, own, N)); s.ops.push_back(op({"part"})); }
    if (r.chance(30)) s.ops.push_back(op({"eval", "end"}));
    if (r.chance(20)) s.ops.push_back(op({"tags", I(r.range(1, 100000)), "7"}));
  };
  p.valid = splitValid;
  p.hooks = [](const Spec& s, sim::Hooks& h, int job) { partHooks(s, h, job, "D01"); };
  p.quickRuns = 3000; p.thoroughRuns = 60000;
  p.rule = "a case is one simulated job that starts on some of its processes, is split onto all of them by ParMETIS or Zoltan, and continues with balancing, migration, queries; the whole observable graph is compared with the model after each operation; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair"; p.real = "agi/*, pcu/*, support/*, partition/*, ParMETIS, METIS, Zoltan"; p.stub = "MPI, clock";
  return p; }());
static RegP d02([] {
  Property p; p.id = "D02";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) { genSplit(s, r, th, true); s.kv["family"] = familyOf(s); };
  p.valid = familyValid;
  p.hooks = [](const Spec& s, sim::Hooks& h, int job) { partHooks(s, h, job, "D02"); };
  p.quickRuns = 2000; p.thoroughRuns = 60000;
  p.rule = "a case is one simulated job that splits column strips of a structured mesh onto more processes; the imbalance and cut of every group of parts are recomputed from the model; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair"; p.real = "agi/*, pcu/*, support/*, partition/*, ParMETIS, METIS, Zoltan"; p.stub = "MPI, clock";
  return p; }());

// The same program twice: what may differ between the runs is the schedule,
// the message timing and the diagnostics, never the outcome.
static RegP h01([] {
  Property p; p.id = "H01";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    bool split = r.chance(12);
    if (split) genSplit(s, r, th, false);
    else {
      s.kv["workload"] = "graph";
      int N = r.chance(8) ? 1 : r.range(2, r.chance(70) ? 4 : 8);
      s.kv["nranks"] = I(N);
      genSchedule(s, r);
      if (r.chance(60)) genMesh(s, r, th ? 80 : 40, -1, r.chance(40));
      else { GraphOpts g; g.maxV = th ? 50 : 30; g.connected = r.chance(60); genGraph(s, r, g); }
      if (r.chance(20)) fineWeights(s);
      s.kv["variant"] = I(r.below(64));
      if (r.chance(25)) s.kv["coords"] = "1";
      if (r.chance(25)) s.kv["early_orig"] = "1";
      if (r.chance(25)) s.kv["engpar_layer"] = "1";
    }
    s.kv["jobs"] = "2";
    s.kv["log1"] = I(r.chance(25)); s.kv["log2"] = I(r.chance(60));
    bool hyper = s.num("hyper"); int nt = (int)s.num("ntypes"), N = (int)s.num("nranks");
    std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner;
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
      int k = r.below(10);
      Op o;
      if (k < 2) o = migOp(s, r, own, N);
      else if (k < 6) balArgs(r, hyper, nt, o, true);
      else if (k < 8) { static const char* tol[] = {"1.05", "1.1", "1.3"}; o.a = {"balw", std::string("tol=") + tol[r.below(3)], "sf=0.3", "et=" + I(r.below(nt)), "verb=" + I(r.range(-1, 3))}; }
      else if (k < 9) o.a = {"part"};
      else o.a = {"eval", "x"};
      if (k >= 2 && k < 8) o.a.push_back("verb2=" + I(r.range(-1, 3)));
      s.ops.push_back(o);
    }
    if (nt > 1 && r.chance(30)) s.ops.push_back(op({"rmtype", I(r.below(nt))}));
    if (r.chance(30)) s.ops.push_back(op({"reset", I(r.below(2))}));
    if (r.chance(30)) s.ops.push_back(op({"part"}));
  };
  p.valid = splitValid;
  p.hooks = [](const Spec& s, sim::Hooks& h, int job) { partHooks(s, h, job, "H01"); };
  p.quickRuns = 3000; p.thoroughRuns = 60000;
  p.rule = "a case is one program (migrations, balances, weight balances, splits, reports on a generated graph) simulated twice with independent schedules, message delays, clocks, verbosity and logging; the vertices and weights of every rank after every operation must be the same in both; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.real = "agi/*, pcu/*, support/*, partition/*, ParMETIS, METIS, Zoltan, glibc stdio"; p.stub = "MPI, clock, file system below fopen";
  return p; }());

// Everything through the C interface; balancing and splitting are repeated
// through the C++ interface by a second job, with the same outcome.
static RegP g02([] {
  Property p; p.id = "G02";
  p.gen = [](Spec& s, Rnd& r, bool th, uint64_t) {
    bool split = r.chance(25);
    if (split) { do { s = Spec(); genSplit(s, r, th, false); } while (s.ops[0].a[1] == "method=ZOLTAN"); }
    else {
      s.kv["workload"] = "graph";
      int N = r.chance(8) ? 1 : r.range(2, r.chance(70) ? 4 : 8);
      s.kv["nranks"] = I(N);
      genSchedule(s, r);
      if (r.chance(60)) genMesh(s, r, th ? 80 : 40, -1, false);
      else { GraphOpts g; g.maxV = th ? 50 : 30; g.ids32 = true; g.connected = r.chance(60); genGraph(s, r, g); }
      if (r.chance(20)) fineWeights(s);
      s.kv["variant"] = I(r.below(64));
      if (r.chance(40)) s.kv["engpar_layer"] = "1";
    }
    // the C interface has no way to leave weights out or to set coordinates
    s.kv.erase("unit_weights"); s.kv.erase("unit_edge_weights"); s.kv.erase("coords");
    s.kv["capi"] = "1"; s.kv["jobs"] = "2";
    bool hyper = s.num("hyper"); int nt = (int)s.num("ntypes"), N = (int)s.num("nranks");
    auto viaC = [&](Op& o) { std::vector<std::string> k; for (auto& x : o.a) if (x != "c=1" && x.compare(0, 3, "dq=") && x.compare(0, 5, "push=")) k.push_back(x); k.push_back("c=2"); o.a = k; };
    if (split) viaC(s.ops[0]);
    std::map<gid, int> own; for (auto& v : s.verts) own[v.id] = v.owner;
    int n = r.range(1, 4); bool saved = false;
    for (int i = 0; i < n; i++) {
      int k = r.below(12);
      Op o;
      if (k < 1) o = migOp(s, r, own, N);
      else if (k < 6) { balArgs(r, hyper, nt, o, false); viaC(o); if (r.chance(40)) o.a.push_back("cg=1"); if (r.chance(40)) { static const char* l[] = {"1", "0.5", "3", "0.01"}; o.a.push_back(std::string("lim=") + l[r.below(4)]); } }
      else if (k < 8) o.a = {"part"};
      else if (k < 9) o.a = {"eval", "@c"};
      else if (k < 10) o.a = {"valid"};
      else if (k < 11 || !saved) { o.a = {"save", "c/g"}; saved = true; }
      else o.a = {"load", "c/g"};
      s.ops.push_back(o);
    }
    if (saved && r.chance(60)) s.ops.push_back(op({"load", "c/g"}));
    if (r.chance(60)) s.ops.push_back(op({"part"}));
  };
  p.valid = [](const Spec& s) { bool sv = false; for (auto& o : s.ops) { if (o.a[0] == "save") sv = true; if (o.a[0] == "load" && !sv) return false; } return splitValid(s); };
  p.hooks = [](const Spec& s, sim::Hooks& h, int job) { partHooks(s, h, job, "G02"); };
  p.quickRuns = 4000; p.thoroughRuns = 80000;
  p.rule = "a case is one program built on the C interface (construction, ghosts, migration, balance, split, save, load, report, partition query), checked against the reference model and, for balance and split, against the same program using the C++ interface; non-trivial = at least two ranks, messages exchanged and a non-default scheduling or network decision; distinct = different (scenario, interleaving) pair";
  p.real = "interfaces/cengpar.cpp, agi/*, pcu/*, support/*, partition/*, ParMETIS, METIS, glibc stdio"; p.stub = "MPI, clock, file system below fopen";
  return p; }());
