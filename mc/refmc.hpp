// A small, independent model of a multigroup fixed-source problem: the document it is written as, and a reference
// history simulator that explores the same lattice of uniform draws. Nothing here uses the code under test.
#pragma once
#include "choice.hpp"
#include "mini.hpp"
#include <array>
#include <cmath>
#include <limits>
#include <map>
#include <string>
#include <vector>

namespace ref {
constexpr double inf = std::numeric_limits<double>::infinity();
struct V { double x = 0, y = 0, z = 0; };
inline V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V operator*(double k, V a) { return {k * a.x, k * a.y, k * a.z}; }
inline double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V unit(V a) { return (1 / std::sqrt(dot(a, a))) * a; }

struct Surface {
  std::string name;
  char kind;  // s: sphere, p: planex, c: cylinderx
  V c;        // centre; plane at c.x
  double r = 0;
  // signed function, negative inside
  long double f(V p) const {
    const long double x = (long double)p.x - c.x, y = (long double)p.y - c.y, z = (long double)p.z - c.z;
    if (kind == 'p') return x;
    if (kind == 'c') return (long double)p.y * p.y + (long double)p.z * p.z - (long double)r * r;
    return x * x + y * y + z * z - (long double)r * r;
  }
  // all intersections along the ray, ascending, any sign
  std::vector<long double> roots(V o, V d) const {
    if (kind == 'p') { if (d.x == 0) return {}; return {((long double)c.x - o.x) / d.x}; }
    long double a, b, cc;
    if (kind == 'c') {
      a = (long double)d.y * d.y + (long double)d.z * d.z;
      b = (long double)o.y * d.y + (long double)o.z * d.z;
      cc = (long double)o.y * o.y + (long double)o.z * o.z - (long double)r * r;
      if (a == 0) return {};
    } else {
      const long double x = (long double)o.x - c.x, y = (long double)o.y - c.y, z = (long double)o.z - c.z;
      a = (long double)d.x * d.x + (long double)d.y * d.y + (long double)d.z * d.z;
      b = x * d.x + y * d.y + z * d.z;
      cc = x * x + y * y + z * z - (long double)r * r;
    }
    const long double disc = b * b - a * cc;
    if (disc <= 0) return {};
    const long double s = sqrtl(disc);
    return {(-b - s) / a, (-b + s) / a};
  }
};
struct Reacts {
  std::vector<double> capture, scatter, fxs, nubar, chi;  // scatter and chi: row = outgoing group, column = incident
  bool has_fission() const { return !fxs.empty(); }
  double scat(int G, int in) const { double s = 0; if (!scatter.empty()) for (int o = 0; o < G; o++) s += scatter[o * G + in]; return s; }
  double total(int G, int in) const { return (capture.empty() ? 0 : capture[in]) + scat(G, in) + (fxs.empty() ? 0 : fxs[in]); }
};
struct Nuclide { std::string name; std::map<std::string, Reacts> by; };
struct Material { std::string name; double aden; std::vector<std::pair<std::string, double>> nuc; };
struct Cell { std::string name, material; std::vector<std::pair<std::string, int>> s; std::string temperature; };
struct Tally { std::string name, surface; std::vector<double> cosb; V ref{1, 0, 0}; std::vector<double> eb; std::vector<std::string> sens; };
struct Problem {
  int G = 1;
  std::vector<Surface> surfaces;
  std::vector<Nuclide> nuclides;
  std::vector<Material> materials;
  std::vector<Cell> cells;
  std::vector<Tally> tallies;
  std::vector<std::pair<std::string, std::string>> perturbations;  // name, nuclide
  V pos; V dir{1, 0, 0};
  std::string dirkind = "constant", type = "neutron", particles = "neutron", tracking;
  int group = 1, histories = 1, threads = 1;
  long long seed = 1;
  std::string nuclides_text, temperature_text, energy_text;  // continuous energy: replaces the <nuclides> element; <temperature> element; source energy

  const Surface& surf(const std::string& n) const { for (auto& s : surfaces) if (s.name == n) return s; fprintf(stderr, "no surface %s\n", n.c_str()); _exit(97); }
  const Material& mat(const std::string& n) const { for (auto& s : materials) if (s.name == n) return s; fprintf(stderr, "no material %s\n", n.c_str()); _exit(97); }
  const Nuclide& nuc(const std::string& n) const { for (auto& s : nuclides) if (s.name == n) return s; fprintf(stderr, "no nuclide %s\n", n.c_str()); _exit(97); }
};
inline std::string list(const std::vector<double>& v) { std::string s; for (double d : v) s += mini::num(d) + " "; return s; }
inline std::string pt(V p, const char* a = "x", const char* b = "y", const char* c = "z") {
  return std::string(a) + "=\"" + mini::num(p.x) + "\" " + b + "=\"" + mini::num(p.y) + "\" " + c + "=\"" + mini::num(p.z) + "\"";
}
inline std::string cells_xml(const Problem& p) {
  std::string x = "<surfaces>";
  for (auto& s : p.surfaces) {
    if (s.kind == 's') x += "<sphere name=\"" + s.name + "\"><center " + pt(s.c) + "/><radius r=\"" + mini::num(s.r) + "\"/></sphere>";
    if (s.kind == 'p') x += "<planex name=\"" + s.name + "\" x=\"" + mini::num(s.c.x) + "\"/>";
    if (s.kind == 'c') x += "<cylinderx name=\"" + s.name + "\" r=\"" + mini::num(s.r) + "\"/>";
  }
  x += "</surfaces><cells>";
  for (auto& c : p.cells) {
    x += c.material.empty() ? "<void>" : "<cell name=\"" + c.name + "\" material=\"" + c.material + "\"" + (c.temperature.empty() ? "" : " temperature=\"" + c.temperature + "\"") + ">";
    for (auto& [n, s] : c.s) x += "<surface name=\"" + n + "\" sense=\"" + (s < 0 ? "-1" : "+1") + "\"/>";
    x += c.material.empty() ? "</void>" : "</cell>";
  }
  return x + "</cells>";
}
inline std::string materials_xml(const Problem& p) {
  std::string x = "<materials>";
  for (auto& m : p.materials) {
    x += "<material name=\"" + m.name + "\" aden=\"" + mini::num(m.aden) + "\">";
    for (auto& [n, f] : m.nuc) x += "<nuclide name=\"" + n + "\" afrac=\"" + mini::num(f) + "\"/>";
    x += "</material>";
  }
  return x + "</materials>";
}
inline std::string nuclides_xml(const Problem& p) {
  std::string x = "<nuclides><multigroup groups=\"" + std::to_string(p.G) + "\">";
  for (auto& n : p.nuclides) {
    x += "<nuclide name=\"" + n.name + "\">";
    for (auto& [t, r] : n.by) {
      x += "<" + t + ">";
      if (!r.capture.empty()) x += "<capture>" + list(r.capture) + "</capture>";
      if (!r.scatter.empty()) x += "<scatter>" + list(r.scatter) + "</scatter>";
      if (!r.fxs.empty()) x += "<fission><xs>" + list(r.fxs) + "</xs><nubar>" + list(r.nubar) + "</nubar><chi>" + list(r.chi) + "</chi></fission>";
      x += "</" + t + ">";
    }
    x += "</nuclide>";
  }
  return x + "</multigroup></nuclides>";
}
inline std::string tallies_xml(const Problem& p) {
  std::string x;
  if (!p.perturbations.empty()) {
    x += "<perturbations>";
    for (auto& [n, nu] : p.perturbations) x += "<total name=\"" + n + "\" nuclide=\"" + nu + "\"/>";
    x += "</perturbations>";
  }
  if (p.tallies.empty()) return x;
  x += "<estimators>";
  for (auto& t : p.tallies) {
    x += "<current name=\"" + t.name + "\" surface=\"" + t.surface + "\">";
    if (!t.cosb.empty() || !t.eb.empty()) {
      x += "<bins>";
      if (!t.eb.empty()) x += "<energy><boundaries>" + list(t.eb) + "</boundaries></energy>";
      if (!t.cosb.empty()) x += "<cosine " + pt(t.ref, "u", "v", "w") + "><boundaries>" + list(t.cosb) + "</boundaries></cosine>";
      x += "</bins>";
    }
    if (!t.sens.empty()) { x += "<sensitivities>"; for (auto& s : t.sens) x += "<perturbation name=\"" + s + "\"/>"; x += "</sensitivities>"; }
    x += "</current>";
  }
  return x + "</estimators>";
}
inline std::string xml(const Problem& p) {
  std::string x = "<general><particles>" + p.particles + "</particles><histories>" + std::to_string(p.histories) + "</histories><threads>" +
                  std::to_string(p.threads) + "</threads><chunksize>1</chunksize><seed>" + std::to_string(p.seed) + "</seed>" +
                  (p.tracking.empty() ? "" : "<tracking>" + p.tracking + "</tracking>") + "</general>";
  x += (p.nuclides_text.empty() ? nuclides_xml(p) : p.nuclides_text) + materials_xml(p) + cells_xml(p) + p.temperature_text;
  x += "<problemtype><fixedsource><position><constant " + pt(p.pos) + "/></position><direction>";
  x += p.dirkind == "isotropic" ? std::string("<isotropic/>") : "<" + p.dirkind + " " + pt(p.dir) + "/>";
  x += "</direction><energy><constant energy=\"" + (p.energy_text.empty() ? std::to_string(p.group) : p.energy_text) + "\"/></energy><particletype><constant type=\"" + p.type + "\"/></particletype></fixedsource></problemtype>";
  x += tallies_xml(p);
  return mini::wrap(x);
}

// ---- names that are easily taken for each other ------------------------------------------------------------------
constexpr int kSchemes = 9;  // scheme 0: as they are
inline std::string label(int scheme, size_t i) {
  static const std::vector<std::vector<std::string>> few{
      {"1", "01", "1.0", "10", "+1", "1e0", "001", "100", "-1", "0", "11", "2"},
      {"a b", "b a", "ab", "a.b", "a-b", "a_b", "a:b", "a::b", "a/b", "\xc3\xa4", "\xc3\xa5", "a"},
      {"abc", "acb", "bac", "bca", "cab", "cba", "aabc", "aacb", "abbc", "accb", "baac", "bbca"}};
  const char c = (char)('a' + i % 26);
  const std::string more = i < 12 ? "" : std::to_string(i);
  switch (scheme) {
    case 1: return "a rather long name the first parts of which are all the same " + std::to_string(i);
    case 2: { std::string t = "name"; for (int b = 0; b < 4; b++) if (i >> b & 1) t[b] -= 32; return t + more; }
    case 3: return std::string(15 - i % 12, 'x') + more;   // prefixes of each other, the longest first
    case 4: return std::string(1 + i % 12, 'x') + more;    // ... the shortest first
    case 5: return std::string(1, c) + " and a common end" + more;
    case 6: case 7: case 8: return few[scheme - 6][i % 12] + more;
  }
  return "name" + std::to_string(i);
}
// renames everything that has a name; the names of different kinds coincide
inline Problem rename(Problem p, int scheme, size_t shift = 0) {
  if (!scheme) return p;
  auto f = [&](auto& v) { std::map<std::string, std::string> m; size_t i = shift; for (auto& x : v) { const std::string was = x.name; x.name = label(scheme, i++); m[was] = x.name; } return m; };
  const auto s = f(p.surfaces), m = f(p.materials);
  std::map<std::string, std::string> n, q;
  if (p.nuclides_text.empty()) n = f(p.nuclides);
  f(p.tallies);
  size_t i = shift;
  for (auto& c : p.cells) { if (!c.material.empty()) { c.name = label(scheme, i++); c.material = m.at(c.material); } for (auto& [a, b] : c.s) a = s.at(a); }
  if (p.nuclides_text.empty()) for (auto& x : p.materials) for (auto& [a, b] : x.nuc) a = n.at(a);
  i = shift;
  for (auto& [a, b] : p.perturbations) { q[a] = label(scheme, i++); a = q[a]; if (p.nuclides_text.empty()) b = n.at(b); }
  for (auto& t : p.tallies) { t.surface = s.at(t.surface); for (auto& x : t.sens) x = q.at(x); }
  return p;
}

// ---- reference semantics ----------------------------------------------------------------------------------------
struct Part { V pos, dir; int g; };
struct Outcome {
  std::vector<int> counts;     // all tallies' bins, in document order
  std::vector<double> sens;    // all sensitivities' bins, in document order
  int collisions = 0, transported = 0;
};
inline size_t bins_of(const Tally& t) { return (t.cosb.empty() ? 1 : t.cosb.size() + 1) * (t.eb.empty() ? 1 : t.eb.size() + 1); }
inline size_t axis_bin(const std::vector<double>& b, double v) { size_t i = 0; while (i < b.size() && v >= b[i]) i++; return i; }
inline size_t bin_of(const Tally& t, V dir, double e) {
  const size_t c = t.cosb.empty() ? 0 : axis_bin(t.cosb, dot(unit(t.ref), dir)), en = t.eb.empty() ? 0 : axis_bin(t.eb, e);
  return c * (t.eb.empty() ? 1 : t.eb.size() + 1) + en;
}
class Sim {
public:
  static std::function<V(choice::Tree&)>& sampler() { static std::function<V(choice::Tree&)> f; return f; }
  const Problem& p;
  explicit Sim(const Problem& p) : p{p} {
    for (auto& t : p.tallies) { toff.push_back(nb); nb += bins_of(t); for (size_t i = 0; i < t.sens.size(); i++) { soff.push_back(ns); ns += bins_of(t); } }
  }
  size_t nb = 0, ns = 0;
  std::vector<size_t> toff, soff;
  // the cell of a point slightly ahead along dir
  int locate(V pos, V dir, double ahead = 1e-8) const {
    const V q = pos + ahead * dir;
    for (size_t i = 0; i < p.cells.size(); i++) {
      bool in = true;
      for (auto& [n, s] : p.cells[i].s) in = in && ((p.surf(n).f(q) < 0) == (s < 0));
      if (in) return (int)i;
    }
    fprintf(stderr, "reference: point in no cell\n");
    _exit(97);
  }
  double micro(const Material& m, int g) const {
    double sum = 0, w = 0;
    for (auto& [n, f] : m.nuc) { sum += f * p.nuc(n).by.at(p.type).total(p.G, g - 1); w += f; }
    return sum / w;
  }
  // the lattice of isotropic directions is that of the code under test where it is given: C13 decides whether it is
  // isotropic, and a different polar axis is no error
  static V isotropic(choice::Tree& t) {
    if (sampler()) return sampler()(t);
    const double x = 2 * t.draw() - 1, phi = 2 * M_PI * t.draw(), s = std::sqrt(1 - x * x);
    return {x, s * std::cos(phi), s * std::sin(phi)};
  }
  // one history; secondaries are neutrons of the same problem
  void history(choice::Tree& t, Outcome& o) const {
    o.counts.assign(nb, 0);
    o.sens.assign(ns, 0);
    std::vector<Part> bank;
    bank.push_back({p.pos, p.dirkind == "isotropic" ? isotropic(t) : unit(p.dir), p.group});
    while (!bank.empty()) {
      Part a = bank.back();
      bank.pop_back();
      o.transported++;
      walk(a, t, o, bank);
      if (o.transported > 200) return;
    }
  }
  void walk(Part a, choice::Tree& t, Outcome& o, std::vector<Part>& bank) const {
    std::vector<double> eff(p.perturbations.size(), 0);
    int cell = locate(a.pos, a.dir);
    const Surface* last = nullptr;
    for (int steps = 0; steps < 2000; steps++) {
      const Cell& c = p.cells[cell];
      const Material& m = p.mat(c.material);
      const double sig = micro(m, a.g), lambda = m.aden * sig;
      const double u = t.draw();
      const double flight = lambda > 0 ? -std::log(1 - u) / lambda : inf;
      double ds = inf;
      const Surface* hit = nullptr;
      for (auto& [n, s] : c.s) {
        const Surface& sf = p.surf(n);
        for (long double r : sf.roots(a.pos, a.dir))
          if (r > (&sf == last ? 1e-9 : 0) && r < ds) { ds = (double)r; hit = &sf; }
      }
      const double d = std::min(flight, ds);
      for (size_t k = 0; k < eff.size(); k++) {
        bool has = false;
        for (auto& [n, f] : m.nuc) has = has || n == p.perturbations[k].second;
        if (has) eff[k] += 1 / sig - d;
      }
      a.pos = a.pos + d * a.dir;
      if (flight < ds) {
        last = nullptr;
        o.collisions++;
        if (p.tracking == "cell delta") t.draw();  // a real collision is certain: the majorant is the total
        // nuclide
        double w = 0;
        for (auto& [n, f] : m.nuc) w += f;
        double th = t.draw() * sig, acc = 0;
        const Nuclide* nu = nullptr;
        for (auto& [n, f] : m.nuc) { acc += f / w * p.nuc(n).by.at(p.type).total(p.G, a.g - 1); if (acc > th) { nu = &p.nuc(n); break; } }
        const Reacts& r = nu->by.at(p.type);
        const int in = a.g - 1;
        th = t.draw() * r.total(p.G, in);
        const double cap = r.capture.empty() ? 0 : r.capture[in], sc = r.scat(p.G, in);
        if (th < cap) return;
        if (th < cap + sc) {
          a.g = column(r.scatter, in, t.draw());
          a.dir = isotropic(t);
        } else {
          const int n = (int)std::floor(r.nubar[in] + t.draw());
          for (int i = 0; i < n; i++) { const int g = column(r.chi, in, t.draw()); bank.push_back({a.pos, isotropic(t), g}); }
          return;
        }
      } else {
        if (!hit) { fprintf(stderr, "reference: no boundary ahead\n"); _exit(97); }
        last = hit;
        size_t sk = 0;
        for (size_t k = 0; k < p.tallies.size(); k++) {
          const Tally& ta = p.tallies[k];
          if (ta.surface == hit->name) {
            const size_t b = bin_of(ta, a.dir, a.g);
            o.counts[toff[k]  + b]++;
            for (size_t q = 0; q < ta.sens.size(); q++)
              for (size_t e = 0; e < eff.size(); e++) if (p.perturbations[e].first == ta.sens[q]) o.sens[soff[sk + q] + b] += eff[e];
          }
          sk += ta.sens.size();
        }
        cell = locate(a.pos, a.dir);
        if (p.cells[cell].material.empty()) return;
      }
    }
    fprintf(stderr, "reference: history does not end\n");
    _exit(97);
  }
  int column(const std::vector<double>& m, int in, double u) const {
    double sum = 0, acc = 0;
    for (int o = 0; o < p.G; o++) sum += m[o * p.G + in];
    for (int o = 0; o < p.G; o++) { acc += m[o * p.G + in] / sum; if (acc > u) return o + 1; }
    return p.G;
  }
};

// ---- distributions over outcomes ----------------------------------------------------------------------------------
struct Entry { double w = 0; std::vector<double> s1, s2; };
using Dist = std::map<std::vector<int>, Entry>;
inline void add(Dist& d, const std::vector<int>& key, double w, const std::vector<double>& s) {
  Entry& e = d[key];
  e.w += w;
  e.s1.resize(s.size());
  e.s2.resize(s.size());
  for (size_t i = 0; i < s.size(); i++) { e.s1[i] += w * s[i]; e.s2[i] += w * s[i] * s[i]; }
}
inline std::string show(const std::vector<int>& k) { std::string s = "("; for (size_t i = 0; i < k.size(); i++) s += (i ? " " : "") + std::to_string(k[i]); return s + ")"; }
// empty when equal
inline std::string differ(const Dist& got, const Dist& want, double tol = 1e-9) {
  std::string r;
  int n = 0;
  auto miss = [&](const std::string& s) { if (n++ < 4) r += s + "; "; };
  char b[300];
  for (auto& [k, e] : want) {
    auto it = got.find(k);
    const double w = it == got.end() ? 0 : it->second.w;
    if (std::fabs(w - e.w) > tol) { snprintf(b, sizeof b, "%s has probability %.9g, expected %.9g", show(k).substr(0, 120).c_str(), w, e.w); miss(b); continue; }
    for (size_t i = 0; i < e.s1.size(); i++) {
      const double a1 = it->second.s1[i], a2 = it->second.s2[i];
      if (!(std::fabs(a1 - e.s1[i]) <= 2e-6 * (1 + std::fabs(e.s1[i]))) || !(std::fabs(a2 - e.s2[i]) <= 2e-5 * (1 + std::fabs(e.s2[i])))) {
        snprintf(b, sizeof b, "%s sensitivity bin %zu: moments %.9g %.9g, expected %.9g %.9g", show(k).substr(0, 120).c_str(), i, a1, a2, e.s1[i], e.s2[i]);
        miss(b);
      }
    }
  }
  for (auto& [k, e] : got) if (!want.count(k)) { snprintf(b, sizeof b, "%s has probability %.9g, expected 0", show(k).substr(0, 120).c_str(), e.w); miss(b); }
  if (n > 4) r += "... " + std::to_string(n) + " differences";
  return r;
}
}  // namespace ref
