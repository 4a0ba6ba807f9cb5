// Families of small problems whose discrete probabilities are multiples of 1/K, so that the lattice of draws realises
// them exactly and in any order.
#pragma once
#include "refmc.hpp"

namespace prob {
using ref::Problem; using ref::Nuclide; using ref::Material; using ref::Cell; using ref::Surface; using ref::Tally; using ref::Reacts; using ref::V;
using Vec = std::vector<double>;
inline Nuclide nuclide(const std::string& n, const Reacts& r, const std::string& type = "neutron") { Nuclide x; x.name = n; x.by[type] = r; return x; }

// bins on every surface: cosine bins against a direction, energy bins between groups
inline void tally_all(Problem& p, bool binned, V ref = {1, 0, 0}) {
  p.tallies.clear();
  for (auto& s : p.surfaces) {
    Tally t;
    t.name = "at " + s.name;
    t.surface = s.name;
    if (binned) { t.cosb = {-0.3, 0.05, 0.6}; t.ref = ref; if (p.G > 1) for (int g = 1; g < p.G; g++) t.eb.push_back(g + 0.5); }
    p.tallies.push_back(t);
  }
}
inline Problem slab(const Vec& planes, const std::vector<std::string>& mats) {
  Problem p;
  for (size_t i = 0; i < planes.size(); i++) { Surface s; s.name = "p" + std::to_string(i); s.kind = 'p'; s.c = {planes[i], 0, 0}; p.surfaces.push_back(s); }
  for (size_t i = 0; i + 1 < planes.size(); i++)
    p.cells.push_back({"c" + std::to_string(i), mats[i % mats.size()], {{"p" + std::to_string(i), 1}, {"p" + std::to_string(i + 1), -1}}, ""});
  p.cells.push_back({"", "", {{"p0", -1}}, ""});
  p.cells.push_back({"", "", {{"p" + std::to_string(planes.size() - 1), 1}}, ""});
  return p;
}
inline Problem shells(const Vec& radii, const std::vector<std::string>& mats, V c = {}) {
  Problem p;
  for (size_t i = 0; i < radii.size(); i++) { Surface s; s.name = "s" + std::to_string(i); s.kind = 's'; s.c = c; s.r = radii[i]; p.surfaces.push_back(s); }
  for (size_t i = 0; i < radii.size(); i++) {
    Cell cell{"c" + std::to_string(i), mats[i % mats.size()], {{"s" + std::to_string(i), -1}}, ""};
    if (i) cell.s.push_back({"s" + std::to_string(i - 1), 1});
    p.cells.push_back(cell);
  }
  p.cells.push_back({"", "", {{"s" + std::to_string(radii.size() - 1), 1}}, ""});
  return p;
}
// a sphere in a cylinder between two planes: core, fill; everything else void
inline Problem can(double rs, V cs, double rc, double x0, double x1, const std::string& core, const std::string& fill) {
  Problem p;
  p.surfaces = {{"ball", 's', cs, rs}, {"pipe", 'c', {}, rc}, {"left", 'p', {x0, 0, 0}, 0}, {"right", 'p', {x1, 0, 0}, 0}};
  p.cells = {{"core", core, {{"ball", -1}}, ""},
             {"fill", fill, {{"ball", 1}, {"pipe", -1}, {"left", 1}, {"right", -1}}, ""},
             {"", "", {{"left", -1}}, ""}, {"", "", {{"right", 1}}, ""}, {"", "", {{"pipe", 1}, {"left", 1}, {"right", -1}}, ""}};
  return p;
}
// columns of data sets. Group structure descends: scatter and fission only lead to later groups, the last one ends.
struct Data { std::string name; int G; std::vector<Nuclide> nuclides; std::vector<Material> materials; int K; };
inline Data absorber(int K) {
  Data d{"absorber", 1, {}, {}, K};
  Reacts r; r.capture = {2};
  d.nuclides = {nuclide("abs", r)};
  d.materials = {{"m0", 0.5, {{"abs", 1}}}, {"m1", 0.25, {{"abs", 3}}}};
  return d;
}
inline Data nothing() {
  Data d{"transparent", 1, {}, {}, 1};
  Reacts r; r.capture = {0};
  d.nuclides = {nuclide("none", r)};
  d.materials = {{"m0", 1, {{"none", 1}}}, {"m1", 3, {{"none", 2}}}};
  return d;
}
inline Data scatterer(int K) {  // K multiple of 2
  Data d{"scatterer", 3, {}, {}, K};
  Reacts a, b;
  a.capture = {1, 2, 3};
  a.scatter = {0, 0, 0, 0.5, 0, 0, 0.5, 2, 0};
  b.capture = {2, 4, 6};
  d.nuclides = {nuclide("a", a), nuclide("b", b)};
  // a and b have totals 2:2, 4:4, 3:6 -> with fractions 1:1 and 1:1 probability 1/2 (groups 1, 2), 1/3 (group 3, both capture)
  d.materials = {{"m0", 0.6, {{"a", 0.5}, {"b", 0.5}}}, {"m1", 0.3, {{"b", 2}}}};
  return d;
}
inline Data fissile(int K, double nu1, double nu2) {  // K multiple of 2
  Data d{"fissile", 3, {}, {}, K};
  Reacts a;
  a.capture = {1, 2, 1};
  a.fxs = {1, 2, 0};
  a.nubar = {nu1, nu2, 0};
  a.chi = {0, 0, 0, 0.5, 0, 0, 0.5, 1, 1};
  Reacts b;
  b.capture = {0, 1, 2};
  b.scatter = {0, 0, 0, 1, 0, 0, 1, 3, 0};
  d.nuclides = {nuclide("f", a), nuclide("s", b)};
  d.materials = {{"m0", 0.5, {{"f", 0.7}, {"s", 0.7}}}, {"m1", 0.25, {{"f", 1}}}};
  return d;
}
inline void use(Problem& p, const Data& d) { p.G = d.G; p.nuclides = d.nuclides; p.materials = d.materials; }
}  // namespace prob
