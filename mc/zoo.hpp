// A few complete problems that between them use every part of a fixed-source calculation.
#pragma once
#include "problems.hpp"
#include "xs.hpp"

namespace zoo {
using namespace prob;
struct Entry { std::string name; Problem p; };
// data: five nuclides with different reactions, one with a thermal scattering law
inline std::vector<xs::Nuclide> continuous(tsl::Data& law) {
  law = tsl::plausible(1, {280, 400, 900}, {1e-10, 1e-9, 1e-8, 1e-7, 4e-7}, 4, {2, 3}, {3, 2});
  const cont::Vec e{1e-11, 1e-9, 3e-8, 1e-6, 1e-2, 20};
  std::vector<xs::Nuclide> ns(5);
  ns[0].name = "water"; ns[0].awr = 1; ns[0].scatter = {e, {30, 22, 20, 20.5, 10, 1}, 293.6}; ns[0].capture = {e, {5, 2, 1, 0.3, 0.1, 0.01}, 293.6}; ns[0].law = &law;
  ns[1].name = "carbon"; ns[1].awr = 12; ns[1].scatter = {e, {6, 5, 5, 4.8, 4, 1}, 293.6}; ns[1].capture = cont::flat(0.05);
  ns[2].name = "fuel"; ns[2].awr = 235; ns[2].capture = {e, {500, 100, 30, 10, 1, 0.2}, 293.6}; ns[2].scatter = cont::flat(8, 600); ns[2].fission = {e, {800, 200, 80, 30, 2, 1}, 293.6}; ns[2].nubar = cont::flat(2.4);
  ns[3].name = "light"; ns[3].awr = 0.9; ns[3].scatter = {e, {40, 25, 20, 19, 10, 1}, 600}; ns[3].capture = cont::flat(0.5);
  ns[4].name = "poison"; ns[4].awr = 113; ns[4].capture = {e, {3000, 900, 400, 20, 1, 0.1}, 293.6}; ns[4].total = {e, {3100, 950, 400, 20, 1, 0.1}, 293.6};
  return ns;
}
inline void senses(Problem& p, const std::vector<std::string>& nuclides) {
  for (auto& n : nuclides) p.perturbations.push_back({"d-" + n, n});
  for (auto& t : p.tallies) for (auto& q : p.perturbations) t.sens.push_back(q.first);
}
inline std::vector<Entry> all(const std::string& dir) {
  std::vector<Entry> r;
  auto start = [](Problem& p) { p.pos = {0.31, 0.07, 0.11}; p.dir = {1, 0.2, -0.2}; };
  {
    Problem p = slab({0, 1.3, 2.9}, {"m0", "m1"});
    use(p, absorber(2));
    tally_all(p, true); start(p);
    p.dirkind = "isotropic-flux"; p.dir = {1, 0, 0};
    r.push_back({"absorber slab", p});
  }
  {
    Problem p = shells({1.1, 2.3}, {"m0", "m1"}, {0.2, 0.1, -0.3});
    use(p, scatterer(2));
    for (auto& m : p.materials) m.aden *= 1.7;
    tally_all(p, true); start(p); senses(p, {"a", "b"});
    p.dirkind = "isotropic"; p.group = 2;
    r.push_back({"scatterer shells", p});
  }
  {
    Problem p = can(0.8, {0.3, 0.1, 0.2}, 1.9, -1.7, 2.1, "m0", "m1");
    use(p, fissile(2, 2.3, 1.4));
    tally_all(p, true); start(p); senses(p, {"s"});
    p.tracking = "cell delta"; p.dirkind = "isotropic";
    r.push_back({"fissile can, delta", p});
  }
  tsl::Data law;
  const auto ns = continuous(law);
  const std::string text = xs::xml(dir, "zoo", ns);
  const std::vector<ref::Material> mats{{"m0", 0.05, {{"water", 2}, {"carbon", 1}, {"light", 0.5}, {"fuel", 0.2}}}, {"m1", 0.08, {{"carbon", 1}, {"poison", 0.01}, {"water", 1}}}};
  for (int d = 0; d < 2; d++) {
    Problem p = d ? slab({-2, 0, 1.3, 4}, {"m1", "m0"}) : shells({1.5, 4}, {"m0", "m1"}, {0.2, 0.1, -0.3});
    p.nuclides_text = text;
    p.materials = mats;
    tally_all(p, false);
    for (auto& t : p.tallies) { t.cosb = {-0.3, 0.05, 0.6}; t.eb = {1e-9, 3e-8, 1e-6, 1e-3}; }
    start(p); senses(p, {"water", "poison"});
    p.dirkind = "isotropic";
    p.energy_text = d ? "2e-7" : "1e-3";
    if (d) { p.tracking = "cell delta"; p.temperature_text = "<temperature><linear><bounds lower=\"200\" upper=\"1000\"/><intercept b=\"500\"/><gradient x=\"60\" y=\"20\" z=\"-10\"/></linear></temperature>"; p.cells[1].temperature = "350"; }
    else p.temperature_text = "<temperature><constant c=\"450\"/></temperature>";
    r.push_back({d ? "continuous slab, delta, linear temperature" : "continuous shells", p});
  }
  {
    // six nuclides whose order of summation and selection matters
    Problem p = slab({0, 1.3, 2.9, 3.7}, {"m0", "m1"});
    p.G = 2;
    std::vector<std::pair<std::string, double>> a, b;
    for (int i = 0; i < 6; i++) {
      Reacts x;
      x.capture = {0.1 * (i + 1), 0.3 + 0.07 * i};
      x.scatter = {0.4 + 0.11 * i, 0.05 * i, 0.3 / (i + 1), 0.6};
      const std::string n = std::string(1, "qzbmxa"[i]) + "uc";
      p.nuclides.push_back(nuclide(n, x));
      a.push_back({n, 0.1 + 0.3 * i});
      b.insert(b.begin(), {n, 0.7 / (i + 1)});
    }
    p.materials = {{"m0", 0.7, a}, {"m1", 0.9, b}};
    tally_all(p, true); start(p); senses(p, {"quc", "auc"});
    p.dirkind = "isotropic";
    r.push_back({"six nuclides", p});
  }
  return r;
}
}  // namespace zoo
