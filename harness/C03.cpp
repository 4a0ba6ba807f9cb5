// Every particle of a history is transported exactly once: the distribution of all tallies over every choice sequence
// of problems with several generations of fission secondaries equals that of the reference model, which keeps an
// explicit bank; alone, in batches of two histories, with either tracking method.
#include "explore.hpp"
#include "problems.hpp"
using namespace vh;
using namespace prob;

int main(int argc, char** argv) {
  Run run(argc, argv);
  explore::declare(run);
  run.declare({"crowds", "crowd_particles"});
  struct Case { Problem p; std::string what; };
  std::vector<Case> cs;
  const std::vector<std::pair<double, double>> nus{{1, 1}, {2, 1}, {1.5, 1}, {2, 2}, {0.5, 2}, {3, 0.5}, {0, 3}, {2.5, 0}};
  std::vector<std::pair<std::string, Problem>> geos;
  geos.push_back({"slab", slab({0, 1.3, 2.9}, {"m0", "m1"})});
  geos.push_back({"slab3", slab({-1, 0.37, 1.3, 2.9}, {"m1", "m0"})});
  geos.push_back({"shells", shells({1.1, 2.3}, {"m0", "m1"}, {0.2, 0.1, -0.3})});
  geos.push_back({"can", can(0.8, {0.3, 0.1, 0.2}, 1.9, -1.7, 2.1, "m0", "m1")});
  for (auto& [gn, g] : geos)
    for (auto& [n1, n2] : nus)
      for (int group : {1, 2})
        for (int hist : {1, 2})
          for (const char* tr : {"", "cell delta"})
            for (int dirc = 0; dirc < 3; dirc++) {
              if (!run.thorough && ((hist == 2 && (group == 1 || dirc == 2)) || (group == 1 && n1 + n2 > 3))) continue;
              Problem p = g;
              use(p, fissile(2, n1, n2));
              tally_all(p, true, dirc == 1 ? V{0, 1, 0} : V{1, 0, 0});
              p.pos = {0.31, 0.07, 0.11};
              if (dirc == 0) p.dir = {1, 0.1, -0.2};
              if (dirc == 1) p.dir = {-2, 1, 0.5};
              if (dirc == 2) p.dirkind = "isotropic";
              p.group = group;
              p.histories = hist;
              p.tracking = tr;
              cs.push_back({p, fmt("%s nubar %g,%g group %d histories %d direction %d %s", gn.c_str(), n1, n2, group, hist, dirc, tr)});
            }
  const uint64_t cap = run.thorough ? 6000000 : 200000;
  run.cases("chains", cs.size(), [&](size_t c) {
    if (explore::compare(run, cs[c].p, cs[c].what, 2, 26, cap)) { if (c % 37 == 0) run.sample(cs[c].what); }
  }, [&](size_t c) { return cs[c].what; }, run.thorough ? 600 : 120);
  // ---- crowds: everything is certain except which draw decides it (yields are whole numbers, every first flight in the
  // dense medium collides), so every choice sequence must leak exactly the product of the yields.
  struct Crowd { std::vector<double> nu; int hist; std::string tr; int geo; };
  std::vector<Crowd> crowds;
  const std::vector<std::vector<double>> yields{
      {63}, {64}, {65}, {127}, {128}, {255}, {256}, {257}, {511}, {1023}, {1025}, {4097}, {20000}, {8, 8}, {9, 8}, {20, 20}, {65, 3}, {3, 65}, {255, 2}, {2, 257}, {1, 70}, {70, 1}, {100, 100},
      {5, 5, 5}, {12, 12, 12}, {2, 2, 2, 2, 2, 2, 2, 2}, {2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2}, {3, 3, 3, 3, 3, 3, 3}, {1, 2, 3, 4, 5, 6}, {6, 5, 4, 3, 2, 1},
      Vec(20, 1), Vec(66, 1), Vec(130, 1), Vec(300, 1)};
  for (auto& y : yields)
    for (int hist : {1, 2, 5})
      for (const char* tr : {"", "cell delta"})
        for (int geo = 0; geo < 2; geo++) {
          double n = 1;
          for (double v : y) n *= v;
          if (n * hist > 25000 && hist > 1) continue;
          if (y.size() > 100 && hist > 1) continue;
          crowds.push_back({y, hist, tr, geo});
        }
  auto cd = [&](size_t i) { std::string s = "yields"; for (size_t k = 0; k < crowds[i].nu.size() && k < 14; k++) s += fmt(" %g", crowds[i].nu[k]); return s + fmt(" (%zu generations), %d histories %s geometry %d", crowds[i].nu.size(), crowds[i].hist, crowds[i].tr.c_str(), crowds[i].geo); };
  run.cases("crowds", crowds.size(), [&](size_t i) {
    const Crowd& c = crowds[i];
    const int G = (int)c.nu.size() + 1;
    Problem p = c.geo ? slab({-1, 0.2, 1}, {"m0", "m0"}) : shells({1}, {"m0"});
    Reacts r;
    r.capture.assign(G, 0);
    r.fxs.assign(G, 1e7);
    r.fxs[G - 1] = 0;
    r.nubar = c.nu;
    r.nubar.push_back(0);
    r.chi.assign(G * G, 0);
    for (int in = 0; in < G; in++) r.chi[std::min(in + 1, G - 1) * G + in] = 1;
    p.G = G;
    p.nuclides = {nuclide("f", r)};
    p.materials = {{"m0", 1, {{"f", 1}}}};
    tally_all(p, false);
    p.pos = {0.1, 0.2, 0.1};
    p.histories = c.hist;
    p.tracking = c.tr;
    long want = c.hist;
    for (double v : c.nu) want *= (long)v;
    mini::Doc d(ref::xml(p));
    FixedSource fs{d.root};
    for (int variant = 0; variant < (want > 3000 ? 1 : 3); variant++) {
      size_t k = 0;
      // no draw is close to zero or one
      verif::serve() = [&](std::minstd_rand&) { return 0.05 + 0.9 * ((mix(++k * 7919 + variant) >> 11) + 0.5) * 0x1p-53; };
      const auto n = explore::counts_of(fs.Solve(), p);
      verif::serve() = nullptr;
      run.count("crowds");
      run.count("transitions", k);
      run.count("traces_validated_against_impl");
      const long leaks = c.geo ? n[0] + n[2] : n[0];
      if (leaks != want) run.violation(cd(i), fmt("%ld particles leaked, %ld were born in the last generation", leaks, want));
      for (long q : n) if (q < 0 || q > want) run.violation(cd(i), fmt("%ld crossings of one surface by %ld particles", q, want));
      if (variant == 0) run.count("crowd_particles", want);
    }
    if (i % 29 == 0) run.sample(cd(i));
  }, cd, 60);
  return run.finish(true);
}
