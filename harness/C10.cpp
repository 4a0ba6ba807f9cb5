// Free flight.
//  flights: the distance to the first collision for every one of N equal strata of the draw must reproduce the
//           exponential distribution function, for materials, groups, energies, temperatures, tracking methods.
//  regions: sequences of absorbing regions whose optical thicknesses are -ln(j/K); over all K-ary draw sequences the
//           joint distribution of the surfaces reached must be exactly the product of the j/K.
//  mixed:   scattering problems against the reference model.
#include "cont.hpp"
#include "explore.hpp"
#include "probe.hpp"
#include "problems.hpp"
#include <algorithm>
using namespace vh;
using namespace prob;

namespace {
// a medium: data plus the macroscopic cross section it must have for group or energy
struct Medium { std::string what; Problem base; std::vector<std::pair<std::string, double>> mats; };
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  explore::declare(run);
  run.declare({"flights", "media", "region_sequences"});
  std::vector<Medium> media;
  // multigroup
  for (int g = 1; g <= 3; g++) {
    Medium m{fmt("multigroup, group %d", g), {}, {}};
    Problem& p = m.base;
    p.G = 3;
    Reacts a, b, z;
    a.capture = {1, 2.5, 0.125};
    b.capture = {0.25, 7, 3};
    z.capture = {0, 0, 0};
    p.nuclides = {nuclide("a", a), nuclide("b", b), nuclide("z", z)};
    p.materials = {{"m0", 0.5, {{"a", 1}}}, {"m1", 2, {{"a", 0.3}, {"b", 1.1}}}, {"m2", 0.01, {{"b", 0.1}, {"a", 0.1}, {"z", 0.3}}}, {"m3", 1, {{"z", 1}}}};
    p.group = g;
    const double sa = a.capture[g - 1], sb = b.capture[g - 1];
    m.mats = {{"m0", 0.5 * sa}, {"m1", 2 * (0.3 * sa + 1.1 * sb) / 1.4}, {"m2", 0.01 * (sb + sa) / 5}, {"m3", 0}};
    media.push_back(m);
  }
  // continuous energy, at the temperature of the evaluation and elsewhere
  int nr = 0;
  for (double E : {1e-13, 1e-9, 4.7e-8, 3.3e-3, 50.0})
    for (double T : {-1.0, 0.0, 400.0})
      for (bool total : {false, true}) {
        Medium m{fmt("continuous, energy %g, temperature %g, %s total", E, T, total ? "with" : "without"), {}, {}};
        Problem& p = m.base;
        cont::Nuclide a, b;
        a.name = "a"; a.awr = 4; a.capture = {{1e-11, 1e-8, 1e-3, 20}, {6, 3, 1, 0.5}, 293.6};
        b.name = "b"; b.awr = 50; b.capture = {{1e-10, 1e-7, 2}, {0.5, 2, 8}, 600}; 
        if (total) { a.total = a.capture; b.total = b.capture; }
        p.nuclides_text = cont::xml(run.scratch, fmt("f%d", nr++), {a, b});
        p.materials = {{"m0", 0.5, {{"a", 1}}}, {"m1", 0.7, {{"a", 0.6}, {"b", 0.2}}}};
        if (T >= 0) p.temperature_text = "<temperature><constant c=\"" + mini::num(T) + "\"/></temperature>";
        p.energy_text = mini::num(E);
        m.mats = {{"m0", 0.5 * a.capture.at(E)}, {"m1", 0.7 * (0.6 * a.capture.at(E) + 0.2 * b.capture.at(E)) / 0.8}};
        media.push_back(m);
      }
  run.count("media", media.size());

  // ---- flights
  const int N = run.thorough ? 20000 : 1500;
  struct F { size_t medium, mat; int dir; bool delta; };
  std::vector<F> fs;
  for (size_t m = 0; m < media.size(); m++) for (size_t k = 0; k < media[m].mats.size(); k++) for (int d = 0; d < 3; d++) for (bool delta : {false, true}) fs.push_back({m, k, d, delta});
  const std::vector<V> dirs{{1, 0, 0}, {-1, 2, 0.3}, {0, -0.2, -1}};
  auto describe = [&](size_t i) { const F& f = fs[i]; return media[f.medium].what + fmt(", material %s, direction %d%s", media[f.medium].mats[f.mat].first.c_str(), f.dir, f.delta ? ", delta" : ""); };
  run.cases("flights", fs.size(), [&](size_t i) {
    const F& f = fs[i];
    const double Sigma = media[f.medium].mats[f.mat].second;
    Problem p = media[f.medium].base;
    const double R = Sigma > 0 ? 40 / Sigma : 100;
    Problem g = shells({R}, {media[f.medium].mats[f.mat].first}, {0.1 * R, 0.2 * R, 0});
    p.surfaces = g.surfaces;
    p.cells = g.cells;
    p.tracking = f.delta ? "cell delta" : "";
    mini::Doc doc(ref::xml(p));
    Probe probe{doc.root};
    std::vector<double> d;
    int leaks = 0;
    const V start{0.05 * R, 0.1 * R, -0.07 * R};
    for (int s = 0; s < N; s++) {
      int n = 0;
      verif::serve() = [&](std::minstd_rand&) { return n++ ? 0.5 : (s + 0.5) / N; };
      Particle part{point(start), direction(dirs[f.dir]), p.energy_text.empty() ? Energy{Group(p.group)} : Energy{std::stod(p.energy_text)}, Particle::Type::neutron, 1};
      auto proxy = probe.init_estimator_set.GetProxy();
      part.Transport(proxy, probe.world);
      verif::serve() = nullptr;
      const V x = vec(part.GetPosition()) - start;
      if (part.event == Particle::Event::leak) leaks++;
      else {
        d.push_back(std::sqrt(ref::dot(x, x)));
        const double c = ref::dot(x, ref::unit(dirs[f.dir])) / d.back();
        if (!(c > 1 - 1e-9)) run.violation(describe(i), "the flight does not follow the direction");
      }
      run.count("flights");
      run.count("transitions");
      run.count("traces_validated_against_impl");
    }
    run.count("states", N);
    if (Sigma == 0) { if (leaks != N) run.violation(describe(i), fmt("%d of %d collided in a transparent material", N - leaks, N)); return; }
    if (leaks) run.violation(describe(i), fmt("%d of %d flew more than 24 mean free paths", leaks, N));
    std::sort(d.begin(), d.end());
    double worst = 0, at = 0;
    for (size_t k = 0; k < d.size(); k++) {
      const double Fd = -std::expm1(-Sigma * d[k]), e = std::fabs(Fd - (k + 0.5) / N);
      if (e > worst) { worst = e; at = d[k]; }
    }
    if (!(worst <= 0.51 / N)) run.violation(describe(i), fmt("with cross section %.12g the fraction of flights shorter than %.9g is off by %.3g", Sigma, at, worst));
    if (i % 97 == 0) run.sample(describe(i));
  }, describe, 120);

  // ---- regions
  const int K = 4;
  struct Reg { int mat, j; };
  struct S { size_t medium; std::vector<Reg> r; int way; bool delta; };
  std::vector<S> ss;
  std::vector<size_t> pick{0, 1, 2};
  for (size_t m = 3; m < media.size(); m += run.thorough ? 1 : 7) pick.push_back(m);
  for (size_t m : pick) {
    std::vector<Reg> opts;
    for (int a = 0; a < (int)media[m].mats.size(); a++) {
      if (media[m].mats[a].second == 0) opts.push_back({a, K});
      else for (int j = 1; j < K; j++) opts.push_back({a, j});
    }
    const size_t max = run.thorough ? 4 : 3;
    std::vector<std::vector<Reg>> seqs{{}};
    for (size_t len = 1; len <= max; len++) {
      std::vector<std::vector<Reg>> next;
      for (auto& s : seqs) if (s.size() == len - 1) for (auto& o : opts) { auto t = s; t.push_back(o); next.push_back(t); }
      seqs.insert(seqs.end(), next.begin(), next.end());
    }
    for (size_t q = 0; q < seqs.size(); q++) {
      if (seqs[q].empty() || (!run.thorough && seqs[q].size() == 3 && m >= 1 && q % 5)) continue;
      for (int way = 0; way < 5; way++) {
        if (!run.thorough && seqs[q].size() == 3 && (int)(q % 5) != way) continue;
        ss.push_back({m, seqs[q], way, q % 2 == 1});
      }
    }
  }
  auto rdescribe = [&](size_t i) {
    std::string t = media[ss[i].medium].what + fmt(" way %d%s:", ss[i].way, ss[i].delta ? " delta" : "");
    for (auto& r : ss[i].r) t += fmt(" %s exp(-%d/%d ln)", media[ss[i].medium].mats[r.mat].first.c_str(), r.j, K);
    return t;
  };
  run.cases("regions", ss.size(), [&](size_t i) {
    const S& s = ss[i];
    const Medium& m = media[s.medium];
    Problem p = m.base;
    std::vector<double> len;
    for (auto& r : s.r) { const double Sg = m.mats[r.mat].second; len.push_back(Sg > 0 ? std::log((double)K / r.j) / Sg : 0.7); }
    std::vector<std::string> mats;
    for (auto& r : s.r) mats.push_back(m.mats[r.mat].first);
    Problem g;
    std::vector<std::string> order;
    if (s.way < 3) {  // slab: forwards, backwards, obliquely
      const double mu = s.way == 0 ? 1 : s.way == 1 ? -1 : 0.28;
      const double sg = mu < 0 ? -1 : 1;
      std::vector<double> x{0};
      for (double l : len) x.push_back(x.back() + l * mu);
      if (s.way == 1) {
        std::reverse(x.begin(), x.end());
        std::reverse(mats.begin(), mats.end());
        x.back() += 1;
      } else x.front() -= 1;
      g = slab(x, mats);
      p.pos = {0, 0.3, -0.1};
      p.dir = {mu, 0.96 * (s.way == 2), 0};
      for (size_t k = 0; k < len.size(); k++) order.push_back("p" + std::to_string(sg > 0 ? k + 1 : len.size() - 1 - k));
    } else {  // spheres or cylinders from the axis outwards
      std::vector<double> r;
      for (double l : len) r.push_back((r.empty() ? 0 : r.back()) + l);
      const V c = s.way == 3 ? V{0.4, -0.3, 0.2} : V{};
      g = shells(r, mats, c);
      if (s.way == 4) for (auto& q : g.surfaces) q.kind = 'c';
      p.pos = c;
      p.dir = s.way == 3 ? V{0.6, 0, 0.8} : V{0, 0.6, 0.8};
      for (size_t k = 0; k < len.size(); k++) order.push_back("s" + std::to_string(k));
    }
    p.surfaces = g.surfaces;
    p.cells = g.cells;
    p.tracking = s.delta ? "cell delta" : "";
    p.tallies.clear();
    for (auto& o : order) { Tally t; t.name = "at " + o; t.surface = o; p.tallies.push_back(t); }
    ref::Dist want;
    double reach = 1;
    std::vector<int> key(order.size(), 0);
    for (size_t k = 0; k < s.r.size(); k++) {
      const double q = s.r[k].j / (double)K;
      if (q < 1) ref::add(want, key, reach * (1 - q), {});
      reach *= q;
      key[k] = 1;
    }
    ref::add(want, key, reach, {});
    const auto got = explore::implementation(p, K, 40, 200000);
    run.count("region_sequences");
    run.count("paths", got.paths);
    run.count("transitions", got.draws);
    run.count("traces_validated_against_impl", got.paths);
    run.count("states", got.dist.size());
    const std::string diff = ref::differ(got.dist, want, 1e-9);
    if (!diff.empty()) run.violation(rdescribe(i), diff + " " + ref::xml(p));
    if (i % 499 == 0) run.sample(rdescribe(i));
  }, rdescribe, 120);

  // ---- mixed
  struct M { Problem p; std::string what; int K; };
  std::vector<M> ms;
  std::vector<std::pair<std::string, Problem>> geos{{"slab", slab({-1, 0.7, 1.1, 2}, {"m0", "m1"})}, {"shells", shells({0.9, 1.7}, {"m1", "m0"})}};
  for (auto& [gn, g] : geos)
    for (int group : {1, 2, 3})
      for (V d : {V{1, 0.1, 0.2}, V{-1, 0.5, 0}})
        for (const char* tr : {"", "cell delta"}) {
          Problem p = g;
          use(p, scatterer(2));
          tally_all(p, true);
          p.pos = {0.13, 0.2, -0.1};
          p.dir = d;
          p.group = group;
          p.tracking = tr;
          ms.push_back({p, fmt("%s group %d direction %g %s", gn.c_str(), group, d.x, tr), 2});
        }
  run.cases("mixed", ms.size(), [&](size_t i) { explore::compare(run, ms[i].p, ms[i].what, ms[i].K, 26, run.thorough ? 4000000 : 300000); }, [&](size_t i) { return ms[i].what; }, 200);
  return run.finish();
}
