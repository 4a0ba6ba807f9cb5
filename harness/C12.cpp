// Fission.
//  joint:  yields and spectra that are multiples of 1/K: over all K-ary draw sequences of a fission the joint distribution
//          of the number and the groups of the secondaries is exact, their directions are isotropic and independent of
//          each other, and every attribute of every secondary is right.
//  yield, groups: arbitrary yields, and spectra of up to many groups, over N strata of the draws.
//  streams: with the real generator, over all seeds 1..S: a secondary's random stream does not run into its parent's or a
//          sibling's within W draws (chance excepted), and its first draw is unrelated to theirs.
#include "choice.hpp"
#include "cont.hpp"
#include "probe.hpp"
#include "problems.hpp"
#include "vh.hpp"
#include <algorithm>
#include <iostream>
#include <unordered_set>
using namespace vh;
using namespace prob;

namespace {
std::string doc_of(Problem p) {
  p.surfaces = {{"ball", 's', {}, 10}};
  p.cells = {{"in", "m0", {{"ball", -1}}, ""}, {"", "", {{"ball", 1}}, ""}};
  p.materials = {{"m0", 1, {{"x", 1}}}};
  p.pos = {0.1, 0.2, 0.3};
  return ref::xml(p);
}
const V kPos{0.1, -2.2, 0.3}, kDir{0.48, -0.6, 0.64};
Particle make(const Probe& pr, Energy e, bool photon = false, unsigned long seed = 1) {
  Particle p{point(kPos), direction(kDir), e, photon ? Particle::Type::photon : Particle::Type::neutron, (RNG::result_type)seed};
  p.SetCell(pr.world.FindCellContaining(p.GetPosition()));
  return p;
}
double ks(std::vector<double>& v) {
  std::sort(v.begin(), v.end());
  double w = 0;
  for (size_t i = 0; i < v.size(); i++) {
    const double F = (v[i] + 1) / 2;
    w = std::max({w, std::fabs(F - (double)i / v.size()), std::fabs(F - (i + 1.0) / v.size())});
  }
  return w;
}
struct Child { double e; V dir; };
// takes the secondaries out of p and checks their attributes; error text or empty
std::string children(Particle& p, const Probe& pr, const ::Cell& cell, std::vector<Child>& out, std::vector<std::minstd_rand>* rngs = nullptr) {
  std::string err;
  if (p.IsAlive() || p.event != Particle::Event::fission) err += fmt("the incident particle survives (event %d); ", (int)p.event);
  if (!same(vec(p.GetPosition()), kPos)) err += "the incident particle moved; ";
  Bank b;
  p.MoveSecondariesTo(b);
  out.clear();
  while (!b.empty()) {
    Particle& c = b.back();
    if (!c.IsAlive() || c.event != Particle::Event::birth) err += fmt("secondary born with event %d; ", (int)c.event);
    if (c.GetType() != Particle::Type::neutron || c.type != Particle::Type::neutron) err += "secondary is not a neutron; ";
    if (!same(vec(c.GetPosition()), kPos)) err += "secondary born elsewhere; ";
    try { if (!(c.GetCell() == cell)) err += "secondary in another cell; "; } catch (const std::exception&) { err += "secondary has no cell; "; }
    const V d = vec(c.GetDirection());
    if (!(std::fabs(ref::dot(d, d) - 1) < 1e-12)) err += "direction of secondary is no unit vector; ";
    if (std::holds_alternative<Group>(c.GetEnergy()) != std::holds_alternative<Group>(p.GetEnergy())) err += "secondary has the wrong kind of energy; ";
    out.push_back({energy_of(c), d});
    if (rngs) rngs->push_back(c.rng);
    b.pop_back();
  }
  Bank again;
  p.MoveSecondariesTo(again);
  if (!again.empty()) err += "secondaries left over; ";
  std::reverse(out.begin(), out.end());
  if (rngs) std::reverse(rngs->begin(), rngs->end());
  return err;
}
// the n-th draw of the k-th of N (a prime) sequences: every draw takes all strata (i + 1/2) / N, whichever it is
double lattice(int n, int k, int N) { const uint64_t a = 1 + mix(n * 77) % (N - 1), b = mix(n * 131 + 5) % N; return ((a * k + b) % N + 0.5) / N; }
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "tables", "secondaries", "traces_validated_against_impl", "seeds", "stream_overlaps"});
  std::cout.rdbuf(nullptr);

  struct J { int K; double nubar; std::vector<double> chi; int G, in; bool photon, cont; };
  std::vector<J> js;
  for (int K : {2, 3, 4}) {
    const double max = K == 2 ? (run.thorough ? 5 : 3.5) : K == 3 ? 2 : (run.thorough ? 2 : 1.75);
    for (int n = 0; n <= max * K + 1e-9; n++) {
      const double nubar = (double)n / K;
      if (K > 2 && n % K == 0 && n) continue;
      for (int G = 1; G <= 3; G++)
        for (int in = 1; in <= G; in++)
          for (int a = 0; a <= K; a++) for (int b = 0; a + b <= K; b++) {
            if (G == 1 && (a != K || b)) continue;
            if (G == 2 && a + b != K) continue;
            if (!run.thorough && nubar > 2 && (a + b + in) % 3) continue;
            js.push_back({K, nubar, {(double)a, (double)b, (double)(K - a - b)}, G, in, (a + in) % 4 == 3, false});
          }
      js.push_back({K, nubar, {}, 0, 0, false, true});
    }
  }
  int files = 0;
  std::vector<std::string> texts(js.size());
  for (size_t i = 0; i < js.size(); i++)
    if (js[i].cont) {
      cont::Nuclide n;
      n.name = "x"; n.awr = 200;
      n.fission = cont::flat(2);
      n.capture = cont::flat(0);
      // nubar rises from 0 to 2 nubar over the table, so it is nubar in the middle
      n.nubar = {{1e-6, 3e-6}, {0, 2 * js[i].nubar}, 293.6};
      texts[i] = cont::xml(run.scratch, fmt("j%d", files++), {n});
    }
  auto jd = [&](size_t i) { const J& j = js[i]; return j.cont ? fmt("continuous nubar %g", j.nubar) : fmt("nubar %g, chi %g:%g:%g of %d, %d groups, incident %d%s", j.nubar, j.chi[0], j.chi[1], j.chi[2], j.K, j.G, j.in, j.photon ? " photon" : ""); };
  run.cases("joint", js.size(), [&](size_t i) {
    const J& j = js[i];
    Problem p;
    const double E = 2e-6;
    if (j.cont) p.nuclides_text = texts[i];
    else {
      p.G = j.G;
      Reacts r;
      for (int g = 1; g <= j.G; g++) { r.fxs.push_back(0.5 * g); r.nubar.push_back(g == j.in ? j.nubar : 4.5); r.capture.push_back(g == j.in ? 0 : 1); }
      r.chi.assign(j.G * j.G, 0.25);
      for (int o = 0; o < j.G; o++) r.chi[o * j.G + j.in - 1] = 0.3 * j.chi[o];
      p.particles = j.photon ? "photon" : "neutron";
      p.nuclides = {nuclide("x", r, p.particles)};
    }
    mini::Doc doc(doc_of(p));
    Probe probe{doc.root};
    const auto nuc = probe.world.FindNuclideByName("x");
    const ::Cell& cell = probe.world.FindCellContaining(point(kPos));
    run.count("tables");
    std::map<std::vector<int>, double> got, want;
    std::map<std::vector<int>, std::map<int, int>> pairs;  // directions of neighbouring secondaries
    std::map<std::vector<long>, int> dir_ids;
    std::vector<V> all;
    std::map<std::pair<int, int>, int> joint_dirs;
    choice::Tree t;
    t.K = j.K;
    t.limit = 40;
    do {
      t.start();
      verif::tree() = &t;
      Particle part = make(probe, j.cont ? Energy{ContinuousEnergy{E}} : Energy{Group(j.in)}, j.photon);
      nuc->Interact(part);
      verif::tree() = nullptr;
      std::vector<Child> ch;
      const std::string err = children(part, probe, cell, ch);
      if (!err.empty()) { run.violation(jd(i), "draws " + t.str() + ": " + err); return; }
      std::vector<int> key;
      for (auto& c : ch) {
        if (j.cont && c.e != E) { run.violation(jd(i), fmt("secondary born with energy %g", c.e)); return; }
        key.push_back(j.cont ? 1 : (int)c.e);
        if (t.weight() > 0 && ch.size() == 2) {
          auto [it, isnew] = dir_ids.emplace(std::vector<long>{std::lround(c.dir.x * 1e9), std::lround(c.dir.y * 1e9), std::lround(c.dir.z * 1e9)}, (int)dir_ids.size());
          if (isnew) all.push_back(c.dir);
        }
        run.count("secondaries");
      }
      if (ch.size() == 2) {
        auto id = [&](const V& d) { return dir_ids[{std::lround(d.x * 1e9), std::lround(d.y * 1e9), std::lround(d.z * 1e9)}]; };
        joint_dirs[{id(ch[0].dir), id(ch[1].dir)}]++;
      }
      got[key] += t.weight();
      run.count("transitions");
      run.count("traces_validated_against_impl");
    } while (t.next());
    const int lo = (int)std::floor(j.nubar + 1e-12);
    for (int extra = 0; extra < 2; extra++) {
      const double w = extra ? j.nubar - lo : 1 - (j.nubar - lo);
      if (w < 1e-12) continue;
      const int n = lo + extra;
      if (j.cont) { want[std::vector<int>(n, 1)] += w; continue; }
      std::vector<int> key(n, 1);
      while (true) {
        double q = w;
        for (int g : key) q *= j.chi[g - 1] / j.K;
        if (q > 0) want[key] += q;
        int k = 0;
        while (k < n && key[k] == j.G) key[k++] = 1;
        if (k == n) break;
        key[k]++;
      }
    }
    run.count("states", want.size());
    auto str = [](const std::vector<int>& k) { std::string s = std::to_string(k.size()) + " secondaries in groups"; for (int g : k) s += " " + std::to_string(g); return s; };
    for (auto& [k, w] : want) if (std::fabs(got[k] - w) > 1e-9) { run.violation(jd(i), str(k) + fmt(": probability %.9g, expected %.9g", got[k], w)); return; }
    for (auto& [k, w] : got) if (!want.count(k)&& w > 0) { run.violation(jd(i), str(k) + fmt(": probability %.9g, expected 0", w)); return; }
    if (!joint_dirs.empty()) {
      const size_t n = dir_ids.size();
      if (joint_dirs.size() != n * n) run.violation(jd(i), fmt("%zu pairs of directions for %zu directions", joint_dirs.size(), n));
      int mn = 1 << 30, mx = 0;
      for (auto& [k, c] : joint_dirs) { mn = std::min(mn, c); mx = std::max(mx, c); }
      if (mn != mx) run.violation(jd(i), fmt("directions of siblings depend on each other: pairs occur between %d and %d times", mn, mx));
      for (V axis : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}, kDir}) {
        std::vector<double> c;
        for (auto& d : all) c.push_back(ref::dot(d, axis));
        if (ks(c) > (j.K == 2 ? 0.5 : 0.45)) run.violation(jd(i), fmt("directions are not isotropic along (%g,%g,%g): %.3f", axis.x, axis.y, axis.z, ks(c)));
      }
    }
    if (i % 97 == 0) run.sample(jd(i));
  }, jd, 120);

  // ---- arbitrary yields and spectra
  struct S { double nubar; std::vector<double> chi; bool cont; };
  std::vector<S> ss;
  std::vector<std::string> stexts;
  for (double nu : {0.0, 0.01, 0.3, 0.999, 1.0, 1.7, 2.0, 2.4355, 3.0, 3.5, 7.25, 10.0, 63.1, 300.5})
    for (std::vector<double> chi : {std::vector<double>{1, 0, 0}, {0, 0, 3}, {0.2, 0.5, 0.3}, {1, 2, 4}, {1e-3, 1, 0}, {0, 1, 1e-3}, {1e5, 1, 1e4}}) {
      ss.push_back({nu, chi, false});
    }
  for (double nu : {0.0, 0.3, 1.0, 2.4355, 3.0, 4.9, 9.6, 17.2, 40.0, 300.5}) ss.push_back({nu, {}, true});
  for (size_t i = 0; i < ss.size(); i++) {
    stexts.push_back("");
    if (!ss[i].cont) continue;
    cont::Nuclide n;
    n.name = "x"; n.awr = 200; n.fission = cont::flat(2); n.nubar = {{1e-6, 4e-6}, {ss[i].nubar + 1, ss[i].nubar - 2 > -2 ? ss[i].nubar : 0}, 293.6};
    stexts.back() = cont::xml(run.scratch, fmt("y%zu", i), {n});
  }
  const int N = run.thorough ? 20011 : 1009;  // primes
  auto sd = [&](size_t i) { return ss[i].cont ? fmt("continuous yield around %g", ss[i].nubar) : fmt("yield %g spectrum %g %g %g", ss[i].nubar, ss[i].chi[0], ss[i].chi[1], ss[i].chi[2]); };
  run.cases("yield", ss.size(), [&](size_t i) {
    const S& s = ss[i];
    std::vector<double> es{1};
    if (s.cont) es = {5e-7, 1e-6, 1.7e-6, 2.5e-6, 4e-6, 1};
    for (double E : es) {
      Problem p;
      double nubar = s.nubar;
      if (s.cont) { p.nuclides_text = stexts[i]; nubar = cont::Eval{{1e-6, 4e-6}, {s.nubar + 1, s.nubar}}.at(E); }
      else {
        p.G = 3;
        Reacts r;
        r.fxs = {1, 2, 3};
        r.nubar = {4.5, s.nubar, 1};
        r.chi.assign(9, 1);
        for (int o = 0; o < 3; o++) r.chi[o * 3 + 1] = s.chi[o];
        p.nuclides = {nuclide("x", r)};
      }
      mini::Doc doc(doc_of(p));
      Probe probe{doc.root};
      const auto nuc = probe.world.FindNuclideByName("x");
      const ::Cell& cell = probe.world.FindCellContaining(point(kPos));
      double mean = 0;
      std::map<int, double> groups;
      const int lo = (int)std::floor(nubar + 1e-12);
      for (int k = 0; k < N; k++) {
        int n = 0;
        verif::serve() = [&](std::minstd_rand&) { n++; return lattice(n, k, N); };
        Particle part = make(probe, s.cont ? Energy{ContinuousEnergy{E}} : Energy{Group(2)});
        nuc->Interact(part);
        verif::serve() = nullptr;
        std::vector<Child> ch;
        const std::string err = children(part, probe, cell, ch);
        if (!err.empty()) { run.violation(sd(i), err); return; }
        const int c = (int)ch.size();
        if (c < lo || c > lo + 1 || (std::fabs(nubar - lo) < 1e-12 && c != lo)) { run.violation(sd(i), fmt("%d secondaries at yield %g", c, nubar)); return; }
        mean += (double)c / N;
        if (!ch.empty()) groups[(int)ch[0].e] += 1;
        run.count("transitions");
        run.count("traces_validated_against_impl");
      }
      run.count("states", 2);
      if (std::fabs(mean - nubar) > 1.01 / N) run.violation(sd(i), fmt("mean yield %.6f, expected %.6f", mean, nubar));
      if (!s.cont && s.nubar == std::floor(s.nubar) && s.nubar > 0) {
        const double sum = s.chi[0] + s.chi[1] + s.chi[2];
        for (int g = 1; g <= 3; g++)
          if (std::fabs(groups[g] / N - s.chi[g - 1] / sum) > 1.01 / N || (s.chi[g - 1] == 0 && groups[g] > 0))
            run.violation(sd(i), fmt("the first secondary is born in group %d with frequency %.5f, expected %.5f", g, groups[g] / N, s.chi[g - 1] / sum));
      }
    }
  }, sd);

  // ---- many groups: the spectrum belongs to the incident group
  struct MG { int G, in, shape; bool photon; };
  std::vector<MG> mg;
  for (int G : {4, 5, 8, 9, 16, 17, 33, 70, 172, 300}) {
    for (int shape = 0; shape < 5; shape++) for (int in : std::set<int>{1, 2, G / 2, G - 1, G}) { if (G > 100 && !run.thorough && (shape + in) % 3) continue; mg.push_back({G, in, shape, (in + shape) % 3 == 0}); }
  }
  auto mgd = [&](size_t i) { return fmt("%d groups, incident %d, spectrum %d%s", mg[i].G, mg[i].in, mg[i].shape, mg[i].photon ? " photon" : ""); };
  run.cases("groups", mg.size(), [&](size_t i) {
    const MG& m = mg[i];
    const int G = m.G;
    auto chi = [&](int o, int in) -> double {  // both from 1
      const double h = (mix(o * 1000 + in) % 1000) / 1000.0;
      switch (m.shape) {
        case 0: return h + 0.01;
        case 1: return o == 1 + (in * 7) % G ? 2 : 0;           // a single group
        case 2: return (o + in) % 3 ? 0 : h + 0.5;              // with gaps
        case 3: return o <= in ? std::exp(-0.3 * o) : 1e-3;
        default: return o == G ? 5 : o == in ? 1e-3 : 1 + in;
      }
    };
    Problem p;
    p.G = G;
    Reacts r;
    for (int g = 1; g <= G; g++) { r.fxs.push_back(0.1 * g); r.nubar.push_back(g == m.in ? 2 : 0.5 * (g % 9)); r.capture.push_back(g == m.in ? 0 : 3); }
    for (int o = 1; o <= G; o++) for (int in = 1; in <= G; in++) r.chi.push_back(chi(o, in));
    p.particles = m.photon ? "photon" : "neutron";
    p.nuclides = {nuclide("x", r, p.particles)};
    mini::Doc doc(doc_of(p));
    Probe probe{doc.root};
    const auto nuc = probe.world.FindNuclideByName("x");
    const ::Cell& cell = probe.world.FindCellContaining(point(kPos));
    double sum = 0;
    for (int o = 1; o <= G; o++) sum += chi(o, m.in);
    const int N2 = 4001;
    std::vector<double> freq(G + 1, 0), second(G + 1, 0);
    for (int k = 0; k < N2; k++) {
      int n = 0;
      verif::serve() = [&](std::minstd_rand&) { n++; return lattice(n, k, N2); };
      Particle part = make(probe, Energy{Group(m.in)}, m.photon);
      nuc->Interact(part);
      verif::serve() = nullptr;
      std::vector<Child> ch;
      const std::string err = children(part, probe, cell, ch);
      if (!err.empty() || ch.size() != 2) { run.violation(mgd(i), err + fmt("%zu secondaries at yield 2", ch.size())); return; }
      for (auto& c : ch) if (c.e != std::floor(c.e) || c.e < 1 || c.e > G || chi((int)c.e, m.in) == 0) { run.violation(mgd(i), fmt("secondary in group %g", c.e)); return; }
      freq[(int)ch[0].e]++;
      second[(int)ch[1].e]++;
      run.count("transitions");
      run.count("traces_validated_against_impl");
    }
    run.count("states", G);
    double cum = 0, want = 0, sec = 0;
    for (int g = 1; g <= G; g++) {
      cum += freq[g] / N2; sec += second[g] / N2; want += chi(g, m.in) / sum;
      if (std::fabs(freq[g] / N2 - chi(g, m.in) / sum) > 2.01 / N2) { run.violation(mgd(i), fmt("the first secondary is born in group %d with frequency %.5f, expected %.5f", g, freq[g] / N2, chi(g, m.in) / sum)); return; }
      if (std::fabs(sec - want) > 0.06) { run.violation(mgd(i), fmt("the second secondary is born up to group %d with frequency %.5f, expected %.5f", g, sec, want)); return; }
    }
    if (i % 17 == 0) run.sample(mgd(i));
  }, mgd);

  // ---- other reactions produce nothing: all draw sequences of tables without fission
  run.cases("none", 3, [&](size_t i) {
    Problem p;
    p.G = 2;
    Reacts r;
    if (i != 1) r.capture = {1, 1};
    if (i != 0) r.scatter = {1, 2, 1, 1};
    if (i == 2) { r.fxs = {0, 1}; r.nubar = {5, 5}; r.chi = {1, 1, 1, 1}; }
    p.nuclides = {nuclide("x", r)};
    mini::Doc doc(doc_of(p));
    Probe probe{doc.root};
    const auto nuc = probe.world.FindNuclideByName("x");
    choice::Tree t;
    t.K = 5;
    do {
      t.start();
      verif::tree() = &t;
      Particle part = make(probe, Energy{Group(1)});
      nuc->Interact(part);
      verif::tree() = nullptr;
      Bank b;
      part.MoveSecondariesTo(b);
      if (!b.empty()) { run.violation("no fission", fmt("event %d left secondaries", (int)part.event)); return; }
      run.count("transitions");
      run.count("traces_validated_against_impl");
    } while (t.next());
  }, [&](size_t i) { return fmt("no fission %zu", i); });

  // ---- streams
  const int S = run.thorough ? 400000 : 24000, chunk = 1000;
  const size_t W = 3000;
  for (int kind = 0; kind < 2; kind++) {
    cont::Nuclide n;
    n.name = "x"; n.awr = 200; n.fission = cont::flat(2); n.nubar = cont::flat(3);
    const std::string text = cont::xml(run.scratch, "stream", {n});
    auto body = [&](size_t c) {
      Problem p;
      if (kind) p.nuclides_text = text;
      else {
        p.G = 2;
        Reacts r;
        r.fxs = {1, 2}; r.nubar = {3, 3}; r.chi = {1, 1, 1, 1};
        p.nuclides = {nuclide("x", r)};
      }
      mini::Doc doc(doc_of(p));
      Probe probe{doc.root};
      const auto nuc = probe.world.FindNuclideByName("x");
      const ::Cell& cell = probe.world.FindCellContaining(point(kPos));
      for (int k = 0; k < chunk; k++) {
        const unsigned long seed = 1 + c * chunk + k;
        Particle part = make(probe, kind ? Energy{ContinuousEnergy{1e-3}} : Energy{Group(1)}, false, seed);
        nuc->Interact(part);
        std::vector<std::minstd_rand> rng;
        std::vector<Child> ch;
        const std::string err = children(part, probe, cell, ch, &rng);
        if (!err.empty() || ch.size() != 3) { run.violation("streams", fmt("seed %lu: %zu secondaries; ", seed, ch.size()) + err); return; }
        rng.push_back(part.rng);
        // directions of siblings and the streams must differ, and no stream may run into another
        bool hit = false;
        for (size_t a = 0; a < rng.size() && !hit; a++) {
          std::minstd_rand g = rng[a];
          unsigned long start[4];
          for (size_t b = 0; b < rng.size(); b++) { std::minstd_rand h = rng[b]; start[b] = h(); }
          for (size_t w = 0; w < W && !hit; w++) { const unsigned long v = g(); for (size_t b = 0; b < rng.size(); b++) if (b != a && v == start[b]) hit = true; }
        }
        if (hit) { run.count("stream_overlaps"); run.emit(fmt("overlap%d", kind), 1); }
        // the first draws of parent and secondaries on a grid
        double u[4];
        for (size_t a = 0; a < rng.size(); a++) u[a] = verif::real(rng[a]);
        for (size_t a = 0; a < 4; a++) for (size_t b = 0; b < a; b++) run.emit(fmt("g%d %zu%zu %d %d", kind, a, b, (int)(u[a] * 5), (int)(u[b] * 5)), 1);
        run.count("seeds");
        run.count("traces_validated_against_impl");
      }
    };
    run.cases(kind ? "streams continuous" : "streams", S / chunk, body, [&](size_t c) { return fmt("seeds from %zu", 1 + c * chunk); });
    if (run.single_case()) continue;
    if (run.merged[fmt("overlap%d", kind)] > 0.01 * S) run.violation("streams overlap", fmt("in %.0f of %d fissions a stream runs into another within %zu draws", run.merged[fmt("overlap%d", kind)], S, W));
    for (int a = 0; a < 4; a++)
      for (int b = 0; b < a; b++) {
        double chi2 = 0;
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) { const double o = run.merged[fmt("g%d %d%d %d %d", kind, a, b, x, y)], e = S / 25.0; chi2 += (o - e) * (o - e) / e; }
        run.note(fmt("first draws of streams %d and %d (3 is the parent's): chi-square %.1f with 24 degrees of freedom", a, b, chi2));
        if (chi2 > 24 + 0.05 * S) run.violation("streams related", fmt("first draws of streams %d and %d (3 is the parent's) are related: chi-square %.0f over %d seeds", a, b, chi2, S));
      }
  }
  return run.finish();
}
