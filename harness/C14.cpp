// Source particles.
//  attributes: lattice of source specifications x seeds with the real generator: every attribute of the particle born.
//  flux:       isotropic-flux sources with a set of reference directions over the lattice of all pairs of draws.
//  streams:    all seeds of a range: the stream of the particle does not repeat the draws that produced it, and its
//              first draws are unrelated to the particle's direction.
//  apart:      seeds which differ in any one or few of their bits start streams and directions of their own.
#include "choice.hpp"
#include "probe.hpp"
#include "problems.hpp"
#include "Source.hpp"
#include "vh.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <set>
using namespace vh;
using namespace prob;

namespace {
const double kPi = 3.14159265358979323846;
std::string str(V v) { return fmt("(%.17g, %.17g, %.17g)", v.x, v.y, v.z); }
std::string xyz(V v) { return " x=\"" + mini::num(v.x) + "\" y=\"" + mini::num(v.y) + "\" z=\"" + mini::num(v.z) + "\"/>"; }
struct Spec { V pos; int kind; V dir; std::string energy, type; };  // kind 0 constant, 1 isotropic, 2 isotropic-flux
std::string xml(const Spec& s) {
  return "<source><position><constant" + xyz(s.pos) + "</position><direction>" +
         (s.kind == 0 ? "<constant" + xyz(s.dir) : s.kind == 1 ? std::string("<isotropic/>") : "<isotropic-flux" + xyz(s.dir)) +
         "</direction><energy><constant energy=\"" + s.energy + "\"/></energy><particletype><constant type=\"" + s.type + "\"/></particletype></source>";
}
// a document with that source; the kind of nuclides decides what its energy means
struct Doc {
  pugi::xml_document d;
  Doc(const Spec& s, bool multigroup) {
    const std::string t = "<minimc><general><particles>neutron photon</particles><histories>1</histories><threads>1</threads><chunksize>1</chunksize></general><nuclides>" +
                          std::string(multigroup ? "<multigroup groups=\"3\"/>" : "<continuous/>") + "</nuclides><problemtype><fixedsource>" + xml(s) + "</fixedsource></problemtype></minimc>";
    if (!d.load_string(t.c_str())) _exit(97);
  }
  pugi::xml_node node() const { return d.child("minimc").child("problemtype").child("fixedsource").child("source"); }
};
double dist(V a, V b) { const V c = a - b; return std::sqrt(ref::dot(c, c)); }
V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
const std::vector<V> kDirs{{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -2, 0}, {0, 0, 0.5}, {0, 0, -1}, {3, 4, 0}, {1, 1, 1}, {-0.2, 0.1, 7}, {1, 1e-9, 0}, {-1, 1e-4, -1e-4}, {9, 4.35889894354067, 0}, {1e8, 1, 1}, {1e-8, 2e-8, -1e-8}};
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "specifications", "seeds", "traces_validated_against_impl"});

  // ---- attributes
  std::vector<std::pair<Spec, bool>> specs;
  const std::vector<V> pos{{0, 0, 0}, {1, 2, 3}, {-1e-9, 1e9, 0.1}, {1e300, -1e-300, -7}};
  const std::vector<std::pair<std::string, bool>> energies{{"1", true}, {"2", true}, {"3", true}, {"2", false}, {"1e-11", false}, {"0.0253e-6", false}, {"20", false}, {"1", false}};
  for (auto& q : pos)
    for (auto& [e, mg] : energies)
      for (std::string type : {"neutron", "photon"}) {
        for (size_t d = 0; d < kDirs.size(); d++)
          for (int kind : {0, 2}) specs.push_back({{q, kind, kDirs[d], e, type}, mg});
        specs.push_back({{q, 1, {}, e, type}, mg});
      }
  std::vector<unsigned long> seeds{0, 1, 2, 3, 48271, 1000000007, 2147483645, 2147483646, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807UL, 18446744073709551615UL};
  for (unsigned long s = 4; s < (run.thorough ? 20000ul : 200ul); s++) seeds.push_back(s);
  auto sd = [&](size_t i) { return xml(specs[i].first) + (specs[i].second ? " multigroup" : " continuous"); };
  run.cases("attributes", specs.size(), [&](size_t i) {
    const Spec& s = specs[i].first;
    const Doc doc(s, specs[i].second);
    const Source src{doc.node()}, again{doc.node()};
    std::vector<V> dirs;
    run.count("specifications");
    for (unsigned long seed : seeds) {
      Particle p = src.Sample(seed);
      const V d = vec(p.GetDirection());
      std::string e;
      if (!p.IsAlive() || p.event != Particle::Event::birth) e += "not born alive; ";
      if (!same(vec(p.GetPosition()), s.pos)) e += "born at " + str(vec(p.GetPosition())) + "; ";
      if (std::holds_alternative<Group>(p.GetEnergy()) != specs[i].second || energy_of(p) != std::strtod(s.energy.c_str(), nullptr)) e += fmt("born with energy %g; ", energy_of(p));
      if (p.GetType() != (s.type == "photon" ? Particle::Type::photon : Particle::Type::neutron)) e += "born as the wrong type; ";
      if (!(std::fabs(ref::dot(d, d) - 1) < 1e-12)) e += "direction " + str(d) + " is no unit vector; ";
      if (s.kind == 0 && dist(d, ref::unit(s.dir)) > 1e-12) e += "direction " + str(d) + "; ";
      if (s.kind == 2 && ref::dot(d, ref::unit(s.dir)) < -1e-12) e += "direction " + str(d) + " outside of the hemisphere; ";
      Bank b;
      p.MoveSecondariesTo(b);
      if (!b.empty()) e += "born with secondaries; ";
      if (p.current_surface) e += "born on a surface; ";
      dirs.push_back(d);
      // determined by the seed alone
      Particle q = again.Sample(seed);
      if (!same(vec(q.GetDirection()), d) || q.rng != p.rng) e += "the seed does not determine the particle; ";
      if (!e.empty()) { run.violation(sd(i), fmt("seed %lu: ", seed) + e); return; }
      run.count("transitions");
      run.count("traces_validated_against_impl");
    }
    if (s.kind) {  // different seeds, different particles (seeds 0 and 1 and those congruent modulo the period excepted)
      std::set<std::tuple<double, double, double>> distinct;
      for (auto& d : dirs) distinct.insert({d.x, d.y, d.z});
      if (distinct.size() + 8 < seeds.size()) run.violation(sd(i), fmt("%zu directions for %zu seeds", distinct.size(), seeds.size()));
    }
    run.count("states");
    if (i % 97 == 0) run.sample(sd(i));
  }, sd);

  // ---- isotropic flux
  const int N = run.thorough ? 800 : 200;
  run.cases("flux", kDirs.size() + 1, [&](size_t i) {
    const bool iso = i == kDirs.size();
    const V a = iso ? V{1, 0, 0} : ref::unit(kDirs[i]), u = ref::unit(cross(a, std::fabs(a.x) < 0.7 ? V{1, 0, 0} : V{0, 1, 0})), w = cross(a, u);
    const Doc doc({{1, 2, 3}, iso ? 1 : 2, iso ? V{} : kDirs[i], "1", "neutron"}, true);
    const Source src{doc.node()};
    std::vector<double> c, f;
    std::vector<int> box(8 * 12, 0);
    for (int k = 0; k < N * N; k++) {
      int n = 0;
      verif::serve() = [&](std::minstd_rand&) { n++; return n == 1 ? (k / N + 0.5) / N : n == 2 ? (k % N + 0.5) / N : (mix(k * 64 + n) >> 11) * 0x1p-53; };
      const Particle p = src.Sample(1);
      verif::serve() = nullptr;
      const V d = vec(p.GetDirection());
      const double mu = ref::dot(d, a);
      if (!(std::fabs(ref::dot(d, d) - 1) < 1e-12) || (!iso && mu < -1e-12)) { run.violation("flux " + str(a), "direction " + str(d)); return; }
      double t = std::atan2(ref::dot(d, w), ref::dot(d, u)) / (2 * kPi);
      if (t < 0) t += 1;
      c.push_back(iso ? (mu + 1) / 2 : mu * mu);
      f.push_back(t);
      box[std::min(7, std::max(0, (int)(c.back() * 8))) * 12 + std::min(11, (int)(t * 12))]++;
      run.count("transitions");
      run.count("traces_validated_against_impl");
    }
    auto ks = [](std::vector<double>& v) {
      std::sort(v.begin(), v.end());
      double r = 0;
      for (size_t i = 0; i < v.size(); i++) r = std::max({r, std::fabs(v[i] - (double)i / v.size()), std::fabs(v[i] - (i + 1.0) / v.size())});
      return r;
    };
    const double kc = ks(c), kf = ks(f);
    double kb = 0;
    for (int b : box) kb = std::max(kb, std::fabs(b * 96.0 / (N * N) - 1));
    run.sample((iso ? "isotropic" : "flux about " + str(a)) + fmt(": deviations %.4f (cosine), %.4f (azimuth), %.3f (boxes)", kc, kf, kb));
    if (kc > 0.01 || kf > 0.01 || kb > 0.15) run.violation((iso ? "isotropic" : "flux about ") + str(a), fmt("the distribution is off by %.4f (cosine), %.4f (azimuth), %.3f (boxes)", kc, kf, kb));
    run.count("states", N * N);
  }, [&](size_t i) { return i < kDirs.size() ? "flux about " + str(kDirs[i]) : "isotropic"; });

  // ---- streams
  const int S = run.thorough ? 2000000 : 200000, chunk = 4000;
  const size_t W = 64;
  for (int kind = 0; kind < 3; kind++) {
    const std::string name = fmt("streams %d", kind);
    run.cases(name, S / chunk, [&](size_t c) {
      const Doc doc({{1, 2, 3}, kind, {1, 2, -1}, "1", "neutron"}, true);
      const Source src{doc.node()};
      const V a = kind == 2 ? ref::unit({1, 2, -1}) : V{1, 0, 0}, u = ref::unit(cross(a, V{0, 0, 1})), w = cross(a, u);
      std::map<std::string, double> grid;
      std::set<unsigned long> firsts;
      for (int k = 0; k < chunk; k++) {
        const unsigned long seed = 1 + c * chunk + k;
        std::vector<std::minstd_rand> consumed;
        verif::on_draw() = [&](std::minstd_rand& g) { consumed.push_back(g); };
        Particle p = src.Sample(seed);
        verif::on_draw() = nullptr;
        std::minstd_rand g = p.rng;
        for (size_t i = 0; i < W; i++) {
          for (auto& q : consumed) if (g == q) { run.violation("streams", fmt("seed %lu: the particle's stream repeats a draw of its birth after %zu draws", seed, i)); return; }
          g();
        }
        g = p.rng;
        const double u1 = verif::real(g), u2 = verif::real(g);
        firsts.insert((unsigned long)(u1 * 0x1p52));
        if (kind) {
          const V d = vec(p.GetDirection());
          const double mu = ref::dot(d, a);
          double t = std::atan2(ref::dot(d, w), ref::dot(d, u)) / (2 * kPi);
          if (t < 0) t += 1;
          const double q = kind == 1 ? (mu + 1) / 2 : mu * mu;
          auto b = [](double x) { return std::min(4, std::max(0, (int)(x * 5))); };
          grid[fmt("%d mu1 %d", kind, b(q) * 5 + b(u1))]++;
          grid[fmt("%d mu2 %d", kind, b(q) * 5 + b(u2))]++;
          grid[fmt("%d ph1 %d", kind, b(t) * 5 + b(u1))]++;
          grid[fmt("%d ph2 %d", kind, b(t) * 5 + b(u2))]++;
          grid[fmt("%d mup %d", kind, b(q) * 5 + b(t))]++;
        } else { grid[fmt("%d u12 %d", kind, std::min(4, (int)(u1 * 5)) * 5 + std::min(4, (int)(u2 * 5)))]++; }
        run.count("seeds");
        run.count("traces_validated_against_impl");
      }
      if (firsts.size() + 4 < (size_t)chunk) run.violation("streams", fmt("%zu different streams for %d seeds", firsts.size(), chunk));
      for (auto& [k, v] : grid) run.emit(k, v);
    }, [&](size_t c) { return fmt("seeds from %zu", 1 + c * chunk); });
    if (run.single_case()) continue;
    for (std::string w : kind ? std::vector<std::string>{"mu1", "mu2", "ph1", "ph2", "mup"} : std::vector<std::string>{"u12"}) {
      double chi2 = 0;
      for (int b = 0; b < 25; b++) { const double o = run.merged[fmt("%d %s %d", kind, w.c_str(), b)], e = S / 25.0; chi2 += (o - e) * (o - e) / e; }
      run.note(fmt("kind %d, %s (direction against the particle's own draws): chi-square per seed %.5f", kind, w.c_str(), chi2 / S));
      if (chi2 > 0.05 * S) run.violation("streams related", fmt("kind %d %s: chi-square %.0f over %d seeds", kind, w.c_str(), chi2, S));
    }
  }
  // ---- apart: seeds which differ in any one or any few bits start streams, and directions, of their own
  std::set<unsigned long> wide;
  for (unsigned long base : {1ul, 12345ul, 1000000007ul})
    for (int k = 0; k < 31; k++)
      for (unsigned long j = 0; j < (run.thorough ? 4096ul : 256ul); j++)
        if (base + (j << k) < 2147483647ul) wide.insert(base + (j << k));
  run.cases("apart", 3, [&](size_t kind) {
    const Doc doc({{1, 2, 3}, (int)kind, {1, 2, -1}, "1", "neutron"}, true);
    const Source src{doc.node()};
    std::map<std::pair<double, double>, unsigned long> streams;
    std::map<std::array<double, 3>, unsigned long> dirs;
    size_t clash = 0, same_dir = 0;
    std::string which, which_dir;
    for (unsigned long seed : wide) {
      Particle p = src.Sample(seed);
      const V d = vec(p.GetDirection());
      std::minstd_rand g = p.rng;
      const double u1 = verif::real(g), u2 = verif::real(g);
      auto [it, fresh] = streams.emplace(std::make_pair(u1, u2), seed);
      if (!fresh && !clash++) which = fmt("%lu and %lu", it->second, seed);
      auto [jt, other] = dirs.emplace(std::array<double, 3>{d.x, d.y, d.z}, seed);
      if (!other && !same_dir++) which_dir = fmt("%lu and %lu", jt->second, seed);
      run.count("seeds");
      run.count("states");
      run.count("traces_validated_against_impl");
    }
    if (clash * 100 > wide.size()) run.violation("apart", fmt("%zu of %zu seeds have the stream of another, seeds %s for one", clash, wide.size(), which.c_str()));
    if (kind && same_dir * 100 > wide.size()) run.violation("apart", fmt("%zu of %zu seeds have the direction of another, seeds %s for one", same_dir, wide.size(), which_dir.c_str()));
  }, [&](size_t kind) { return fmt("source %zu", kind); });
  return run.finish();
}
