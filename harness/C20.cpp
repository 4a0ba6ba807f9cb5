// Free-gas scattering.
//  gas:      every seed 1..S of the generator: attributes of the scattered particle, and the distributions of energy, cosine
//            and azimuth against those of an elastic collision with a thermal target (integrated numerically).
//  cold:     vanishing temperature: two-body kinematics path by path, uniform energy.
//  extremes: every sequence of very small, middle and very large draws to a depth.
//  balance:  the collision density of a gas in equilibrium is unchanged by a collision.
//  cycle:    (thorough) every state of the generator.
#include "choice.hpp"
#include "probe.hpp"
#include "problems.hpp"
#include "vh.hpp"
#include "xs.hpp"
#include <algorithm>
#include <iostream>
using namespace vh;
using namespace prob;

namespace {
const V kPos{0.1, -2.2, 0.3};
// varies: the temperature is T at kPos and another elsewhere
std::string doc_of(const std::string& nuclides, double T, bool varies = false) {
  Problem p;
  p.surfaces = {{"ball", 's', {}, 10}};
  p.cells = {{"in", "m0", {{"ball", -1}}, mini::num(T)}, {"", "", {{"ball", 1}}, ""}};
  p.materials = {{"m0", 1, {{"x", 1}}}};
  p.nuclides_text = nuclides;
  p.energy_text = "1";
  if (varies) {
    const V g{T / 5, -T / 4, T / 3};
    p.tracking = "cell delta";
    p.cells[0].temperature = "";
    p.temperature_text = "<temperature><linear><bounds lower=\"0\" upper=\"1e9\"/><intercept b=\"" + mini::num(T - ref::dot(g, kPos)) + "\"/><gradient " + ref::pt(g) + "/></linear></temperature>";
  }
  return ref::xml(p);
}
// speeds in units of the targets' most probable speed
struct Gas {
  double A, y;  // y: of the incident particle
  template <typename F> void each(int nx, int nm, F f) const {
    double norm = 0;
    for (int i = 0; i < nx; i++)
      for (int j = 0; j < nm; j++) { const double x = (i + 0.5) * 6.0 / nx, m = (j + 0.5) * 2 / nm - 1; norm += x * x * std::exp(-x * x) * std::sqrt(x * x + y * y - 2 * x * y * m); }
    for (int i = 0; i < nx; i++)
      for (int j = 0; j < nm; j++) {
        const double x = (i + 0.5) * 6.0 / nx, m = (j + 0.5) * 2 / nm - 1, rel = std::sqrt(x * x + y * y - 2 * x * y * m);
        const double cz = (y + A * x * m) / (1 + A), cx = A * x * std::sqrt(1 - m * m) / (1 + A);
        f(x * x * std::exp(-x * x) * rel / norm, cz, cx, A * rel / (1 + A));
      }
  }
  // P(E' < r E) for each r
  std::vector<double> energy(const std::vector<double>& r) const {
    std::vector<double> F(r.size(), 0.0);
    each(240, 60, [&](double w, double cz, double cx, double v) {
      const double c = std::sqrt(cz * cz + cx * cx), lo = (c - v) * (c - v), hi = (c + v) * (c + v);
      for (size_t k = 0; k < r.size(); k++) F[k] += w * std::min(1.0, std::max(0.0, (r[k] * y * y - lo) / (hi - lo)));
    });
    return F;
  }
  // P(mu < -1 + 2 k / n)
  std::vector<double> cosine(int n) const {
    std::vector<double> h(n + 1, 0.0);
    each(80, 40, [&](double w, double cz, double cx, double v) {
      const int nm = 28, np = 28;
      for (int i = 0; i < nm; i++)
        for (int j = 0; j < np; j++) {
          const double m = (i + 0.5) * 2 / nm - 1, s = std::sqrt(1 - m * m), p = (j + 0.5) * M_PI / np;
          const double z = cz + v * m, x = cx + v * s * std::cos(p), yy = v * s * std::sin(p), mu = z / std::sqrt(x * x + yy * yy + z * z);
          h[std::min(n - 1, (int)((mu + 1) / 2 * n))] += w / (nm * np);
        }
    });
    std::vector<double> F(n + 1, 0.0);
    for (int k = 0; k < n; k++) F[k + 1] = F[k] + h[k];
    return F;
  }
  // means of sqrt(E'/E) mu and of (E'/E) mu^2
  std::pair<double, double> moments() const {
    double a = 0, b = 0;
    each(240, 60, [&](double w, double cz, double, double v) { a += w * cz / y; b += w * (cz * cz + v * v / 3) / (y * y); });
    return {a, b};
  }
};
double ks_uniform(std::vector<double>& v) {
  std::sort(v.begin(), v.end());
  double w = 0;
  for (size_t i = 0; i < v.size(); i++) w = std::max({w, std::fabs(v[i] - (double)i / v.size()), std::fabs(v[i] - (i + 1.0) / v.size())});
  return w;
}
struct Outcome { double e, mu, phi; };
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "configurations", "paths", "traces_validated_against_impl"});
  std::cout.rdbuf(nullptr);
  const std::string dir = run.scratch;
  const std::vector<V> dirs{{0.48, -0.6, 0.64}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 0, -1}, {1e-9, 0, 1}, {0.6, 0, -0.8}};
  const std::vector<double> As{0.9991673, 1, 1.9968, 11.898, 236};

  auto nuclide_text = [&](double A, const std::string& tag) {
    cont::Nuclide n;
    n.name = "x"; n.awr = A; n.scatter = cont::flat(10);
    return cont::xml(dir, tag, {n});
  };
  // what must hold of every outcome; error text or empty
  auto inspect = [&](const Particle& p, double E, V d, Outcome& o) -> std::string {
    if (!p.IsAlive() || p.event != Particle::Event::scatter) return fmt("event %d", (int)p.event);
    if (!std::holds_alternative<ContinuousEnergy>(p.GetEnergy())) return "no continuous energy";
    o.e = std::get<ContinuousEnergy>(p.GetEnergy());
    if (!(o.e > 0) || !std::isfinite(o.e)) return fmt("energy %g from %g", o.e, E);
    const V w = vec(p.GetDirection());
    if (!(std::fabs(ref::dot(w, w) - 1) < 1e-9)) return fmt("direction (%g, %g, %g)", w.x, w.y, w.z);
    if (!same(vec(p.GetPosition()), kPos)) return "moved";
    if (p.GetType() != Particle::Type::neutron) return "changed its type";
    o.mu = ref::dot(w, d);
    // azimuth about the incident direction
    const V any = std::fabs(d.x) < 0.9 ? V{1, 0, 0} : V{0, 1, 0};
    const V a = ref::unit(any - ref::dot(any, d) * d), b{d.y * a.z - d.z * a.y, d.z * a.x - d.x * a.z, d.x * a.y - d.y * a.x};
    o.phi = std::atan2(ref::dot(w, b), ref::dot(w, a)) / (2 * M_PI) + 0.5;
    return "";
  };

  struct G { double A, T, ekt; size_t d; int times = 1; };
  std::vector<G> gs;
  for (double A : As) for (double q : {0.01, 0.3, 1.0, 4.0, 30.0, 1e3, 1e6}) gs.push_back({A, 293.6, q, gs.size() % dirs.size()});
  for (double A : {1.0, 11.898}) for (double T : {1e-3, 4.0, 1200.0, 1e5}) for (double q : {0.1, 5.0}) gs.push_back({A, T, q, gs.size() % dirs.size()});
  for (size_t d = 0; d < dirs.size(); d++) gs.push_back({1, 600, 2, d});
  // where neither kind of target speed dominates: more states, so that smaller deviations show
  for (double A : {1.0, 11.898, 236.0}) for (double y : {0.6, 1.5}) gs.push_back({A, 293.6, y * y / A, gs.size() % dirs.size(), 8});
  std::reverse(gs.begin(), gs.end());  // the long ones first
  const int S_all = run.thorough ? 1 << 21 : 1 << 18;
  const double tol = run.thorough ? 0.004 : 0.007;
  auto gd = [&](size_t i) { return fmt("A %g T %g E %g kT direction %zu", gs[i].A, gs[i].T, gs[i].ekt, gs[i].d); };
  run.cases("gas", gs.size(), [&](size_t i) {
    const G& g = gs[i];
    const int S = S_all * g.times;
    const double tol = 3.5 / std::sqrt(S);
    const double E = g.ekt * xs::kB * g.T;
    const V d = ref::unit(dirs[g.d]);
    mini::Doc doc(doc_of(nuclide_text(g.A, fmt("g%zu", i)), g.T, i % 3 == 1));
    Probe pr{doc.root};
    const auto nuc = pr.world.FindNuclideByName("x");
    const auto& cell = pr.world.FindCellContaining(point(kPos));
    std::vector<Outcome> os;
    for (int s = 1; s <= S; s++) {
      Particle p{point(kPos), direction(d), Energy{ContinuousEnergy{E}}, Particle::Type::neutron, (RNG::result_type)s};
      p.SetCell(cell);
      nuc->Interact(p);
      Outcome o;
      if (const auto err = inspect(p, E, d, o); !err.empty()) { run.violation(gd(i), fmt("seed %d: ", s) + err); return; }
      os.push_back(o);
    }
    run.count("paths", S);
    run.count("transitions", S);
    run.count("traces_validated_against_impl", S);
    run.count("states", S);
    run.count("configurations");
    const Gas ref{g.A, std::sqrt(g.A * g.ekt)};
    auto fail = [&](const char* what, double by) { run.violation(gd(i), fmt("%s is off by %.4f over all seeds up to %d", what, by, S)); };
    std::vector<double> e, m, phi_lo, phi_hi;
    double ma = 0, mb = 0;
    for (auto& o : os) { e.push_back(o.e / E); m.push_back(o.mu); ma += std::sqrt(o.e / E) * o.mu / S; mb += o.e / E * o.mu * o.mu / S; }
    std::sort(e.begin(), e.end());
    std::sort(m.begin(), m.end());
    std::vector<double> at, F;
    for (int k = 1; k < 60; k++) at.push_back(e[(size_t)k * S / 60]);
    F = ref.energy(at);
    double worst = 0;
    for (int k = 1; k < 60; k++) worst = std::max(worst, std::fabs(F[k - 1] - (double)((size_t)k * S / 60) / S));
    if (worst > tol) fail("the energy distribution", worst);
    const int n = 40;
    F = ref.cosine(n);
    double wm = 0;
    for (int k = 0; k <= n; k++) wm = std::max(wm, std::fabs(F[k] - (double)(std::lower_bound(m.begin(), m.end(), -1 + 2.0 * k / n) - m.begin()) / S));
    if (wm > 0.02) fail("the cosine distribution", wm);
    const auto [ra, rb] = ref.moments();
    const double spread = std::sqrt(rb + 1e-12);
    if (std::fabs(ma - ra) > 2 * tol * spread) fail("the mean momentum along the incident direction", (ma - ra) / spread);
    if (std::fabs(mb - rb) > 4 * tol * rb + 1e-9) fail("the mean square of momentum along the incident direction", mb / rb - 1);
    const double mid = e[S / 2] * E;
    for (auto& o : os) if (o.mu * o.mu < 1 - 1e-9) (o.e < mid ? phi_lo : phi_hi).push_back(o.phi);
    const double wp = std::max(ks_uniform(phi_lo), ks_uniform(phi_hi));
    if (wp > 2 * tol) fail("the distribution of azimuths", wp);
    // energy goes from warm to cold
    double mean = 0;
    for (double x : e) mean += x / S;
    if (g.ekt <= 0.01 && !(mean > 1)) fail("the mean energy gained well below kT", mean);
    if (g.ekt >= 30 && !(mean < 1)) fail("the mean energy lost well above kT", mean);
    if (i % 13 == 0) run.sample(gd(i) + fmt(": deviations %.4f %.4f %.4f", worst, wm, wp));
  }, gd, 200);

  // ---- cold
  struct C { double A, T, E; size_t d; };
  std::vector<C> cs;
  for (double A : As) for (double T : {0.0, 1e-12}) for (double E : {1e-9, 1e-3, 14.0}) for (size_t d : {cs.size() % dirs.size(), (cs.size() + 3) % dirs.size()}) cs.push_back({A, T, E, d});
  auto cd = [&](size_t i) { return fmt("A %g T %g E %g direction %zu", cs[i].A, cs[i].T, cs[i].E, cs[i].d); };
  run.cases("cold", cs.size(), [&](size_t i) {
    const C& c = cs[i];
    const V d = ref::unit(dirs[c.d]);
    const double alpha = (c.A - 1) * (c.A - 1) / ((c.A + 1) * (c.A + 1));
    mini::Doc doc(doc_of(nuclide_text(c.A, fmt("c%zu", i)), c.T));
    Probe pr{doc.root};
    const auto nuc = pr.world.FindNuclideByName("x");
    const auto& cell = pr.world.FindCellContaining(point(kPos));
    std::vector<double> u, phi;
    for (int s = 1; s <= S_all / 4; s++) {
      Particle p{point(kPos), direction(d), Energy{ContinuousEnergy{c.E}}, Particle::Type::neutron, (RNG::result_type)s};
      p.SetCell(cell);
      nuc->Interact(p);
      Outcome o;
      if (const auto err = inspect(p, c.E, d, o); !err.empty()) { run.violation(cd(i), fmt("seed %d: ", s) + err); return; }
      const double r = o.e / c.E, mu = ((c.A + 1) * std::sqrt(r) - (c.A - 1) / std::sqrt(r)) / 2, slack = 1e-5;
      if (r < alpha * (1 - slack) - 1e-9 || r > 1 + slack) { run.violation(cd(i), fmt("seed %d: energy %.12g from %.12g, outside [%.12g, 1] of it", s, o.e, c.E, alpha)); return; }
      if (r > 1e-6 && std::fabs(o.mu - mu) > 1e-4 + 1e-7 * c.A / r) { run.violation(cd(i), fmt("seed %d: energy %.9g of incident with cosine %.9g, two-body kinematics says %.9g", s, r, o.mu, mu)); return; }
      u.push_back((r - alpha) / (1 - alpha));
      if (o.mu * o.mu < 1 - 1e-7) phi.push_back(o.phi);
    }
    const double w = ks_uniform(u), wp = ks_uniform(phi);
    if (w > 2 * tol) run.violation(cd(i), fmt("the energy differs from uniform by %.4f", w));
    if (wp > 2 * tol) run.violation(cd(i), fmt("the azimuth differs from uniform by %.4f", wp));
    run.count("paths", S_all / 4);
    run.count("transitions", S_all / 4);
    run.count("traces_validated_against_impl", S_all / 4);
    run.count("states", S_all / 4);
    run.count("configurations");
  }, cd, 200);

  // ---- extremes
  const std::vector<std::vector<double>> values{{4.2e-10, 0.37, 1 - 4.2e-10}, {1e-7, 0.25, 0.5, 0.999999}, {4.2e-10, 1 - 4.2e-10}};  // the generator reaches 4.1e-10
  const size_t depth[3] = {(size_t)(run.thorough ? 11 : 9), (size_t)(run.thorough ? 10 : 7), 14};
  struct X { double A, T, E; size_t d, v; };
  std::vector<X> xs_;
  size_t nth = 0;
  for (double A : As) for (double T : {0.0, 1e-6, 293.6, 1e6}) for (double E : {1e-12, 2.5e-8, 1e-3, 20.0}) for (size_t v = 0; v < 3; v++, nth++)
    for (size_t k = 0; k < (run.thorough ? 2u : 1u); k++) xs_.push_back({A, T, E, (nth + nth / 8 + 4 * k) % dirs.size(), v});
  auto xd = [&](size_t i) { return fmt("A %g T %g E %g direction %zu values %zu", xs_[i].A, xs_[i].T, xs_[i].E, xs_[i].d, xs_[i].v); };
  run.cases("extremes", xs_.size(), [&](size_t i) {
    const X& x = xs_[i];
    const V d = ref::unit(dirs[x.d]);
    mini::Doc doc(doc_of(nuclide_text(x.A, fmt("x%zu", i)), x.T));
    Probe pr{doc.root};
    const auto nuc = pr.world.FindNuclideByName("x");
    const auto& cell = pr.world.FindCellContaining(point(kPos));
    choice::Tree t;
    t.K = (int)values[x.v].size();
    t.limit = depth[x.v];
    size_t tail = 0;
    verif::serve() = [&](std::minstd_rand&) {
      if (t.pos >= t.limit) { tail++; return (vh::mix(tail * 2654435761u + 77) >> 11) * 0x1p-53; }
      return values[x.v][(size_t)(t.draw() * t.K)];
    };
    do {
      t.start();
      tail = 0;
      Particle p{point(kPos), direction(d), Energy{ContinuousEnergy{x.E}}, Particle::Type::neutron, 1};
      p.SetCell(cell);
      nuc->Interact(p);
      Outcome o;
      run.count("paths");
      run.count("transitions");
      run.count("traces_validated_against_impl");
      std::string err = inspect(p, x.E, d, o);
      // the target is at most about 8 times as fast as its most probable speed: -log(1e-26) < 60
      const double reach = std::sqrt(x.E) + 2 * std::sqrt(60 * xs::kB * x.T / x.A);
      if (err.empty() && o.e > reach * reach * 1.001) err = fmt("energy %g from %g", o.e, x.E);
      if (!err.empty()) { run.violation(xd(i), "draws " + t.str() + ": " + err); break; }
    } while (t.next());
    verif::serve() = nullptr;
    run.count("configurations");
    run.count("states");
  }, xd, 200);

  // ---- balance
  std::vector<std::pair<double, double>> bs;
  for (double A : As) for (double T : {293.6, 2000.0}) bs.push_back({A, T});
  auto bd = [&](size_t i) { return fmt("A %g T %g", bs[i].first, bs[i].second); };
  run.cases("balance", bs.size(), [&](size_t i) {
    const auto [A, T] = bs[i];
    const double kT = xs::kB * T;
    mini::Doc doc(doc_of(nuclide_text(A, fmt("b%zu", i)), T, i % 2));
    Probe pr{doc.root};
    const auto nuc = pr.world.FindNuclideByName("x");
    const auto& cell = pr.world.FindCellContaining(point(kPos));
    // collision density in equilibrium: E exp(-E/kT) times the free-gas cross section, tabulated as cumulative
    const int N = 200000;
    std::vector<double> cum(N + 1, 0.0);
    const double max = 40;
    for (int k = 0; k < N; k++) { const double z = (k + 0.5) * max / N; cum[k + 1] = cum[k] + z * std::exp(-z) * xs::factor(A, z * kT, T); }
    for (auto& c : cum) c /= cum.back() ? 1 : 1;
    const double total = cum.back();
    auto F = [&](double z) { if (z >= max) return 1.0; const double q = z / max * N; const int k = (int)q; return (cum[k] + (q - k) * (cum[k + 1] - cum[k])) / total; };
    const int nq = 512, ns = run.thorough ? 4096 : 256;
    std::vector<double> u;
    for (int q = 0; q < nq; q++) {
      const double want = (q + 0.5) / nq * total;
      const int k = (int)(std::upper_bound(cum.begin(), cum.end(), want) - cum.begin()) - 1;
      const double z = (k + (want - cum[k]) / (cum[k + 1] - cum[k])) * max / N;
      for (int s = 0; s < ns; s++) {
        const V d = ref::unit(dirs[(q + s) % dirs.size()]);
        Particle p{point(kPos), direction(d), Energy{ContinuousEnergy{z * kT}}, Particle::Type::neutron, (RNG::result_type)(1 + s * nq + q)};
        p.SetCell(cell);
        nuc->Interact(p);
        Outcome o;
        if (const auto err = inspect(p, z * kT, d, o); !err.empty()) { run.violation(bd(i), err); return; }
        u.push_back(F(o.e / kT));
      }
    }
    const double w = ks_uniform(u);
    if (w > tol * 0.8) run.violation(bd(i), fmt("a collision changes the equilibrium distribution by %.4f", w));
    run.count("paths", u.size());
    run.count("transitions", u.size());
    run.count("traces_validated_against_impl", u.size());
    run.count("configurations");
    run.sample(bd(i) + fmt(": deviation %.4f", w));
  }, bd, 200);

  // ---- the whole cycle of the generator
  if (run.thorough) {
    const std::vector<G> whole{{1, 293.6, 1, 0}, {11.898, 600, 4, 7}};
    const uint64_t last = RNG::modulus - 1, parts = 512, step = (last + parts - 1) / parts;
    run.cases("cycle", whole.size() * parts, [&](size_t i) {
      const G& g = whole[i / parts];
      const double E = g.ekt * xs::kB * g.T;
      const V d = ref::unit(dirs[g.d]);
      mini::Doc doc(doc_of(nuclide_text(g.A, fmt("w%zu", i)), g.T));
      Probe pr{doc.root};
      const auto nuc = pr.world.FindNuclideByName("x");
      const auto& cell = pr.world.FindCellContaining(point(kPos));
      const uint64_t from = 1 + (i % parts) * step, to = std::min(last, from + step - 1);
      const Gas ref{g.A, std::sqrt(g.A * g.ekt)};
      std::vector<double> at;
      for (double r : {0.05, 0.2, 0.5, 0.9, 1.0, 1.1, 1.5, 2.5, 5.0}) at.push_back(r);
      std::vector<uint64_t> below(at.size(), 0);
      for (uint64_t s = from; s <= to; s++) {
        Particle p{point(kPos), direction(d), Energy{ContinuousEnergy{E}}, Particle::Type::neutron, (RNG::result_type)s};
        p.SetCell(cell);
        nuc->Interact(p);
        Outcome o;
        if (const auto err = inspect(p, E, d, o); !err.empty()) { run.violation("whole cycle " + gd(0), fmt("seed %llu: ", (unsigned long long)s) + err); return; }
        for (size_t k = 0; k < at.size(); k++) below[k] += o.e < at[k] * E;
      }
      const auto F = ref.energy(at);
      for (size_t k = 0; k < at.size(); k++)
        if (const double w = std::fabs((double)below[k] / (to - from + 1) - F[k]); w > 0.0018) run.violation("whole cycle", fmt("part %zu: share below %g of the incident energy is off by %.5f", i, at[k], w));
      run.count("paths", to - from + 1);
      run.count("states", to - from + 1);
      run.count("transitions", to - from + 1);
      run.count("traces_validated_against_impl", to - from + 1);
    }, [&](size_t i) { return fmt("states of the generator, part %zu", i); }, 600);
  }
  return run.finish();
}
