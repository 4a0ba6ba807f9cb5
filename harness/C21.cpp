// Thermal scattering.
//  total:    every place of energy and temperature relative to the tables, over shapes of tables: cross section, cutoff.
//  sampling: every seed 1..S of the generator: attributes of the scattered particle; energy transfer, cosine and azimuth
//            are mapped to the unit interval by the cumulative distributions the tables mean, where they must be uniform.
//  extremes: every sequence of small, middle and large draws to a depth: the outcome stays physical.
//  cutoff:   at and above the cutoff, and for photons, the nuclide acts as one without a thermal law.
#include "choice.hpp"
#include "probe.hpp"
#include "problems.hpp"
#include "vh.hpp"
#include "xs.hpp"
#include <algorithm>
#include <iostream>
using namespace vh;
using namespace prob;

namespace {
const V kPos{0.1, -2.2, 0.3};
const V kDir = ref::unit({0.48, -0.6, 0.64});
std::string doc_of(const std::string& nuclides, double T, bool varies = false) {
  Problem p;
  if (nuclides.find("<photon>") != std::string::npos) { p.particles = p.type = "photon"; }
  p.surfaces = {{"ball", 's', {}, 10}};
  p.cells = {{"in", "m0", {{"ball", -1}}, mini::num(T)}, {"", "", {{"ball", 1}}, ""}};
  p.materials = {{"m0", 1, {{"x", 1}}}};
  p.nuclides_text = nuclides;
  p.energy_text = "1";
  if (varies) {
    const V g{T / 5, -T / 4, T / 3};
    p.tracking = "cell delta";
    p.cells[0].temperature = "";
    p.temperature_text = "<temperature><linear><bounds lower=\"0\" upper=\"1e9\"/><intercept b=\"" + mini::num(T - ref::dot(g, kPos)) + "\"/><gradient " + ref::pt(g) + "/></linear></temperature>";
  }
  return ref::xml(p);
}
double ks_uniform(std::vector<double>& v) {
  std::sort(v.begin(), v.end());
  double w = 0;
  for (size_t i = 0; i < v.size(); i++) w = std::max({w, std::fabs(v[i] - (double)i / v.size()), std::fabs(v[i] - (i + 1.0) / v.size())});
  return w;
}
// cumulative distribution through (lo, 0), the points, (hi, 1)
struct Cdf {
  std::vector<double> x, F;
  double at(double v) const {
    if (v <= x.front()) return 0;
    if (v >= x.back()) return 1;
    size_t i = 0;
    while (x[i + 1] <= v) i++;
    return F[i] + (F[i + 1] - F[i]) * (v - x[i]) / (x[i + 1] - x[i]);
  }
};
Cdf cdf_of(const tsl::Data& d, const std::vector<tsl::Grid>& gs, size_t k, double T, double lo, double hi) {
  for (auto& g : gs) {
    if (k >= g.x.size()) { k -= g.x.size(); continue; }
    Cdf c{{lo}, {0}};
    for (size_t f = 0; f < g.F.size(); f++) { c.x.push_back(d.lin(g, f, k, T)); c.F.push_back(g.F[f]); }
    c.x.push_back(hi);
    c.F.push_back(1);
    return c;
  }
  std::abort();
}
std::vector<double> grid_of(const std::vector<tsl::Grid>& gs) {
  std::vector<double> r;
  for (auto& g : gs) r.insert(r.end(), g.x.begin(), g.x.end());
  return r;
}
// what the tables mean for a neutron of energy E at temperature T
struct Law {
  const tsl::Data& d;
  double A, E, kT, bmin;
  std::vector<double> betas, w;
  std::vector<Cdf> of_b;
  std::vector<Cdf> of_a;
  Law(const tsl::Data& d, double A, double E, double T) : d(d), A(A), E(E), kT(tsl::kB * d.Tc(T)), bmin(-E / kT), betas(grid_of(d.alpha)) {
    const auto es = grid_of(d.beta);
    size_t hi = 0;
    while (hi < es.size() && es[hi] <= E) hi++;
    auto add = [&](size_t k, double weight) { of_b.push_back(cdf_of(d, d.beta, k, d.Tc(T), -es[k] / kT, d.beta_cutoff)); w.push_back(weight); };
    if (hi == 0) add(0, 1);
    else { const double r = (E - es[hi - 1]) / (es[hi] - es[hi - 1]); if (r < 1) add(hi - 1, 1 - r); if (r > 0) add(hi, r); }
    for (size_t k = 0; k < betas.size(); k++) of_a.push_back(cdf_of(d, d.alpha, k, d.Tc(T), 0, d.alpha_cutoff));
  }
  // probability that a sampled energy transfer is not possible, at worst
  double rejected() const { double r = 0; for (auto& c : of_b) r = std::max(r, c.at(bmin)); return r; }
  double u_beta(double b) const {
    double u = 0;
    for (size_t k = 0; k < w.size(); k++) { const double z = of_b[k].at(bmin); u += w[k] * (of_b[k].at(b) - z) / (1 - z); }
    return u;
  }
  double a_min(double b) const { const double q = std::sqrt(E) - std::sqrt(std::max(0.0, E + b * kT)); return q * q / (A * kT); }
  double a_max(double b) const { const double q = std::sqrt(E) + std::sqrt(std::max(0.0, E + b * kT)); return q * q / (A * kT); }
  double u_alpha(double a, double b) const {
    const double ab = std::fabs(b), s = b < 0 ? -1 : 1;
    size_t hi = 0;
    while (hi < betas.size() && betas[hi] <= ab) hi++;
    const bool lower = hi == betas.size() || (b > 0 && d.beta_cutoff <= betas[hi]) || (b < 0 && -betas[hi] < bmin);
    struct Part { double bs; size_t k; double w; };
    std::vector<Part> ps;
    if (hi == 0) ps.push_back({lower ? b : s * betas[0], 0, 1});
    else if (lower) ps.push_back({s * betas[hi - 1], hi - 1, 1});
    else { const double r = (ab - betas[hi - 1]) / (betas[hi] - betas[hi - 1]); ps = {{s * betas[hi - 1], hi - 1, 1 - r}, {s * betas[hi], hi, r}}; }
    double u = 0;
    for (auto& p : ps) {
      const double lo = a_min(p.bs), up = a_max(p.bs), x = lo + (a - a_min(b)) * (up - lo) / (a_max(b) - a_min(b));
      const Cdf& c = of_a[p.k];
      u += p.w * (c.at(x) - c.at(lo)) / (c.at(up) - c.at(lo));
    }
    return u;
  }
};
struct Shape {
  std::string name;
  double A;
  tsl::Data d;
};
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "configurations", "paths", "traces_validated_against_impl"});
  std::cout.rdbuf(nullptr);
  const std::string dir = run.scratch;

  std::vector<Shape> shapes;
  auto add = [&](const char* n, double A, h5::Vec T, h5::Vec E, int nf, std::vector<int> b, std::vector<int> a, double bcut = 24, bool own = false) {
    shapes.push_back({n, A, tsl::plausible(A, T, E, nf, b, a, 0, own)});
    shapes.back().d.beta_cutoff = bcut;
  };
  const h5::Vec E5{1e-10, 1e-9, 1e-8, 1e-7, 4e-7};
  add("light, partitions 2+3, 3+2", 0.9991673, {280, 400, 900}, E5, 4, {2, 3}, {3, 2});
  add("heavy, one partition each", 11.898, {300, 500}, {1e-9, 4e-8, 3e-7}, 7, {5}, {4});
  add("one temperature", 1, {293.6}, E5, 5, {1, 2, 2}, {1, 3});
  add("one energy and energy transfer", 1, {280, 400}, {4e-7}, 3, {1}, {1});
  add("four temperatures, partitions of one", 8.9, {100, 300, 301, 1000}, {1e-11, 5e-9, 2e-7}, 2, {1, 1, 1, 1}, {1, 1, 1});
  add("one probability", 1, {280, 400, 900}, E5, 1, {3, 1}, {2, 2});
  add("energy transfers beyond the largest", 1.9968, {280, 600}, E5, 6, {6}, {6}, 9);
  add("many", 1, {280, 320, 360, 500, 800}, {1e-10, 4e-10, 1e-9, 6e-9, 1e-8, 3e-8, 1e-7, 2e-7, 4e-7}, 12, {4, 5, 3}, {5, 1, 6});
  add("partitions of their own", 2.5, {250, 350, 500, 900}, E5, 3, {2, 1, 2}, {2, 3, 1}, 24, true);
  h5::Vec E60;
  for (int i = 0; i < 60; i++) E60.push_back(1e-10 * std::pow(4e3, i / 59.0));
  add("large", 1, {270, 280, 296, 310, 350, 400, 480, 600, 900}, E60, 40, {9, 8, 1, 20, 2}, {4, 6, 5, 1, 15, 5, 4}, 24, true);
  shapes.push_back({"steep", 1, tsl::plausible(1, {200, 500, 900}, E5, 5, {2, 3}, {4, 3}, 0, false, true)});
  const size_t ns = shapes.size(), steep = ns - 1;
  auto thin = [&](std::vector<double> v, size_t n) {  // at most n of them, evenly
    if (v.size() <= n) return v;
    std::vector<double> r;
    for (size_t i = 0; i < n; i++) r.push_back(v[i * (v.size() - 1) / (n - 1)]);
    return r;
  };
  auto nuclide = [&](const Shape& s, bool law = true) {
    xs::Nuclide n;
    n.name = "x"; n.awr = s.A; n.scatter = cont::flat(10);
    if (law) n.law = &s.d;
    return n;
  };
  auto neutron = [&](const Probe& pr, double E, int seed = 1) {
    Particle p{point(kPos), direction(kDir), Energy{ContinuousEnergy{E}}, Particle::Type::neutron, (RNG::result_type)seed};
    p.SetCell(pr.world.FindCellContaining(point(kPos)));
    return p;
  };
  auto temps = [&](const tsl::Data& d) {
    std::vector<double> t{d.T.front() * 0.3, d.T.front() * 0.999};
    for (size_t i = 0; i < d.T.size(); i++) {
      t.push_back(d.T[i]);
      if (i + 1 < d.T.size()) for (double q : {1e-9, 0.25, 0.5, 0.9}) t.push_back(d.T[i] + q * (d.T[i + 1] - d.T[i]));
    }
    t.push_back(d.T.back() * 1.001);
    t.push_back(d.T.back() * 5);
    return t;
  };

  // ---- total
  struct Tc { size_t s; double T; bool varies; };
  std::vector<Tc> ts;
  for (size_t s = 0; s < ns; s++) for (double T : temps(shapes[s].d)) for (bool v : {false, true}) ts.push_back({s, T, v});
  auto td = [&](size_t i) { return shapes[ts[i].s].name + fmt(" T %.12g%s", ts[i].T, ts[i].varies ? " varying" : ""); };
  run.cases("total", ts.size(), [&](size_t i) {
    const Shape& s = shapes[ts[i].s];
    const xs::Nuclide n = nuclide(s);
    mini::Doc doc(doc_of(xs::xml(dir, fmt("t%zu", i), {n}), ts[i].T, ts[i].varies));
    Probe pr{doc.root};
    const auto nuc = pr.world.FindNuclideByName("x");
    std::vector<double> es;
    for (size_t k = 0; k < s.d.E.size(); k++) {
      const double e = s.d.E[k];
      for (double f : {std::nextafter(e, 0.0), e, std::nextafter(e, 1.0)}) es.push_back(f);
      if (k + 1 < s.d.E.size()) for (double q : {0.01, 0.3, 0.5, 0.99}) es.push_back(e + q * (s.d.E[k + 1] - e));
    }
    for (double f : {1e-6, 0.1, 0.9}) es.push_back(s.d.E.front() * f);
    for (double f : {1.0001, 2.0, 1e6}) es.push_back(s.d.E.back() * f);
    for (double e : es) {
      const double got = nuc->GetTotal(neutron(pr, e)), want = n.tot(e, ts[i].T);
      run.count("states");
      run.count("transitions");
      if (!(std::fabs(got - want) <= 1e-7 * want)) { run.violation(td(i), fmt("energy %.17g (cutoff %.17g): cross section %.12g, the tables say %.12g", e, s.d.E.back(), got, want)); return; }
    }
    run.count("configurations");
  }, td);

  // ---- sampling
  struct Sc { size_t s; double E, T; bool varies; };
  std::vector<Sc> ss;
  for (size_t s = 0; s < ns; s++) {
    const auto& d = shapes[s].d;
    const auto eb = grid_of(d.beta);
    std::vector<double> es{eb[0] * 0.2, eb[0]}, tt{d.T.front() * 0.5, d.T.front(), d.T.back() * 1.6};
    for (size_t k = 0; k + 1 < eb.size(); k++) for (double q : {0.15, 0.5, 0.85}) es.push_back(eb[k] + q * (eb[k + 1] - eb[k]));
    for (size_t k = 0; k < eb.size(); k++) es.push_back(eb[k]);
    es.push_back(std::nextafter(d.E.back(), 0.0));
    es.push_back(d.E.back() * 0.3);
    for (size_t k = 0; k + 1 < d.T.size(); k++) for (double q : {0.3, 0.8}) tt.push_back(d.T[k] + q * (d.T[k + 1] - d.T[k]));
    es = thin(es, 30);
    tt = thin(tt, 11);
    if (s == steep) {
      es = {eb[0] * 0.9};
      for (size_t k = 0; k + 1 < eb.size(); k++) for (double q : {0.04, 0.5, 0.96}) es.push_back(eb[k] + q * (eb[k + 1] - eb[k]));
      tt.clear();
      for (size_t k = 0; k + 1 < d.T.size(); k++) for (double q : {0.01, 0.05, 0.5, 0.95, 0.99}) tt.push_back(d.T[k] + q * (d.T[k + 1] - d.T[k]));
    }
    size_t n = 0;
    for (double e : es) for (double t : tt) {
      if (e >= d.E.back()) continue;
      const Law law(d, shapes[s].A, e, t);
      if (law.rejected() > 0.15) continue;  // ten rejections in a row end the program: no data for such energies
      if (run.thorough || (s == steep ? (n + n / 10) % 2 == 0 : n % 4 == s % 4)) ss.push_back({s, e, t, n % 8 >= 4});
      n++;
    }
  }
  const int S = run.thorough ? 1 << 18 : 1 << 16;
  const double tol = run.thorough ? 0.006 : 0.012;
  auto sd = [&](size_t i) { return shapes[ss[i].s].name + fmt(" E %.12g T %.12g%s", ss[i].E, ss[i].T, ss[i].varies ? " varying" : ""); };
  // what must hold of every outcome; error text or empty
  auto inspect = [&](const Particle& p, double E, double& e, double& mu, bool photon = false) -> std::string {
    if (!p.IsAlive() || p.event != Particle::Event::scatter) return fmt("event %d", (int)p.event);
    if (!std::holds_alternative<ContinuousEnergy>(p.GetEnergy())) return "no continuous energy";
    e = std::get<ContinuousEnergy>(p.GetEnergy());
    if (!(e >= 0) || !std::isfinite(e)) return fmt("energy %g from %g", e, E);
    const V w = vec(p.GetDirection());
    if (!(std::fabs(ref::dot(w, w) - 1) < 1e-9)) return fmt("energy %.12g direction (%g, %g, %g)", e, w.x, w.y, w.z);
    if (!same(vec(p.GetPosition()), kPos)) return "moved";
    if (p.GetType() != (photon ? Particle::Type::photon : Particle::Type::neutron)) return "changed its type";
    mu = ref::dot(w, kDir);
    return "";
  };
  run.cases("sampling", ss.size(), [&](size_t i) {
    const Sc& c = ss[i];
    const Shape& s = shapes[c.s];
    mini::Doc doc(doc_of(xs::xml(dir, fmt("s%zu", i), {nuclide(s)}), c.T, c.varies));
    Probe pr{doc.root};
    const auto nuc = pr.world.FindNuclideByName("x");
    const Law law(s.d, s.A, c.E, c.T);
    std::vector<double> ub, ua[4], phi;
    std::map<std::string, double> pooled;
    const V a1 = ref::unit(V{1, 0, 0} - ref::dot(V{1, 0, 0}, kDir) * kDir), b1{kDir.y * a1.z - kDir.z * a1.y, kDir.z * a1.x - kDir.x * a1.z, kDir.x * a1.y - kDir.y * a1.x};
    for (int k = 1; k <= S; k++) {
      Particle p = neutron(pr, c.E, k);
      nuc->Interact(p);
      double e, mu;
      if (const auto err = inspect(p, c.E, e, mu); !err.empty()) { run.violation(sd(i), fmt("seed %d: ", k) + err); return; }
      const double b = (e - c.E) / law.kT, al = (c.E + e - 2 * mu * std::sqrt(c.E * e)) / (s.A * law.kT), u = law.u_beta(b), v = law.u_alpha(al, b);
      if (b > s.d.beta_cutoff * (1 + 1e-9)) { run.violation(sd(i), fmt("seed %d: energy transfer %.9g beyond the largest", k, b)); return; }
      if (!std::isfinite(v)) continue;
      if (c.s == steep) {  // by the place of the energy transfer between its neighbours
        const size_t h = std::upper_bound(law.betas.begin(), law.betas.end(), std::fabs(b)) - law.betas.begin();
        if (h && h < law.betas.size() && !(b < 0 && -law.betas[h] < law.bmin))
          pooled[fmt("between %zu %d %d", h, std::min(9, (int)(10 * (std::fabs(b) - law.betas[h - 1]) / (law.betas[h] - law.betas[h - 1]))), std::min(19, std::max(0, (int)(v * 20))))]++;
      }
      ub.push_back(u);
      ua[std::min(3, std::max(0, (int)(u * 4)))].push_back(v);
      if (mu * mu < 1 - 1e-9) { const V w = vec(p.GetDirection()); phi.push_back(std::atan2(ref::dot(w, b1), ref::dot(w, a1)) / (2 * M_PI) + 0.5); }
    }
    for (auto& [k, v] : pooled) run.emit(k, v);
    run.count("paths", S);
    run.count("transitions", S);
    run.count("states", S);
    run.count("traces_validated_against_impl", S);
    run.count("configurations");
    if (ub.size() < (size_t)S * 99 / 100) run.violation(sd(i), "too many outcomes without a probability");
    const double wb = ks_uniform(ub), wp = ks_uniform(phi);
    double wa = 0;
    for (auto& q : ua) if (q.size() > (size_t)S / 8) wa = std::max(wa, ks_uniform(q));
    if (wb > tol) run.violation(sd(i), fmt("the distribution of energy transfers is off by %.4f over all seeds up to %d", wb, S));
    if (wa > 2 * tol) run.violation(sd(i), fmt("the distribution of cosines is off by %.4f over all seeds up to %d", wa, S));
    if (wp > 1.5 * tol) run.violation(sd(i), fmt("the distribution of azimuths is off by %.4f over all seeds up to %d", wp, S));
    if (i % 9 == 0) run.sample(sd(i) + fmt(": deviations %.4f %.4f %.4f", wb, wa, wp));
  }, sd, 200);
  if (!run.single_case())
    for (size_t h = 1; h < grid_of(shapes[steep].d.alpha).size(); h++) {
      std::string w;
      for (int q = 0; q < 10; q++) {
        double n = 0, worst = 0, at = 0;
        for (int k = 0; k < 20; k++) n += run.merged[fmt("between %zu %d %d", h, q, k)];
        for (int k = 0; k < 19; k++) { at += run.merged[fmt("between %zu %d %d", h, q, k)] / n; worst = std::max(worst, std::fabs(at - (k + 1) / 20.0)); }
        if (n >= 5000) w += fmt(" %.4f (%.0f)", worst, n);
        if (n >= 5000 && worst > std::max(0.022, 1.6 / std::sqrt(n))) run.violation("between", fmt("energy transfers between the table entries %zu and %zu, tenth %d: the distribution of cosines is off by %.4f over %.0f outcomes", h - 1, h, q, worst, n));
      }
      run.note(fmt("cosines between energy transfers %zu and %zu:", h - 1, h) + w);
    }

  // ---- extremes
  struct X { size_t s; double E, T; size_t v; };
  const std::vector<std::vector<double>> values{{4.2e-10, 0.37, 1 - 4.2e-10}, {1e-6, 0.5, 0.97, 0.999999}, {4.2e-10, 1 - 4.2e-10}};
  const size_t depth[3] = {(size_t)(run.thorough ? 8 : 7), (size_t)(run.thorough ? 7 : 5), 8};
  std::vector<X> xs_;
  for (size_t s = 0; s < ns; s++) {
    const auto& d = shapes[s].d;
    const auto eb = grid_of(d.beta);
    std::vector<double> es{1e-14, 1e-12, eb[0], std::nextafter(d.E.back(), 0.0)};
    for (size_t k = 0; k + 1 < eb.size(); k++) es.push_back(eb[k] + 0.4 * (eb[k + 1] - eb[k]));
    for (double e : thin(es, 16)) for (double T : {d.T.front() * 0.5, (d.T.front() + d.T.back()) * 0.5, d.T.back() * 2}) {
      if (e >= d.E.back()) continue;
      if (Law(d, shapes[s].A, e, T).rejected() > 0.15) continue;
      for (size_t v = 0; v < 3; v++) xs_.push_back({s, e, T, v});
    }
  }
  auto xd = [&](size_t i) { return shapes[xs_[i].s].name + fmt(" E %.12g T %.12g values %zu", xs_[i].E, xs_[i].T, xs_[i].v); };
  run.cases("extremes", xs_.size(), [&](size_t i) {
    const X& x = xs_[i];
    const Shape& s = shapes[x.s];
    mini::Doc doc(doc_of(xs::xml(dir, fmt("x%zu", i), {nuclide(s)}), x.T));
    Probe pr{doc.root};
    const auto nuc = pr.world.FindNuclideByName("x");
    const Law law(s.d, s.A, x.E, x.T);
    choice::Tree t;
    t.K = (int)values[x.v].size();
    t.limit = depth[x.v];
    size_t tail = 0;
    verif::serve() = [&](std::minstd_rand&) {
      if (t.pos >= t.limit) { tail++; return (vh::mix(tail * 2654435761u + 77) >> 11) * 0x1p-53; }
      return values[x.v][(size_t)(t.draw() * t.K)];
    };
    do {
      t.start();
      tail = 0;
      Particle p = neutron(pr, x.E);
      nuc->Interact(p);
      run.count("paths");
      run.count("transitions");
      run.count("traces_validated_against_impl");
      double e, mu;
      std::string err = inspect(p, x.E, e, mu);
      if (err.empty() && e > (x.E + s.d.beta_cutoff * law.kT) * (1 + 1e-12)) err = fmt("energy %g beyond the largest transfer", e);
      if (!err.empty()) { run.violation(xd(i), "draws " + t.str() + ": " + err); break; }
    } while (t.next());
    verif::serve() = nullptr;
    run.count("configurations");
    run.count("states");
  }, xd, 200);

  // ---- cutoff
  struct Cc { size_t s; double E, T; bool photon = false; };
  std::vector<Cc> cs;
  for (size_t s = 0; s < ns; s++) for (double f : {0.0, 1.0, 1.5, 1e4}) for (double T : {100.0, 293.6, 2000.0}) cs.push_back({s, f == 0 ? shapes[s].d.E.back() : f == 1 ? std::nextafter(shapes[s].d.E.back(), 1.0) : f * shapes[s].d.E.back(), T});
  for (size_t s = 0; s < ns; s++) for (double f : {0.01, 0.6, 2.0}) cs.push_back({s, f * shapes[s].d.E.back(), 400, true});
  auto cd = [&](size_t i) { return shapes[cs[i].s].name + fmt(" E %.17g T %g%s", cs[i].E, cs[i].T, cs[i].photon ? " photons" : ""); };
  run.cases("cutoff", cs.size(), [&](size_t i) {
    const Cc& c = cs[i];
    const Shape& s = shapes[c.s];
    xs::Nuclide nw = nuclide(s), no = nuclide(s, false);
    if (c.photon) nw.type = no.type = "photon";
    mini::Doc with(doc_of(xs::xml(dir, fmt("cw%zu", i), {nw}), c.T, c.photon)), without(doc_of(xs::xml(dir, fmt("co%zu", i), {no}), c.T, c.photon));
    if (c.photon) {  // such data are refused
      try { Probe a{with.root}; } catch (...) { run.count("configurations"); return; }
    }
    Probe a{with.root}, b{without.root};
    const auto na = a.world.FindNuclideByName("x"), nb = b.world.FindNuclideByName("x");
    auto make = [&](const Probe& pr, double E, int seed = 1) {
      if (!c.photon) return neutron(pr, E, seed);
      Particle p{point(kPos), direction(kDir), Energy{ContinuousEnergy{E}}, Particle::Type::photon, (RNG::result_type)seed};
      p.SetCell(pr.world.FindCellContaining(point(kPos)));
      return p;
    };
    if (na->GetTotal(make(a, c.E)) != nb->GetTotal(make(b, c.E))) { run.violation(cd(i), fmt("cross section %.17g, without the law %.17g", na->GetTotal(make(a, c.E)), nb->GetTotal(make(b, c.E)))); return; }
    const int n = run.thorough ? 1 << 18 : 1 << 14;
    bool equal = true;
    std::vector<double> ea, eb, ma, mb;
    for (int k = 1; k <= n; k++) {
      Particle p = make(a, c.E, k), q = make(b, c.E, k);
      na->Interact(p);
      nb->Interact(q);
      double e, mu, f, nu;
      if (const auto err = inspect(p, c.E, e, mu, c.photon); !err.empty()) { run.violation(cd(i), fmt("seed %d: ", k) + err); return; }
      if (const auto err = inspect(q, c.E, f, nu, c.photon); !err.empty()) { run.violation(cd(i), fmt("seed %d, without the law: ", k) + err); return; }
      equal = equal && e == f && mu == nu;
      ea.push_back(e); eb.push_back(f); ma.push_back(mu); mb.push_back(nu);
    }
    if (!equal) {  // other draws are fine as long as the distributions agree
      for (auto* v : {&ea, &eb, &ma, &mb}) std::sort(v->begin(), v->end());
      auto dist = [&](const std::vector<double>& x, const std::vector<double>& y) {
        double w = 0;
        for (size_t k = 0; k < x.size(); k++) w = std::max(w, std::fabs((double)(std::lower_bound(y.begin(), y.end(), x[k]) - y.begin()) - k) / x.size());
        return w;
      };
      if (const double w = std::max(dist(ea, eb), dist(ma, mb)); w > 0.03) run.violation(cd(i), fmt("outcomes differ by %.4f from those without the law", w));
    }
    run.count("paths", 2 * n);
    run.count("transitions", 2 * n);
    run.count("traces_validated_against_impl", 2 * n);
    run.count("configurations");
  }, cd);
  return run.finish();
}
