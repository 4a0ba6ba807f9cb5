// Delta tracking and surface tracking.
//  majorant:   lattice of nuclides, temperature fields, positions and energies: the majorant is never below the total.
//  same:       problems both methods accept: over all draw sequences both give the distribution of the reference model
//              (multigroup) or of each other (continuous energy).
//  sites:      delta tracking through cells whose temperature varies: over a lattice of draws the sites of the first real
//              collision follow 1 - exp(-integral of the cross section at the places along the path).
//  virtual:    at every virtual collision of every draw sequence, direction, energy and tallies are what they were.
//  refusal:    surface tracking is refused exactly where the temperature varies with position.
#include "explore.hpp"
#include "probe.hpp"
#include "problems.hpp"
#include "xs.hpp"
#include <algorithm>
using namespace vh;
using namespace prob;

namespace {
struct Field { double T0; V g; double lo, hi; bool constant() const { return g.x == 0 && g.y == 0 && g.z == 0; } double at(V p) const { return T0 + ref::dot(g, p); } };
std::string xml(const Field& f) {
  if (f.constant()) return "<temperature><constant c=\"" + mini::num(f.T0) + "\"/></temperature>";
  return "<temperature><linear><bounds lower=\"" + mini::num(f.lo) + "\" upper=\"" + mini::num(f.hi) + "\"/><intercept b=\"" + mini::num(f.T0) + "\"/><gradient x=\"" + mini::num(f.g.x) +
         "\" y=\"" + mini::num(f.g.y) + "\" z=\"" + mini::num(f.g.z) + "\"/></linear></temperature>";
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  explore::declare(run);
  run.declare({"majorants", "sites", "virtual_collisions", "refusals"});
  const std::string dir = run.scratch;

  // nuclides
  tsl::Data law = tsl::plausible(1, {280, 400, 900}, {1e-10, 1e-9, 1e-8, 1e-7, 4e-7}, 4, {2, 3}, {3, 2});
  std::vector<xs::Nuclide> ns;
  auto make = [&](const std::string& name, double awr) { xs::Nuclide n; n.name = name; n.awr = awr; return n; };
  const cont::Vec e{1e-11, 1e-9, 3e-8, 1e-6, 1e-2, 20};
  for (double Te : {293.6, 600.0})
    for (double awr : {0.9991673, 1.0, 1.00001, 3.968, 236.0}) {
      auto n = make(fmt("fg%g-%g", awr, Te), awr);
      n.scatter = {e, {30, 22, 20, 20.5, 10, 1}, Te};
      n.capture = {e, {5, 2, 1, 0.3, 0.1, 0.01}, Te};
      ns.push_back(n);
      n.name += "t";  // a total that differs from the sum, evaluated elsewhere
      n.total = {e, {33, 25, 20, 21, 9, 1.5}, 293.6};
      ns.push_back(n);
    }
  {
    auto n = make("tsl", 1.0);
    n.scatter = {e, {30, 22, 20, 20.5, 10, 1}, 293.6};
    n.capture = {e, {5, 2, 1, 0.3, 0.1, 0.01}, 293.6};
    n.law = &law;
    ns.push_back(n);
    n.name = "tslt";
    n.total = {e, {33, 25, 20, 21, 9, 1.5}, 293.6};
    ns.push_back(n);
    auto c = make("cap", 50);
    c.capture = {e, {5, 2, 1, 0.3, 0.1, 0.01}, 293.6};
    ns.push_back(c);
    c.name = "capt";
    c.total = c.capture;
    c.total.v[2] = 4;
    ns.push_back(c);
  }
  // ---- majorant
  std::vector<Field> fields;
  for (double T : {0.0, 1e-3, 4.0, 290.0, 290.7, 293.6, 296.5, 296.6, 400.0, 594.1, 600.0, 1e4}) fields.push_back({T, {}, T, T});
  for (auto& [lo, hi] : std::vector<std::pair<double, double>>{{0, 300}, {0.3, 1.9}, {290.1, 299.9}, {290, 297}, {292, 294}, {294, 296}, {296, 297}, {200, 293.6}, {293.6, 293.7}, {200, 291}, {296.6, 1200}, {595, 605}, {500, 700}, {100, 2000}})
    for (V g : {V{1, 0, 0}, V{0, -1, 0}, V{0.6, 0, 0.8}, V{-0.5, 0.5, 0.70710678}}) {
      // inside the unit ball the field covers exactly [lo, hi]
      const double m = (lo + hi) / 2, k = (hi - lo) / 2 * (1 - 1e-12) / std::sqrt(ref::dot(g, g));
      fields.push_back({m, k * g, lo, hi});
    }
  std::vector<double> es;
  for (double x = -14; x <= 1.5; x += run.thorough ? 0.05 : 0.25) es.push_back(std::pow(10, x));
  for (double c : {1e-11, 1e-9, 3e-8, 1e-6, 1e-2, 20.0, 1e-10, 1e-8, 1e-7, 4e-7})
    for (double v : {std::nextafter(c, 0.0), c, std::nextafter(c, 100.0)}) es.push_back(v);
  const std::vector<V> inside = [&] {
    std::vector<V> r{{0, 0, 0}};
    for (auto d : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}, V{0.6, 0, 0.8}, V{-0.5, 0.5, 0.70710678}})
      for (double s : {-0.999999, -0.99, -0.5, -0.1, -0.01, 0.01, 0.1, 0.5, 0.99, 0.999999}) r.push_back(s / std::sqrt(ref::dot(d, d)) * d);
    return r;
  }();
  const std::string all = xs::xml(dir, "all", ns);
  auto md = [&](size_t i) { const Field& f = fields[i / ns.size()]; return ns[i % ns.size()].name + (f.constant() ? fmt(" at %g", f.T0) : fmt(" at %g + (%g,%g,%g).x in [%g, %g]", f.T0, f.g.x, f.g.y, f.g.z, f.lo, f.hi)); };
  run.cases("majorant", fields.size() * ns.size(), [&](size_t i) {
    const Field& f = fields[i / ns.size()];
    const xs::Nuclide& n = ns[i % ns.size()];
    Problem p = shells({1}, {"m0"});
    p.nuclides_text = all;
    p.temperature_text = xml(f);
    p.tracking = "cell delta";
    p.materials = {{"m0", 1, {{n.name, 2}, {"cap", 1}}}};
    if (n.name == "cap") p.materials = {{"m0", 1, {{n.name, 1}}}};
    mini::Doc doc(ref::xml(p));
    Probe pr{doc.root};
    const auto nuc = pr.world.FindNuclideByName(n.name);
    std::vector<double> ee = es;
    for (double T : {f.lo, f.hi}) for (double w : {1 - 1e-9, 1.0, 1 + 1e-9}) if (T > 0) ee.push_back(500 * xs::kB * T / n.awr * w);
    for (double E : ee)
      for (auto& x : inside) {
        Particle q{point(x), direction({1, 0, 0}), Energy{ContinuousEnergy{E}}, Particle::Type::neutron, 1};
        q.SetCell(pr.world.FindCellContaining(q.GetPosition()));
        const double t = nuc->GetTotal(q), m = nuc->GetMajorant(q);
        const auto& mat = *q.GetCell().material;
        const double mt = mat.GetMicroscopicTotal(q), mm = mat.GetMicroscopicMajorant(q);
        if (!(m >= t * (1 - 1e-12)) || !(mm >= mt * (1 - 1e-12)) || !std::isfinite(m) || !(t >= 0))
          { run.violation(md(i), fmt("energy %.17g, position (%g, %g, %g), temperature %.9g: majorant %.15g, total %.15g; in the material %.15g, %.15g", E, x.x, x.y, x.z, f.at(x), m, t, mm, mt)); return; }
        run.count("majorants");
        run.count("transitions");
        run.count("traces_validated_against_impl");
      }
    run.count("states", ee.size());
    if (i % 301 == 0) run.sample(md(i));
  }, md);

  // ---- both methods, multigroup: against the reference model; continuous energy: against each other
  struct Case { Problem p; std::string what; int K; bool cont; };
  std::vector<Case> cs;
  {
    std::vector<std::pair<std::string, Problem>> geos;
    geos.push_back({"slab", slab({0, 1.3, 2.9}, {"m0", "m1"})});
    geos.push_back({"slab4", slab({-1, 0.37, 0.6, 1.3, 2.9}, {"m1", "m0"})});
    geos.push_back({"shells", shells({1.1, 2.3}, {"m0", "m1"}, {0.2, 0.1, -0.3})});
    geos.push_back({"can", can(0.8, {0.3, 0.1, 0.2}, 1.9, -1.7, 2.1, "m0", "m1")});
    const std::vector<V> dirs{{1, 0.1, -0.2}, {-2, 1, 0.5}};
    for (auto& [gn, g] : geos)
      for (size_t d = 0; d < dirs.size(); d++) {
        for (int kind = 0; kind < 3; kind++) {
          Problem p = g;
          use(p, kind == 0 ? absorber(6) : kind == 1 ? scatterer(2) : fissile(2, 1.5, 1));
          tally_all(p, true);
          p.pos = {0.31, 0.07, 0.11};
          p.dir = dirs[d];
          p.group = kind ? 2 : 1;
          cs.push_back({p, fmt("%s kind %d direction %zu", gn.c_str(), kind, d), kind == 0 ? 6 : 2, false});
        }
        int nr = 0;
        for (double E : {1e-9, 2e-8, 1e-3})
          for (int kind = 0; kind < 3; kind++)
            for (int temp = 0; temp < 3; temp++) {
              Problem p = g;
              cont::Nuclide a, b;
              a.name = "a"; a.awr = 4; a.capture = {{1e-11, 1e-8, 1e-3, 20}, {3, 2, 1, 0.5}, 293.6};
              b.name = "b"; b.awr = 5; b.capture = {{1e-10, 1e-7, 2}, {0.5, 1, 2}, 600};
              if (kind == 1) { b.fission = cont::flat(1.5); b.nubar = cont::flat(1); }
              if (kind == 2) { a.total = cont::flat(4, 293.6); b.total = cont::flat(0.7, 600); }
              p.nuclides_text = cont::xml(dir, fmt("s%s%zu-%d", gn.c_str(), d, nr++), {a, b});
              p.materials = {{"m0", 0.15, {{"a", 0.4}, {"b", 1.2}}}, {"m1", 0.1, {{"a", 1}}}};
              if (temp) p.temperature_text = "<temperature><constant c=\"600\"/></temperature>";
              if (temp == 2) for (auto& c : p.cells) if (!c.material.empty()) { c.temperature = "293"; break; }
              p.energy_text = mini::num(E);
              tally_all(p, false);
              p.pos = {0.31, 0.07, 0.11};
              p.dir = dirs[d];
              cs.push_back({p, fmt("%s continuous E %g kind %d temperature %d direction %zu", gn.c_str(), E, kind, temp, d), 2, true});
            }
      }
  }
  const uint64_t cap = run.thorough ? 100000 : 2000;
  run.cases("same", cs.size(), [&](size_t i) {
    Problem p = cs[i].p;
    if (!cs[i].cont) {
      for (const char* tr : {"surface", "cell delta"}) { p.tracking = tr; explore::compare(run, p, cs[i].what + " " + tr, cs[i].K, 26, cap); }
      return;
    }
    p.tracking = "surface";
    const auto a = explore::implementation(p, cs[i].K, 24, cap);
    if (a.capped || a.truncated) { run.count("problems_over_cap"); return; }
    p.tracking = "cell delta";
    const auto b = explore::implementation(p, cs[i].K, 34, 64 * a.paths + 1000);
    if (b.capped || b.truncated) { run.violation(cs[i].what, "delta tracking does not end where surface tracking does"); return; }
    run.count("problems");
    run.count("paths", a.paths + b.paths);
    run.count("transitions", a.draws + b.draws);
    run.count("states", a.dist.size());
    run.count("traces_validated_against_impl", a.paths + b.paths);
    const std::string diff = ref::differ(b.dist, a.dist, 1e-9);
    if (!diff.empty()) run.violation(cs[i].what, "delta tracking against surface tracking: " + diff + " " + ref::xml(p));
  }, [&](size_t i) { return cs[i].what; }, 300);

  // ---- sites of real collisions
  struct Site { size_t nuc; double E; int geo; Field f; V d; };
  std::vector<Site> ss;
  for (size_t n = 0; n < ns.size(); n++) {
    if (ns[n].awr == 1.00001) continue;
    for (double E : {3e-10, 2e-8, 3.9e-7, 1e-3})
      for (int geo = 0; geo < 2; geo++)
        for (int f = 0; f < 2; f++) {
          if (!run.thorough && (n + geo + f) % 2) continue;
          ss.push_back({n, E, geo, f ? Field{650, {-280, 60, 0}, 50, 1250} : Field{600, {250, 0, -100}, 100, 1100}, geo ? V{-0.6, 0.64, 0.48} : V{1, 0, 0}});
        }
  }
  auto sd = [&](size_t i) { return ns[ss[i].nuc].name + fmt(" E %g geometry %d field %g", ss[i].E, ss[i].geo, ss[i].f.T0); };
  const std::vector<int> dims = run.thorough ? std::vector<int>{64, 48, 16, 12, 4} : std::vector<int>{64, 32, 8, 4, 1};
  run.cases("sites", ss.size(), [&](size_t i) {
    const Site& s = ss[i];
    const xs::Nuclide& n = ns[s.nuc];
    Problem p = shells(s.geo ? std::vector<double>{0.7, 1.7} : std::vector<double>{1.7}, {"m0", "m1"});
    if (s.geo) p.cells[0].temperature = "350";  // the inner cell has a temperature of its own
    p.nuclides_text = all;
    p.temperature_text = xml(s.f);
    p.tracking = "cell delta";
    const double ref = n.tot(s.E, 900) + 1;
    p.materials = {{"m0", 1.2 / ref, {{n.name, 1}}}, {"m1", 0.7 / ref, {{n.name, 1}, {"cap", n.name == "cap" ? 0 : 0.5}}}};
    if (n.name == "cap") p.materials[1].nuc.resize(1);
    p.energy_text = mini::num(s.E);
    mini::Doc doc(ref::xml(p));
    Probe pr{doc.root};
    const V start{-0.9 * s.d.x, -0.9 * s.d.y, -0.9 * s.d.z};
    auto Sigma = [&](double l) {
      const V x = start + l * s.d;
      const double r = std::sqrt(ref::dot(x, x));
      const bool inner = s.geo && r < 0.7;
      const double T = inner ? 350 : s.f.at(x);
      if (inner || !s.geo) return 1.2 / ref * n.tot(s.E, T);
      return 0.7 / ref * (n.name == "cap" ? n.tot(s.E, T) : (n.tot(s.E, T) + 0.5 * ns[ns.size() - 2].tot(s.E, T)) / 1.5);
    };
    const double L = 2.6;
    const int steps = 26000;
    std::vector<double> tau(steps + 1, 0);
    for (int k = 0; k < steps; k++) tau[k + 1] = tau[k] + Sigma((k + 0.5) * L / steps) * L / steps;
    // the lattice
    std::vector<double> sites;
    long leaks = 0, total = 0;
    std::vector<int> ix(dims.size(), 0);
    while (true) {
      size_t k = 0;
      bool real = false;
      V at;
      Particle q{point(start), direction(s.d), Energy{ContinuousEnergy{s.E}}, Particle::Type::neutron, 1};
      uint64_t h = total;
      verif::on_draw() = [&](std::minstd_rand&) {
        if (!real && (q.event == Particle::Event::scatter || q.event == Particle::Event::capture)) { real = true; at = vec(q.GetPosition()); }
      };
      verif::serve() = [&](std::minstd_rand&) { const double u = k < dims.size() ? (ix[k] + 0.5) / dims[k] : ((mix(h * 512 + k) >> 11) + 0.5) * 0x1p-53; k++; return u; };
      if (dims[k] == 1) {}
      auto proxy = pr.init_estimator_set.GetProxy();
      q.Transport(proxy, pr.world);
      verif::on_draw() = nullptr;
      verif::serve() = nullptr;
      if (!real && q.event == Particle::Event::capture) { real = true; at = vec(q.GetPosition()); }
      total++;
      if (!real) leaks++;
      else {
        const V x = at - start;
        sites.push_back(ref::dot(x, s.d));
        const V off = x - sites.back() * s.d;
        if (ref::dot(off, off) > 1e-18) run.violation(sd(i), "a virtual collision changed the direction");
      }
      run.count("transitions");
      run.count("traces_validated_against_impl");
      size_t j = 0;
      while (j < dims.size() && ++ix[j] == dims[j]) ix[j++] = 0;
      if (j == dims.size()) break;
    }
    run.count("sites", sites.size());
    run.count("states", sites.size());
    std::sort(sites.begin(), sites.end());
    double worst = 0, where = 0;
    auto F = [&](double l) { const double t = std::min(std::max(l / L * steps, 0.0), steps - 1e-9); const int k = (int)t; return -std::expm1(-(tau[k] + (t - k) * (tau[k + 1] - tau[k]))); };
    for (size_t k = 0; k < sites.size(); k++) {
      const double d = std::fabs(F(sites[k]) - (k + 0.5) / total);
      if (d > worst) { worst = d; where = sites[k]; }
    }
    const double leak = std::fabs((double)leaks / total - std::exp(-tau[steps]));
    if (getenv("VERBOSE")) run.sample(sd(i) + fmt(": %.4f %.4f", worst, leak));
    if (worst > 0.07 || leak > 0.07) run.violation(sd(i), fmt("the fraction of first collisions up to %.4f is off by %.4f, that of leaks by %.4f (cross section there %.6g)", where, worst, leak, Sigma(where)));
    if (i % 31 == 0) run.sample(sd(i) + fmt(": largest deviation %.4f", worst));
  }, sd, 120);

  // ---- virtual collisions leave the particle and its tallies alone
  struct Vc { size_t nuc; double E; int geo; };
  std::vector<Vc> vs;
  for (size_t n : {(size_t)0, (size_t)3, (size_t)12, ns.size() - 4, ns.size() - 3}) for (double E : {3e-10, 2e-8, 3.9e-7}) for (int geo = 0; geo < 3; geo++) vs.push_back({n, E, geo});
  auto vd = [&](size_t i) { return ns[vs[i].nuc].name + fmt(" E %g geometry %d", vs[i].E, vs[i].geo); };
  run.cases("virtual", vs.size(), [&](size_t i) {
    const xs::Nuclide& n = ns[vs[i].nuc];
    Problem p = vs[i].geo == 0 ? slab({-1.5, -0.2, 0.3, 1.5}, {"m0", "m1"}) : vs[i].geo == 1 ? shells({0.6, 1.5}, {"m0", "m1"}) : can(0.8, {0.3, 0.1, 0.2}, 1.3, -1.2, 1.1, "m0", "m1");
    p.nuclides_text = all;
    p.temperature_text = xml(Field{600, {150, 50, -100}, 50, 1200});
    p.tracking = "cell delta";
    const double ref = n.tot(vs[i].E, 900) + 1;
    p.materials = {{"m0", 1.5 / ref, {{n.name, 1}}}, {"m1", 0.7 / ref, {{n.name, 1}, {"cap", 0.5}}}};
    p.energy_text = mini::num(vs[i].E);
    tally_all(p, false);
    mini::Doc doc(ref::xml(p));
    Probe pr{doc.root};
    choice::Tree t;
    t.K = 3;
    t.limit = run.thorough ? 8 : 6;
    do {
      t.start();
      size_t k = 0;
      V pos{-0.9, 0.1, 0.2}, d0 = ref::unit({1, 0.2, 0.1});
      Particle q{point(pos), direction(d0), Energy{ContinuousEnergy{vs[i].E}}, Particle::Type::neutron, 1};
      V dir = vec(q.GetDirection());
      double E = vs[i].E;
      bool first = true;
      std::string err;
      Particle::Event ev = q.event;
      std::map<std::string, long> crossings;
      verif::on_draw() = [&](std::minstd_rand&) {
        // between draws: the direction and energy change only where the event is a scatter
        const V d = vec(q.GetDirection());
        if (q.event == Particle::Event::virtual_collision) {
          if (!same(d, dir) || energy_of(q) != E) err = "a virtual collision changed the particle";
          run.count("virtual_collisions");
        }
        (void)ev;
        dir = d;
        E = energy_of(q);
        first = false;
      };
      verif::serve() = [&](std::minstd_rand&) { k++; return k <= t.limit ? t.draw() : ((mix(k * 7919 + i) >> 11) + 0.5) * 0x1p-53; };
      auto set = pr.init_estimator_set;
      {
        auto proxy = set.GetProxy();
        q.Transport(proxy, pr.world);
        proxy.CommitHistory();
      }
      verif::on_draw() = nullptr;
      verif::serve() = nullptr;
      if (!err.empty()) { run.violation(vd(i), "draws " + t.str() + ": " + err); return; }
      run.count("transitions", k);
      run.count("traces_validated_against_impl");
      run.count("states");
    } while (t.next());
  }, vd, 120);

  // ---- tallies of a purely absorbing medium with virtual collisions: one crossing per surface on the way
  run.cases("absorb", 24, [&](size_t i) {
    Problem p = slab({0, 0.4, 0.9, 1.5}, {"m0", "m1"});
    xs::Nuclide a;
    // a capture whose supplied total applies only where the temperature is right and is larger elsewhere: the majorant exceeds it
    a.name = "a"; a.awr = 10; a.capture = cont::flat(1); a.total = cont::flat(i % 2 ? 3 : 0.4, 293.6);
    p.nuclides_text = xs::xml(dir, fmt("ab%zu", i), {a});
    p.temperature_text = xml(Field{300, {i % 3 ? 80.0 : -80.0, 0, 0}, 150, 450});
    p.tracking = "cell delta";
    p.materials = {{"m0", 0.8, {{"a", 1}}}, {"m1", 0.5, {{"a", 1}}}};
    p.energy_text = "1e-6";
    tally_all(p, false);
    p.pos = {i < 12 ? 0.1 : 1.3, 0.07, 0.11};
    p.dir = {i < 12 ? 1.0 : -1.0, 0.1 * (i % 4), 0};
    // all draw sequences: the counts along the way are 1 up to some surface and 0 beyond
    mini::Doc doc(ref::xml(p));
    FixedSource fs{doc.root};
    choice::Tree t;
    t.K = 4;
    t.limit = run.thorough ? 11 : 8;
    do {
      t.start();
      size_t k = 0;
      verif::serve() = [&](std::minstd_rand&) { k++; return k <= t.limit ? t.draw() : ((mix(k * 7919 + i) >> 11) + 0.5) * 0x1p-53; };
      const EstimatorSet s = fs.Solve();
      verif::serve() = nullptr;
      auto c = explore::counts_of(s, p);
      if (i >= 12) std::reverse(c.begin(), c.end());
      // c[0] is behind the start
      bool bad = c[0] != 0;
      for (size_t q = 1; q < c.size(); q++) bad = bad || c[q] < 0 || c[q] > 1 || (q > 1 && c[q] > c[q - 1]);
      if (bad) { run.violation(fmt("absorber %zu", i), "draws " + t.str() + fmt(": crossings %d %d %d %d", c[0], c[1], c[2], c[3])); return; }
      run.count("transitions", k);
      run.count("traces_validated_against_impl");
    } while (t.next());
  }, [&](size_t i) { return fmt("absorber %zu", i); }, 120);

  // ---- refusal
  struct R { V g; std::string tracking; int own; };
  std::vector<R> rs;
  for (double x : {0.0, 1.0, -2.0, 1e-300}) for (double y : {0.0, 3.0, -1e-9}) for (double z : {0.0, -4.0, 1e9}) for (std::string tr : {"", "surface", "cell delta"}) rs.push_back({{x, y, z}, tr, 0});
  run.cases("refusal", rs.size() + 6, [&](size_t i) {
    Problem p = slab({0, 1.3, 2.9}, {"m0", "m1"});
    use(p, absorber(2));
    bool varies = false;
    std::string what;
    if (i < rs.size()) {
      const V g = rs[i].g;
      varies = g.x != 0 || g.y != 0 || g.z != 0;
      p.tracking = rs[i].tracking;
      p.temperature_text = "<temperature><linear><bounds lower=\"0\" upper=\"1000\"/><intercept b=\"300\"/><gradient x=\"" + mini::num(g.x) + "\" y=\"" + mini::num(g.y) + "\" z=\"" + mini::num(g.z) + "\"/></linear></temperature>";
      what = fmt("gradient (%g, %g, %g) tracking '%s'", g.x, g.y, g.z, p.tracking.c_str());
    } else {
      p.tracking = std::vector<std::string>{"", "surface", "cell delta"}[i % 3];
      if (i % 2) p.temperature_text = "<temperature><constant c=\"500\"/></temperature>";
      what = "constant temperature, tracking '" + p.tracking + "'";
    }
    const bool want = varies && p.tracking != "cell delta";
    mini::Doc doc(ref::xml(p));
    bool refused = false;
    std::string msg;
    try { FixedSource fs{doc.root}; } catch (const std::exception& e) { refused = true; msg = e.what(); }
    if (refused != want) run.violation(what, refused ? "refused: " + msg : "accepted");
    run.count("refusals", refused);
    run.count("transitions");
    run.count("traces_validated_against_impl");
  }, [&](size_t i) { return fmt("refusal %zu", i); });
  return run.finish();
}
