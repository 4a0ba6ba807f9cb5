// Temperatures.
//  fields:  every combination of global field and temperatures of cells: the temperature at a lattice of positions of each cell.
//  xs:      cross sections over a lattice of mass ratios, temperatures of evaluation and place, and energies.
//  visits:  every sequence of places and energies up to a length: what is seen at a place does not depend on those before.
#include "probe.hpp"
#include "problems.hpp"
#include "vh.hpp"
#include "xs.hpp"
#include <algorithm>
#include <iostream>
using namespace vh;
using namespace prob;

namespace {
struct Field { std::string text; double b = 293.6; V g; double at(V p) const { return b + ref::dot(g, p); } };
Field constant(const std::string& c) { return {"<temperature><constant c=\"" + c + "\"/></temperature>", std::atof(c.c_str()), {}}; }
Field linear(double b, V g, double lo, double hi) {
  return {"<temperature><linear><bounds lower=\"" + mini::num(lo) + "\" upper=\"" + mini::num(hi) + "\"/><intercept b=\"" + mini::num(b) + "\"/><gradient " + ref::pt(g) + "/></linear></temperature>", b, g};
}
bool close(double a, double b, double rel = 1e-12) { return std::fabs(a - b) <= rel * (std::fabs(a) + std::fabs(b)) + 1e-300; }
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "problems", "temperatures", "cross_sections", "sequences", "traces_validated_against_impl"});
  std::cout.rdbuf(nullptr);
  const std::string dir = run.scratch;

  std::vector<Field> fields{{"", 293.6, {}}, constant("0"), constant("1e-3"), constant("293.6"), constant("600"), constant("1e5"),
                            linear(500, {0, 0, 0}, 500, 500), linear(500.1, {10, 0, 0}, 100, 900), linear(700.3, {0, -12, 0}, 100, 1500), linear(400, {0, 0, 7}, 100, 1500), linear(600, {3, -5, 9}, 100, 1500), linear(300, {1, 1, 1}, 350, 351)};
  const std::vector<std::string> own{"", "0", "0.0", "1e-6", "293.6", "450", "1e5"};
  const std::vector<V> lattice = [] { std::vector<V> r; for (double x : {-8.9, -4.1, -0.7, 0.4, 2.2, 5.3, 8.8}) for (double y : {-6.1, -0.2, 3.3}) for (double z : {-7.2, 0.6, 4.4}) r.push_back({x, y, z}); return r; }();
  // where each place is, and the cells, in three geometries
  auto geometry = [](int k) {
    if (k == 0) return slab({-6, 0, 6}, {"m0", "m1"});
    if (k == 1) return shells({5, 9}, {"m0", "m0"}, {0.5, 0.2, -0.3});
    return can(3, {0.3, 0.1, 0.2}, 7, -5, 6, "m0", "m1");
  };
  const size_t nf = fields.size() * own.size() * own.size() * 3;
  auto fd = [&](size_t i) { return fmt("geometry %zu, field %s, temperatures of cells '%s' '%s'", i % 3, fields[i / 3 % fields.size()].text.c_str(), own[i / 3 / fields.size() % own.size()].c_str(), own[i / 3 / fields.size() / own.size()].c_str()); };
  const size_t chunk = 40;
  cont::Nuclide plain;
  plain.name = "x"; plain.awr = 4; plain.scatter = cont::flat(3); plain.capture = cont::flat(1);
  const std::string text = cont::xml(dir, "plain", {plain});
  run.cases("fields", (nf + chunk - 1) / chunk, [&](size_t c) {
    for (size_t i = c * chunk; i < std::min(nf, (c + 1) * chunk); i++) {
      const Field& f = fields[i / 3 % fields.size()];
      Problem p = geometry(i % 3);
      p.nuclides_text = text;
      p.materials = {{"m0", 1, {{"x", 1}}}, {"m1", 2, {{"x", 1}}}};
      p.temperature_text = f.text;
      p.tracking = "cell delta";
      p.energy_text = "1";
      p.cells[0].temperature = own[i / 3 / fields.size() % own.size()];
      p.cells[1].temperature = own[i / 3 / fields.size() / own.size()];
      mini::Doc doc(ref::xml(p));
      Probe pr{doc.root};
      if (pr.world.HasConstantTemperature() != (f.g.x == 0 && f.g.y == 0 && f.g.z == 0)) run.violation(fd(i), "whether the field is constant is misjudged");
      for (auto& x : lattice) {
        int where = -1;
        for (size_t m = 0; m < p.cells.size() && where < 0; m++) { bool in = true; for (auto& [n, s] : p.cells[m].s) in = in && ((p.surf(n).f(x) < 0) == (s < 0)); if (in) where = (int)m; }
        if (where < 0 || p.cells[where].material.empty()) continue;
        const std::string& o = p.cells[where].temperature;
        const double want = o.empty() ? f.at(x) : std::atof(o.c_str());
        const auto& cell = pr.world.FindCellContaining(point(x));
        const double got = cell.temperature->at(point(x));
        run.count("temperatures");
        run.count("transitions");
        if (!close(got, want)) { run.violation(fd(i), fmt("at (%g, %g, %g) in cell %s: %.15g, expected %.15g", x.x, x.y, x.z, p.cells[where].name.c_str(), got, want)); break; }
        if (o.empty() ? f.g.x == 0 && f.g.y == 0 && f.g.z == 0 : true)
          if (!close(cell.temperature->upper_bound, want) || !close(cell.temperature->lower_bound, want)) { run.violation(fd(i), fmt("bounds %g %g of the constant temperature %g", cell.temperature->lower_bound, cell.temperature->upper_bound, want)); break; }
      }
      run.count("problems");
      run.count("traces_validated_against_impl");
      run.count("states", lattice.size());
      if (i % 401 == 0) run.sample(fd(i));
    }
  }, [&](size_t c) { return fd(c * chunk) + " and following"; });

  // ---- cross sections
  struct X { double awr, Te; bool photon; int data; };
  std::vector<X> xs_;
  for (double awr : {0.4, 0.9991673, 1.0, std::nextafter(1.0, 2.0), 1.0001, 3.968, 15.86, 236.0})
    for (double Te : {1.0, 77.0, 293.6, 600.0, 1200.0})
      for (int ph = 0; ph < 2; ph++)
        for (int data = 0; data < 3; data++) if (!ph || data == 0) xs_.push_back({awr, Te, ph == 1, data});
  auto xd = [&](size_t i) { return fmt("A %.17g evaluated at %g%s data %d", xs_[i].awr, xs_[i].Te, xs_[i].photon ? " photons" : "", xs_[i].data); };
  run.cases("xs", xs_.size(), [&](size_t i) {
    const X& x = xs_[i];
    xs::Nuclide n;
    n.name = "x"; n.awr = x.awr; n.type = x.photon ? "photon" : "neutron";
    n.scatter = {{1e-11, 3e-8, 1e-6, 1e-2, 20}, {10, 8, 6, 4, 2}, x.Te};
    if (x.data >= 1) n.capture = {{1e-10, 1}, {4, 1}, 293.6};
    if (x.data >= 2) n.total = {{1e-10, 1}, {15, 3}, 293.6};
    const std::string t = xs::xml(dir, fmt("x%zu", i), {n});
    std::vector<double> temps{0, 1e-6, 0.5, 4, 77, 290, 293.6, 300, 400, 600, 900, 1200, 3000, 1e6, 1e8};
    for (double r : {0.98, 0.9899, 0.9901, 0.99 + 1e-7, 0.99 - 1e-7, 0.995, 0.9999, 1.0001, 1.005, 1.01 - 1e-7, 1.01 + 1e-7, 1.0099, 1.0101, 1.02}) { temps.push_back(x.Te * r); if (x.data == 2) temps.push_back(293.6 * r); }
    for (double T : temps)
      for (int place = 0; place < 3; place++) {
        // the same temperature given by the cell, by a constant field, by a field that has it at the place
        if (place && !run.thorough && x.data == 1) continue;
        const V at{0.5, -1.25, 2};
        Problem p = shells({9}, {"m0"});
        p.nuclides_text = t;
        p.particles = n.type;
        p.materials = {{"m0", 1, {{"x", 1}}}};
        p.energy_text = "1";
        p.tracking = "cell delta";
        if (place == 0) { p.cells[0].temperature = mini::num(T); p.temperature_text = constant("10000").text; }
        if (place == 1) p.temperature_text = constant(mini::num(T)).text;
        if (place == 2) {
          const double k = T > 0 ? T / 32 : 1;
          p.temperature_text = linear(T - k * 0.5 - k * 1.25 * 2 + k * 2, {k, -2 * k, -k}, 0, 1e9).text;
        }
        mini::Doc doc(ref::xml(p));
        Probe pr{doc.root};
        const auto nuc = pr.world.FindNuclideByName("x");
        std::vector<double> es;
        for (double e = -13; e <= 1.3; e += run.thorough ? 0.1 : 0.5) es.push_back(std::pow(10, e));
        if (T > 0) for (double f : {0.5, 0.99, 1 - 1e-6, 1 + 1e-6, 1.01, 2.0}) es.push_back(500 * xs::kB * T / x.awr * f);
        for (double e : es) {
          Particle q{point(at), Direction{1, 0, 0}, Energy{ContinuousEnergy{e}}, x.photon ? Particle::Type::photon : Particle::Type::neutron, 1};
          q.SetCell(pr.world.FindCellContaining(q.GetPosition()));
          const double got = nuc->GetTotal(q), want = n.tot(e, T), mat = q.GetCell().material->GetMicroscopicTotal(q);
          run.count("cross_sections");
          run.count("transitions");
          run.count("traces_validated_against_impl");
          if (!close(got, want, 1e-7) || !close(mat, want, 1e-7)) { run.violation(xd(i), fmt("temperature %.12g given %s, energy %.12g: total %.12g (material %.12g), expected %.12g; as evaluated %.12g", T, place == 0 ? "by the cell" : place == 1 ? "by a constant field" : "by a linear field", e, got, mat, want, n.scatter.at(e))); return; }
        }
        run.count("states", es.size());
        run.count("problems");
      }
    if (i % 41 == 0) run.sample(xd(i));
  }, xd);

  // ---- visits
  run.cases("visits", 8, [&](size_t v) {
    tsl::Data law = tsl::plausible(1, {280, 400, 900}, {1e-10, 1e-9, 1e-8, 1e-7, 4e-7}, 4, {2, 3}, {3, 2});
    xs::Nuclide h, u, c, o;
    h.name = "h"; h.awr = 1; h.scatter = {{1e-11, 3e-8, 1e-6, 1e-2, 20}, {10, 8, 6, 4, 2}, 293.6}; h.capture = {{1e-10, 1}, {4, 1}, 293.6};
    if (v & 1) h.law = &law;
    if (v & 2) h.total = {{1e-10, 1}, {15, 3}, 293.6};
    u.name = "u"; u.awr = 12; u.scatter = {{1e-11, 1e-7, 20}, {5, 4, 3}, 600};
    // evaluated at one temperature, alike but for their masses
    c.name = "c"; c.awr = 2; c.scatter = {{1e-11, 20}, {3, 3}, 0};
    o.name = "o"; o.awr = 7; o.scatter = c.scatter;
    const std::vector<const xs::Nuclide*> all{&h, &u, &c, &o};
    const double fraction[2][4] = {{2, 1, 0.5, 0.25}, {0.5, 3, 1, 2}};
    Problem p = slab({-6, 0, 6}, {"m0", "m1"});
    p.nuclides_text = xs::xml(dir, fmt("v%zu", v), {h, u, c, o});
    p.materials = {{"m0", 1, {{"h", 2}, {"u", 1}, {"c", 0.5}, {"o", 0.25}}}, {"m1", 0.5, {{"u", 3}, {"h", 0.5}, {"o", 2}, {"c", 1}}}};
    p.energy_text = "1";
    p.tracking = "cell delta";
    const Field f = linear(600, {40, 10, -20}, 100, 1500);
    p.temperature_text = f.text;
    if (v & 4) p.cells[1].temperature = "293.6";
    mini::Doc doc(ref::xml(p));
    Probe pr{doc.root};
    struct State { V x; double e; int cell; };
    std::vector<State> ss;
    for (V x : {V{-5, 1, 0}, V{-1, 0.5, 2}, V{1, 1, 1}, V{4, -2, -1}}) for (double e : {2e-9, 3e-8, 2e-7, 1e-5}) ss.push_back({x, e, x.x > 0});
    auto T = [&](const State& s) { return s.cell == 1 && (v & 4) ? 293.6 : f.at(s.x); };
    std::vector<std::shared_ptr<const ::Nuclide>> ns;
    for (auto n : all) ns.push_back(pr.world.FindNuclideByName(n->name));
    auto look = [&](Particle& q, const State& s) -> std::string {
      std::array<double, 4> w;
      double sum = 0, fractions = 0;
      for (size_t i = 0; i < 4; i++) { w[i] = all[i]->tot(s.e, T(s)); sum += fraction[s.cell][i] * w[i]; fractions += fraction[s.cell][i]; }
      const double norm = q.GetCell().material->GetMicroscopicTotal(q) / sum;
      // fractions may be normalised or not
      if (!close(norm, 1, 1e-7) && !close(norm, 1 / fractions, 1e-7)) return fmt("material total %.12g", q.GetCell().material->GetMicroscopicTotal(q));
      for (size_t i = 0; i < 4; i++)
        for (size_t j = 0; j < 4; j++)
          for (size_t k : {i, j}) if (const double g = ns[k]->GetTotal(q); !close(g, w[k], 1e-7)) return fmt("%s after %s: %.12g, expected %.12g", all[k]->name.c_str(), all[i]->name.c_str(), g, w[k]);
      for (size_t i = 0; i < 4; i++) if (!(ns[i]->GetMajorant(q) >= w[i] * (1 - 1e-9))) return "majorant below the total";
      return "";
    };
    auto say = [&](const State& s) { return fmt("(%g, %g, %g) at %g MeV", s.x.x, s.x.y, s.x.z, s.e); };
    for (size_t i = 0; i < ss.size(); i++)
      for (size_t j = 0; j < ss.size(); j++)
        for (size_t k = 0; k < ss.size(); k++) {
          const size_t seq[3] = {i, j, k};
          std::string err, trail;
          // separate particles
          for (size_t s : seq) {
            Particle q{point(ss[s].x), Direction{1, 0, 0}, Energy{ContinuousEnergy{ss[s].e}}, Particle::Type::neutron, 1};
            q.SetCell(pr.world.FindCellContaining(q.GetPosition()));
            trail += say(ss[s]) + "; ";
            if (err = look(q, ss[s]); !err.empty()) break;
            run.count("transitions");
          }
          // one particle which moves from place to place
          if (err.empty()) {
            trail = "moving: ";
            Particle* q = nullptr;
            std::vector<Particle> keep;
            keep.reserve(1);
            for (size_t s : seq) {
              if (!q) { keep.emplace_back(point(ss[s].x), Direction{1, 0, 0}, Energy{ContinuousEnergy{ss[s].e}}, Particle::Type::neutron, 1); q = &keep[0]; q->SetCell(pr.world.FindCellContaining(q->GetPosition())); }
              else {
                q->Stream(ss[s].x.x - vec(q->GetPosition()).x);
                q->SetEnergy(Energy{ContinuousEnergy{ss[s].e}});
                q->SetCell(pr.world.FindCellContaining(q->GetPosition()));
              }
              State now{vec(q->GetPosition()), ss[s].e, ss[s].cell};
              trail += say(now) + "; ";
              if (err = look(*q, now); !err.empty()) break;
              run.count("transitions");
            }
          }
          run.count("sequences");
          run.count("traces_validated_against_impl");
          if (!err.empty()) { run.violation(fmt("visits %zu", v), trail + err); return; }
        }
    run.count("states", ss.size() * ss.size() * ss.size());
  }, [](size_t v) { return fmt("visits %zu", v); });
  return run.finish();
}
