// Continuous-energy cross sections.
//  tables:  every table over a pool of energies and values (all sizes up to the pool's), read from files, at every grid
//           point, its neighbouring numbers, between and outside, in three orders of lookup.
//  totals:  every set and order of reactions, with and without a supplied total and a thermal law, over a lattice of
//           temperatures and energies, against what the data mean.
//  choice:  the share of draws that leads to each reaction.
#include "choice.hpp"
#include "probe.hpp"
#include "problems.hpp"
#include "vh.hpp"
#include "xs.hpp"
#include <algorithm>
#include <iostream>
using namespace vh;
using namespace prob;

namespace {
std::string doc_of(const std::string& nuclides, const std::vector<std::string>& names, const std::string& temperature, const std::string& particles = "neutron") {
  Problem p;
  p.surfaces = {{"ball", 's', {}, 10}};
  p.cells = {{"in", "m0", {{"ball", -1}}, temperature}, {"", "", {{"ball", 1}}, ""}};
  std::vector<std::pair<std::string, double>> parts;
  for (auto& n : names) parts.push_back({n, 1});
  p.materials = {{"m0", 1, parts}};
  p.nuclides_text = nuclides;
  p.particles = particles;
  p.energy_text = "1";
  return ref::xml(p);
}
Particle make(const Probe& pr, double e, bool photon = false) {
  Particle p{Point{0.1, 0.2, 0.3}, Direction{0.48, -0.6, 0.64}, Energy{ContinuousEnergy{e}}, photon ? Particle::Type::photon : Particle::Type::neutron, 1};
  p.SetCell(pr.world.FindCellContaining(p.GetPosition()));
  return p;
}
bool close(double a, double b, double rel = 1e-11) { return std::fabs(a - b) <= rel * (std::fabs(a) + std::fabs(b)) + 1e-300; }
double up(double x) { return std::nextafter(x, INFINITY); }
double down(double x) { return std::nextafter(x, -INFINITY); }
std::vector<double> places(const cont::Vec& e) {
  std::vector<double> r{e.front() * 1e-3, e.front() * 0.5, e.back() * 1.5, e.back() * 1e4};
  for (size_t i = 0; i < e.size(); i++) {
    for (double x : {down(e[i]), e[i], up(e[i])}) r.push_back(x);
    if (i) for (double f : {0.001, 0.25, 0.5, 0.9}) r.push_back(e[i - 1] + f * (e[i] - e[i - 1]));
    if (i) r.push_back(std::sqrt(e[i - 1] * e[i]));
  }
  std::sort(r.begin(), r.end());
  return r;
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "tables", "lookups", "configurations", "choices", "traces_validated_against_impl"});
  std::cout.rdbuf(nullptr);
  const std::string dir = run.scratch;

  // ---- tables
  std::vector<cont::Eval> tables;
  {
    const std::vector<double> pool{1e-9, 1e-3, 0.5, 2, 7}, values = run.thorough ? std::vector<double>{0, 1, 3, 1e-6} : std::vector<double>{0, 1, 3};
    for (int mask = 1; mask < 32; mask++) {
      cont::Vec e;
      for (int i = 0; i < 5; i++) if (mask >> i & 1) e.push_back(pool[i]);
      size_t n = 1;
      for (size_t i = 0; i < e.size(); i++) n *= values.size();
      for (size_t k = 0; k < n; k++) {
        cont::Vec v;
        size_t q = k;
        for (size_t i = 0; i < e.size(); i++) { v.push_back(values[q % values.size()]); q /= values.size(); }
        tables.push_back({e, v, 293.6});
      }
    }
    for (size_t n : {10, 100, 1000, 4097, 70001}) {
      cont::Vec e, v;
      for (size_t i = 0; i < n; i++) { e.push_back(1e-11 * std::pow(2e12, (double)i / (n - 1))); v.push_back(1 + 0.1 * ((i * 7919) % 13) + 1000.0 * (i % 50 == 49)); }
      tables.push_back({e, v, 293.6});
    }
    tables.push_back({{1, up(1), up(up(1))}, {1, 2, 5}, 293.6});
    tables.push_back({{1e-300, 1e300}, {1, 1e10}, 293.6});
  }
  const size_t per = 32;
  run.cases("tables", (tables.size() + per - 1) / per, [&](size_t c) {
    std::vector<cont::Nuclide> ns;
    std::vector<std::string> names;
    for (size_t i = c * per; i < std::min(tables.size(), (c + 1) * per); i++) {
      cont::Nuclide n;
      n.name = fmt("n%zu", i);
      (i % 3 == 0 ? n.capture : i % 3 == 1 ? n.total : n.fission) = tables[i];
      if (i % 3 == 1) n.capture = cont::flat(17);
      if (i % 3 == 2) n.nubar = cont::flat(1);
      ns.push_back(n);
      names.push_back(n.name);
    }
    mini::Doc doc(doc_of(cont::xml(dir, fmt("t%zu", c), ns), names, "293.6"));
    Probe pr{doc.root};
    for (size_t i = c * per; i < std::min(tables.size(), (c + 1) * per); i++) {
      const auto nuc = pr.world.FindNuclideByName(fmt("n%zu", i));
      const auto& t = tables[i];
      auto ps = places(t.e);
      std::map<double, double> first;
      std::string s;
      for (size_t k = 0; k < t.e.size() && k < 8; k++) s += fmt(" %g:%g", t.e[k], t.v[k]);
      for (int order = 0; order < 3; order++) {
        if (order == 1) std::reverse(ps.begin(), ps.end());
        if (order == 2) std::sort(ps.begin(), ps.end(), [](double a, double b) { return hash(a, 5) < hash(b, 5); });
        for (double e : ps) {
          const double got = nuc->GetTotal(make(pr, e)), want = t.at(e);
          run.count("lookups");
          run.count("transitions");
          run.count("traces_validated_against_impl");
          // rounding in proportion to the entries around
          const size_t hi = std::upper_bound(t.e.begin(), t.e.end(), e) - t.e.begin();
          double scale = 0;
          for (size_t k = hi < 2 ? 0 : hi - 2; k < std::min(hi + 2, t.v.size()); k++) scale = std::max(scale, std::fabs(t.v[k]));
          if (!(std::fabs(got - want) <= 1e-11 * scale)) { run.violation(fmt("table%s", s.c_str()), fmt("at %.17g: %.17g, expected %.17g", e, got, want)); return; }
          if (order == 0) first[e] = got;
          else if (first[e] != got) { run.violation(fmt("table%s", s.c_str()), fmt("at %.17g: %.17g, before it was %.17g", e, got, first[e])); return; }
        }
      }
      run.count("tables");
      run.distinct("states", hash(s));
      if (i % 331 == 0) run.sample("table" + s);
    }
  }, [&](size_t c) { return fmt("tables %zu to %zu", c * per, (c + 1) * per - 1); });

  // ---- totals and choice
  tsl::Data law = tsl::plausible(1, {280, 400, 900}, {1e-10, 1e-9, 1e-8, 1e-7, 4e-7}, 4, {2, 3}, {3, 2});
  struct Cfg { int mask, order, total; bool law, photon; double awr, evalT; };
  std::vector<Cfg> cfgs;
  for (int mask = 1; mask < 8; mask++)
    for (int order = 0; order < 6; order++) {
      const int parts = (mask & 1) + (mask >> 1 & 1) + (mask >> 2 & 1);
      for (int total = 0; total < 4; total++) {
        if (order >= (parts == 1 ? 1 : parts == 2 ? 2 : 6) * 1 && parts < 3) continue;
        for (int l = 0; l < ((mask & 2) ? 2 : 1); l++)
          for (int ph = 0; ph < (l ? 1 : 2); ph++)
            for (double awr : {1.0, 11.9})
              for (double Te : {293.6, 600.0}) {
                if (!run.thorough && (order + total + (awr > 1)) % 2) continue;
                cfgs.push_back({mask, order, total, l == 1, ph == 1, awr, Te});
              }
      }
    }
  auto cd = [&](size_t i) {
    const Cfg& c = cfgs[i];
    return fmt("reactions %d order %d total %d%s%s A %g evaluated at %g", c.mask, c.order, c.total, c.law ? " thermal law" : "", c.photon ? " photons" : "", c.awr, c.evalT);
  };
  const std::vector<double> temps{293.6, 293.6 * 1.00999, 293.6 * 1.01001, 293.6 * 0.99001, 293.6 * 0.98999, 600, 600 * 1.00999, 600 * 0.98999, 0, 5, 447, 3000};
  auto nuclide_of = [&](const Cfg& c) {
    xs::Nuclide n;
    n.name = "x";
    n.awr = c.awr;
    n.type = c.photon ? "photon" : "neutron";
    if (c.mask & 1) n.capture = {{1e-10, 1e-8, 2e-6, 1, 15}, {4, 1, 0, 2, 1}, 293.6};
    if (c.mask & 2) n.scatter = {{1e-11, 3e-8, 1e-6, 1e-2, 20}, {10, 8, 6, 0, 2}, c.evalT};
    if (c.mask & 4) { n.fission = {{2e-9, 1e-7, 3}, {3, 0, 5}, 900}; n.nubar = cont::flat(1.5); }
    if (c.total) n.total = c.total == 1 ? cont::Eval{{1e-10, 1e-7, 1}, {11, 7, 40}, 293.6} : c.total == 2 ? cont::Eval{{1e-10, 1e-7, 1}, {1, 0.5, 0.1}, 293.6} : cont::Eval{{1e-9, 1}, {9, 5}, 600};
    if (c.law) n.law = &law;
    return n;
  };
  // the reactions in every order
  auto text_of = [&](const xs::Nuclide& n, int order, const std::string& prefix) {
    const std::string t = xs::xml(dir, prefix, {n});
    mini::Doc d(mini::wrap(t));
    auto node = d.root.child("nuclides").child("continuous").child("nuclide").child(n.type.c_str());
    std::vector<pugi::xml_node> kids;
    for (auto k : node.children()) if (std::string(k.name()) != "total") kids.push_back(k);
    std::vector<int> perm(kids.size());
    for (size_t i = 0; i < perm.size(); i++) perm[i] = (int)i;
    for (int i = 0; i < order; i++) std::next_permutation(perm.begin(), perm.end());
    for (int i : perm) node.append_move(kids[i]);
    if (order % 2 && node.child("total")) node.append_move(node.child("total"));
    std::stringstream s;
    d.root.child("nuclides").print(s, "", pugi::format_raw);
    return s.str();
  };
  run.cases("totals", cfgs.size(), [&](size_t i) {
    const Cfg& c = cfgs[i];
    const xs::Nuclide n = nuclide_of(c);
    const std::string text = text_of(n, c.order, fmt("c%zu", i));
    double scale = 0;  // where a table passes through zero, what is left is rounding
    for (auto* t : {&n.total, &n.capture, &n.scatter, &n.fission}) for (double v : t->v) scale = std::max(scale, std::fabs(v));
    std::vector<double> es = places({1e-11, 1e-10, 2e-9, 1e-8, 3e-8, 1e-7, 4e-7, 1e-6, 2e-6, 1e-2, 1, 3, 15, 20});
    for (double T : temps) {
      mini::Doc doc(doc_of(text, {"x"}, mini::num(T), n.type));
      Probe pr{doc.root};
      const auto nuc = pr.world.FindNuclideByName("x");
      std::vector<double> ee = es;
      if (T > 0) for (double f : {1 - 1e-6, 1 + 1e-6}) ee.push_back(500 * xs::kB * T / c.awr * f);
      for (double e : ee) {
        const double got = nuc->GetTotal(make(pr, e, c.photon)), want = n.tot(e, T);
        run.count("transitions");
        run.count("traces_validated_against_impl");
        if (!close(got, want, 1e-9) && !(std::fabs(got - want) < 1e-13 * scale)) { run.violation(cd(i), fmt("energy %.17g, temperature %.9g: total %.15g, expected %.15g (sum of the reactions %.15g)", e, T, got, want, n.sum(e, T))); return; }
      }
      run.count("states", ee.size());
    }
    run.count("configurations");
    if (i % 97 == 0) run.sample(cd(i));
  }, cd);
  run.cases("choice", cfgs.size(), [&](size_t i) {
    const Cfg& c = cfgs[i];
    const xs::Nuclide n = nuclide_of(c);
    const std::string text = text_of(n, c.order, fmt("d%zu", i));
    const int N = run.thorough ? 1024 : 256;
    for (double T : {293.6, 600.0, 447.0}) {
      mini::Doc doc(doc_of(text, {"x"}, mini::num(T), n.type));
      Probe pr{doc.root};
      const auto nuc = pr.world.FindNuclideByName("x");
      for (double e : {1e-10, 1e-9, 2e-8, 9e-8, 1e-7, 3e-7, 2e-6, 3e-3, 1e-2, 1.5, 8.0}) {
        double part[3] = {n.capture.e.empty() ? 0 : n.capture.at(e), n.scat(e, T), n.fission.e.empty() ? 0 : n.fission.at(e)};
        const double sum = part[0] + part[1] + part[2];
        if (!(sum > 1e-9)) continue;
        bool ok = false;
        double share[3], first[3];
        // the draw that decides is the first, or a later one
        for (size_t fine = 0; fine < 4 && !ok; fine++) {
          choice::Tree t;
          t.limit = 5;
          t.strata = [&](size_t k) { return k == fine ? N : k < fine ? 3 : 1; };
          share[0] = share[1] = share[2] = 0;
          bool odd = false;
          verif::tree() = &t;
          do {
            t.start();
            Particle p = make(pr, e, c.photon);
            nuc->Interact(p);
            const int r = p.event == Particle::Event::capture ? 0 : p.event == Particle::Event::scatter ? 1 : p.event == Particle::Event::fission ? 2 : -1;
            if (r < 0 || part[r] == 0) { odd = true; break; }
            share[r] += t.weight();
            run.count("choices");
            run.count("transitions");
          } while (t.next());
          verif::tree() = nullptr;
          if (odd) { run.violation(cd(i), fmt("energy %g, temperature %g, draws %s: a reaction that has no cross section", e, T, t.str().c_str())); return; }
          ok = true;
          for (int r = 0; r < 3; r++) ok = ok && std::fabs(share[r] - part[r] / sum) <= 2.0 / N;
          if (fine == 0) std::copy(share, share + 3, first);
        }
        run.count("traces_validated_against_impl");
        if (!ok) {
          run.violation(cd(i), fmt("energy %g, temperature %g: shares of capture, scatter, fission %.4f %.4f %.4f, expected %.4f %.4f %.4f", e, T, first[0], first[1], first[2], part[0] / sum, part[1] / sum, part[2] / sum));
          return;
        }
        run.count("states");
      }
    }
  }, cd);
  return run.finish();
}
