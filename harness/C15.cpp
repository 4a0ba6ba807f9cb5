// Cross sections are the sums the data define.
//  nuclide:   every table of a lattice (scatter matrices, presence of reactions, particle types, order of the elements).
//  material:  every selection, order and scaling of atom fractions of a lattice; macroscopic cross section.
//  shared:    every sequence of cells over materials that share nuclides: each has the cross sections it has alone.
//  many:      many groups, nuclides, materials and cells, with values over many orders of magnitude, by rule.
#include "choice.hpp"
#include "probe.hpp"
#include "cont.hpp"
#include "problems.hpp"
#include "vh.hpp"
#include <algorithm>
#include <filesystem>
using namespace vh;
using namespace prob;

namespace {
Particle at(const Probe& pr, V pos, Energy e, bool photon) {
  Particle p{point(pos), direction({1, 0, 0}), e, photon ? Particle::Type::photon : Particle::Type::neutron, 1};
  p.SetCell(pr.world.FindCellContaining(p.GetPosition()));
  return p;
}
std::string table(const std::vector<double>& v, int style) {
  std::string s = style == 1 ? "\n   " : "";
  for (size_t i = 0; i < v.size(); i++) s += mini::num(v[i]) + (style == 1 ? "\n\t" : style == 2 && i + 1 == v.size() ? "" : " ");
  return s;
}
std::string reactions(const Reacts& r, int order, int style) {
  std::vector<std::string> e;
  if (!r.capture.empty()) e.push_back("<capture>" + table(r.capture, style) + "</capture>");
  if (!r.scatter.empty()) e.push_back("<scatter>" + table(r.scatter, style) + "</scatter>");
  if (!r.fxs.empty()) e.push_back("<fission><nubar>" + table(r.nubar, style) + "</nubar><chi>" + table(r.chi, style) + "</chi><xs>" + table(r.fxs, style) + "</xs></fission>");
  std::sort(e.begin(), e.end());
  for (int i = 0; i < order; i++) std::next_permutation(e.begin(), e.end());
  std::string s;
  for (auto& x : e) s += x;
  return s;
}
Problem base() {
  Problem p;
  p.surfaces = {{"ball", 's', {}, 10}};
  p.cells = {{"in", "m0", {{"ball", -1}}, ""}, {"", "", {{"ball", 1}}, ""}};
  p.materials = {{"m0", 1, {{"x", 1}}}};
  p.particles = "neutron photon";
  return p;
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "tables", "materials", "traces_validated_against_impl"});
  std::cout.rdbuf(nullptr);

  // ---- nuclides
  const std::vector<double> val{0, 0.5, 3};
  struct T { int G, code, present, order, style; };
  std::vector<T> ts;
  for (int G = 1; G <= 3; G++) {
    int n = 1;
    for (int i = 0; i < G * G; i++) n *= 3;
    for (int c = 0; c < n; c++)
      for (int present = 1; present < 8; present++) {
        if (!(present & 2) && c >= (G == 1 ? 3 : 9)) continue;
        const int h = (int)(mix(c * 8 + present) % 6);
        if (G == 3 && present != 2 && !run.thorough && (c + present) % 9) continue;
        ts.push_back({G, c, present, h, (int)(mix(c + 77 * present) % 3)});
        if (G < 3) for (int o = 0; o < 6; o++) ts.push_back({G, c, present, o, o % 3});
      }
  }
  auto reacts = [&](const T& t, int shift) {
    Reacts r;
    int c = t.code;
    std::vector<double> m;
    for (int i = 0; i < t.G * t.G; i++) { m.push_back(val[(c % 3 + shift) % 3]); c /= 3; }
    if (t.present & 1) for (int g = 0; g < t.G; g++) r.capture.push_back(val[(t.code + g + shift) % 3] + 0.125);
    if (t.present & 2) r.scatter = m;
    if (t.present & 4) for (int g = 0; g < t.G; g++) { r.fxs.push_back(val[(t.code / 3 + 2 * g + shift) % 3]); r.nubar.push_back(2.5); }
    if (t.present & 4) for (int i = 0; i < t.G * t.G; i++) r.chi.push_back(1 + i % 2);
    return r;
  };
  const size_t per = 64;
  run.cases("nuclide", (ts.size() + per - 1) / per, [&](size_t blk) {
    for (size_t i = blk * per; i < std::min(ts.size(), (blk + 1) * per); i++) {
      const T& t = ts[i];
      const Reacts n = reacts(t, 0), ph = reacts(t, 1);
      Problem p = base();
      p.G = t.G;
      const bool first = i % 2;  // order of the particle types in the nuclide
      const std::string a = "<neutron>" + reactions(n, t.order, t.style) + "</neutron>", b = "<photon>" + reactions(ph, t.order, t.style) + "</photon>";
      p.nuclides_text = fmt("<nuclides><multigroup groups=\"%d\"><nuclide name=\"other\"><neutron><capture>", t.G) + table(std::vector<double>(t.G, 99), 0) + "</capture></neutron></nuclide><nuclide name=\"x\">" + (first ? a + b : b + a) + "</nuclide></multigroup></nuclides>";
      mini::Doc doc(ref::xml(p));
      Probe pr{doc.root};
      const auto nuc = pr.world.FindNuclideByName("x");
      run.count("tables");
      for (int g = 1; g <= t.G; g++)
        for (int k = 0; k < 2; k++) {
          const Reacts& r = k ? ph : n;
          const double want = r.total(t.G, g - 1);
          Particle q = at(pr, {}, Energy{Group(g)}, k);
          const double got = nuc->GetTotal(q), maj = nuc->GetMajorant(q), mic = q.GetCell().material->GetMicroscopicTotal(q);
          if (!close_to(got, want, 1e-13) || !close_to(maj, want, 1e-13) || !close_to(mic, want, 1e-13))
            run.violation(fmt("table %zu", i), fmt("%s group %d: total %.17g, majorant %.17g, in a material %.17g, expected %.17g; ", k ? "photon" : "neutron", g, got, maj, mic, want) + p.nuclides_text);
          run.count("transitions");
          run.count("traces_validated_against_impl");
        }
      run.count("states", 2 * t.G);
      if (i % 4999 == 0) run.sample(p.nuclides_text);
    }
  }, [&](size_t b) { return fmt("tables from %zu", b * per); });

  // ---- materials
  const std::vector<std::string> plain{"H1", "U235", "a", "aa", "Z"};
  const std::vector<double> fr{0.1, 1, 3, 1e-6, 250};
  struct M { std::vector<int> who, f; double scale, aden; bool cont; };
  std::vector<M> ms;
  for (int cont = 0; cont < 2; cont++)
    for (int k = 1; k <= (run.thorough ? 5 : 4); k++) {
      std::vector<int> f(k, 0);
      while (true) {
        std::vector<int> who;
        for (int i = 0; i < k; i++) who.push_back((i + f[0]) % 5);
        std::vector<int> perm(k);
        for (int i = 0; i < k; i++) perm[i] = i;
        do {
          if (k >= 4 && mix(hash(std::to_string(f[0] + 10 * f[1] + 100 * f[2] + 1000 * f[3]) + std::to_string(perm[0] + 10 * perm[1] + 100 * perm[2]))) % (run.thorough ? 3 : 8)) continue;
          M m{{}, {}, 1, 1, cont == 1};
          for (int i : perm) { m.who.push_back(who[i]); m.f.push_back(f[i]); }
          const int h = (int)(mix(ms.size()) % 5);
          m.scale = std::vector<double>{1, 1e-3, 7, 1e5, 0.3}[h];
          m.aden = std::vector<double>{1, 0.05, 3.3e-4, 12, 1e-9}[(h + perm[0]) % 5];
          ms.push_back(m);
        } while (std::next_permutation(perm.begin(), perm.end()));
        int j = 0;
        while (j < k && f[j] == 4) f[j++] = 0;
        if (j == k) break;
        f[j]++;
      }
    }
  // five nuclides, two groups, both particles; or continuous and energy dependent
  std::vector<ref::Nuclide> ns;
  std::vector<cont::Nuclide> cs;
  for (int i = 0; i < 5; i++) {
    ref::Nuclide n;
    n.name = plain[i];
    Reacts a, b;
    a.capture = {0.3 + i, 2.0 * i + 0.01};
    a.scatter = {1, 0.25 * i, 0, 0.7};
    b.capture = {5.0 - i, 0.4};
    n.by["neutron"] = a;
    n.by["photon"] = b;
    ns.push_back(n);
    cont::Nuclide c;
    c.name = plain[i];
    c.awr = 1000;
    c.capture = {{1e-6, 1e-3, 1}, {4.0 + i, 1.0 * i, 0.5}};
    c.scatter = {{1e-6, 1e-4, 10}, {1.0, 7.0 - i, 0.25}};
    c.others = "<photon><capture" + cont::attrs(run.scratch, "ph" + plain[i], cont::Eval{{1e-6, 1}, {1.0 + i, 2.0}}) + "</photon>";
    cs.push_back(c);
  }
  // the same under names that are easily taken for each other
  auto name_of = [&](size_t scheme, int i) { return scheme ? ref::label((int)scheme, i * 2 + scheme % 2) : plain[i]; };
  std::vector<std::vector<ref::Nuclide>> nss;
  std::vector<std::string> ctexts;
  for (int s = 0; s < ref::kSchemes; s++) {
    auto n = ns;
    auto c = cs;
    for (int i = 0; i < 5; i++) { n[i].name = name_of(s, i); c[i].name = fmt("N%d.N", i); }
    nss.push_back(n);
    std::string t = cont::xml(run.scratch, fmt("m%d", s), c);
    for (int i = 0; i < 5; i++) { const std::string a = fmt("<nuclide name=\"N%d.N\"", i); t.replace(t.find(a), a.size(), "<nuclide name=\"" + name_of(s, i) + "\" "); }
    ctexts.push_back(t);
  }
  const size_t mper = 32;
  auto mstr = [&](const M& m) {
    std::string s = m.cont ? "continuous" : "multigroup";
    for (size_t i = 0; i < m.who.size(); i++) s += " " + plain[m.who[i]] + fmt(":%g", fr[m.f[i]] * m.scale);
    return s + fmt(" density %g", m.aden);
  };
  run.cases("material", (ms.size() + mper - 1) / mper, [&](size_t blk) {
    for (size_t i = blk * mper; i < std::min(ms.size(), (blk + 1) * mper); i++) {
      const M& m = ms[i];
      Problem p = base();
      p.G = 2;
      const size_t scheme = i % ref::kSchemes;
      if (m.cont) p.nuclides_text = ctexts[scheme];
      else p.nuclides = nss[scheme];
      p.materials = {{"m0", m.aden, {}}};
      double sum = 0;
      for (size_t k = 0; k < m.who.size(); k++) { p.materials[0].nuc.push_back({name_of(scheme, m.who[k]), fr[m.f[k]] * m.scale}); sum += fr[m.f[k]]; }
      mini::Doc doc(ref::xml(p));
      Probe pr{doc.root};
      run.count("materials");
      std::vector<double> es = m.cont ? std::vector<double>{1e-7, 1e-6, 3e-5, 1e-4, 0.02, 1, 15} : std::vector<double>{1, 2};
      for (double e : es)
        for (int k = 0; k < 2; k++) {
          double want = 0;
          for (size_t j = 0; j < m.who.size(); j++) {
            const int w = m.who[j];
            const double t = m.cont ? (k ? cont::Eval{{1e-6, 1}, {1.0 + w, 2.0}}.at(e) : cs[w].capture.at(e) + cs[w].scatter.at(e)) : (k ? ns[w].by["photon"] : ns[w].by["neutron"]).total(2, (int)e - 1);
            want += fr[m.f[j]] / sum * t;
          }
          Particle q = at(pr, {1, 2, 3}, m.cont ? Energy{ContinuousEnergy{e}} : Energy{Group(e)}, k);
          const ::Material& mat = *q.GetCell().material;
          const double got = mat.GetMicroscopicTotal(q), maj = mat.GetMicroscopicMajorant(q);
          if (!close_to(got, want, 1e-12)) run.violation(mstr(m), fmt("%s at %g: microscopic total %.17g, expected %.17g", k ? "photon" : "neutron", e, got, want));
          if (!(maj >= got * (1 - 1e-12)) || (!m.cont && !close_to(maj, got, 1e-12))) run.violation(mstr(m), fmt("%s at %g: majorant %.17g of total %.17g", k ? "photon" : "neutron", e, maj, got));
          if (mat.number_density != m.aden) run.violation(mstr(m), fmt("number density %g", mat.number_density));
          run.count("transitions");
          run.count("traces_validated_against_impl");
        }
      run.count("states", es.size() * 2);
      if (i % 1999 == 0) run.sample(mstr(m));
    }
  }, [&](size_t b) { return "material " + mstr(ms[b * mper]); });

  // ---- macroscopic cross section: over all strata of the draw the flights in a material follow its number density
  //      times its microscopic cross section
  std::vector<ref::Nuclide> nsc = ns;
  for (auto& n : nsc) for (auto& [k, r] : n.by) r.scatter.clear();
  std::vector<cont::Nuclide> csc = cs;
  for (auto& n : csc) n.scatter = {};
  const std::string cctext = cont::xml(run.scratch, "mc", csc);
  std::vector<size_t> some;
  for (size_t i = 0; i < ms.size(); i += run.thorough ? 1 : 11) some.push_back(i);
  const int N = 12;
  run.cases("macroscopic", some.size(), [&](size_t i) {
    const M& m = ms[some[i]];
    for (int delta = 0; delta < 2; delta++) {
      Problem p = base();
      p.G = 2;
      if (m.cont) p.nuclides_text = cctext;
      else p.nuclides = nsc;
      p.tracking = delta ? "cell delta" : "";
      p.materials = {{"m0", m.aden, {}}, {"m1", 3 * m.aden, {}}};
      double sum = 0;
      for (size_t k = 0; k < m.who.size(); k++) {
        for (auto& mm : p.materials) mm.nuc.push_back({plain[m.who[k]], fr[m.f[k]] * m.scale});
        sum += fr[m.f[k]];
      }
      const double R = 1e14;
      p.surfaces = {{"left", 'p', {-R, 0, 0}}, {"mid", 'p', {0, 0, 0}}, {"right", 'p', {R, 0, 0}}};
      p.cells = {{"a", "m0", {{"left", 1}, {"mid", -1}}, ""}, {"b", "m1", {{"mid", 1}, {"right", -1}}, ""}, {"", "", {{"left", -1}}, ""}, {"", "", {{"right", 1}}, ""}};
      mini::Doc doc(ref::xml(p));
      Probe pr{doc.root};
      for (double e : m.cont ? std::vector<double>{1e-6, 3e-5, 1} : std::vector<double>{1, 2})
        for (int side = 0; side < 2; side++) {
          double want = 0;
          for (size_t j = 0; j < m.who.size(); j++) { const int w = m.who[j]; want += fr[m.f[j]] / sum * (m.cont ? csc[w].capture.at(e) : nsc[w].by["neutron"].total(2, (int)e - 1)); }
          const double Sigma = want * m.aden * (side ? 3 : 1);
          std::vector<double> d;
          for (int s = 0; s < N; s++) {
            int n = 0;
            verif::serve() = [&](std::minstd_rand&) { return n++ ? 0.5 : (s + 0.5) / N; };
            const double x0 = (side ? 1e-6 : -1e-6) / Sigma;
            Particle q{point({x0, 0, 0}), direction({side ? 1.0 : -1.0, 0, 0}), m.cont ? Energy{ContinuousEnergy{e}} : Energy{Group(e)}, Particle::Type::neutron, 1};
            auto proxy = pr.init_estimator_set.GetProxy();
            q.Transport(proxy, pr.world);
            verif::serve() = nullptr;
            d.push_back(std::fabs(vec(q.GetPosition()).x - x0));
            if (q.event != Particle::Event::capture) { run.violation(mstr(m), fmt("no collision, event %d", (int)q.event)); return; }
            run.count("transitions");
            run.count("traces_validated_against_impl");
          }
          std::sort(d.begin(), d.end());
          for (int s = 0; s < N; s++)
            if (std::fabs(-std::expm1(-Sigma * d[s]) - (s + 0.5) / N) > 0.02 / N) {
              run.violation(mstr(m), fmt("energy or group %g, density %g: a flight of %.12g where the macroscopic cross section %.12g gives %.12g", e, m.aden * (side ? 3 : 1), d[s], Sigma, -std::log1p(-(s + 0.5) / N) / Sigma));
              return;
            }
        }
    }
    run.count("states");
  }, [&](size_t i) { return "macroscopic " + mstr(ms[some[i]]); });

  // ---- shared nuclides and materials
  std::vector<ref::Material> pool{{"m", 0.1, {{"H1", 1}, {"U235", 3}}}, {"mm", 0.2, {{"U235", 1}, {"a", 1}}}, {"m m", 0.3, {{"a", 2}}}, {"M", 0.4, {{"Z", 1}, {"H1", 1}, {"a", 1}, {"U235", 2}}}};
  std::vector<std::vector<int>> seqs;
  for (int n = 1; n <= 4; n++) {
    int c = 1;
    for (int i = 0; i < n; i++) c *= 5;
    for (int k = 0; k < c; k++) { std::vector<int> s; int q = k; for (int i = 0; i < n; i++) { s.push_back(q % 5); q /= 5; } seqs.push_back(s); }
  }
  const size_t sper = 16;
  run.cases("shared", (seqs.size() + sper - 1) / sper, [&](size_t blk) {
    for (size_t i = blk * sper; i < std::min(seqs.size(), (blk + 1) * sper); i++) {
      const auto& s = seqs[i];
      for (int rot = 0; rot < 4; rot++) {
        Problem p;
        p.G = 2;
        p.nuclides = ns;
        for (int k = 0; k < 4; k++) p.materials.push_back(pool[(k + rot) % 4]);
        p.particles = "neutron photon";
        std::string what = "cells of";
        for (size_t k = 0; k <= s.size(); k++) p.surfaces.push_back({fmt("p%zu", k), 'p', {(double)k, 0, 0}});
        for (size_t k = 0; k < s.size(); k++) {
          const std::string mat = s[k] == 4 ? "" : pool[s[k]].name;
          what += " [" + mat + "]";
          p.cells.push_back({mat.empty() ? "" : fmt("c%zu", k), mat, {{fmt("p%zu", k), 1}, {fmt("p%zu", k + 1), -1}}, ""});
        }
        p.cells.push_back({"", "", {{"p0", -1}}, ""});
        p.cells.push_back({"", "", {{fmt("p%zu", s.size()), 1}}, ""});
        const ref::Problem q = ref::rename(p, (int)((i + rot) % ref::kSchemes), i % 12);
        auto pool_name = [&](int m) { return q.materials[(m + 4 - rot) % 4].name; };
        mini::Doc doc(ref::xml(q));
        Probe pr{doc.root};
        for (size_t k = 0; k < s.size(); k++) {
          const ::Cell& cell = pr.world.FindCellContaining(point({k + 0.5, 0, 0}));
          if ((s[k] == 4) != !cell.material) { run.violation(what, "void and material mixed up"); continue; }
          if (s[k] == 4) continue;
          const auto& m = pool[s[k]];
          if (cell.material->name != pool_name(s[k]) || cell.material->number_density != m.aden || cell.material->afracs.size() != m.nuc.size())
            run.violation(what, fmt("cell %zu holds material %s of density %g with %zu nuclides", k, cell.material->name.c_str(), cell.material->number_density, cell.material->afracs.size()));
          for (int g = 1; g <= 2; g++)
            for (int ph = 0; ph < 2; ph++) {
              double sum = 0, want = 0;
              for (auto& [n, f] : m.nuc) { sum += f; for (auto& nn : ns) if (nn.name == n) want += f * nn.by[ph ? "photon" : "neutron"].total(2, g - 1); }
              Particle q = at(pr, {k + 0.5, 0, 0}, Energy{Group(g)}, ph);
              const double got = cell.material->GetMicroscopicTotal(q);
              if (!close_to(got, want / sum, 1e-12)) run.violation(what, fmt("material %s: %.17g, expected %.17g", m.name.c_str(), got, want / sum));
              run.count("transitions");
              run.count("traces_validated_against_impl");
            }
        }
        run.count("states");
      }
    }
  }, [&](size_t b) { return fmt("cells from %zu", b * sper); });

  // ---- many groups, nuclides, materials and cells, with values over many orders of magnitude
  struct Big { int what, n, k; };
  std::vector<Big> bg;
  for (int n : {4, 5, 8, 9, 16, 17, 33, 70, 172}) for (int k = 1; k < 8; k++) bg.push_back({0, n, k});
  for (int n : {257, 300}) for (int k : {1, 2, 7}) bg.push_back({0, n, k});
  for (int n : {6, 9, 16, 17, 33, 64, 100, 260}) for (int k = 0; k < 6; k++) { bg.push_back({1, n, k}); bg.push_back({2, n, k}); }
  for (int n : {5, 9, 17, 33, 65, 129}) for (int k = 0; k < 4; k++) bg.push_back({3, n, k});
  auto bd = [&](size_t i) { const Big& b = bg[i]; return fmt(b.what == 0 ? "%d groups, reactions %d" : b.what == 1 ? "%d nuclides, case %d" : b.what == 2 ? "%d continuous nuclides, case %d" : "%d materials, case %d", b.n, b.k); };
  run.cases("many", bg.size(), [&](size_t i) {
    const Big& b = bg[i];
    auto some = [&](size_t k) { const uint64_t h = mix(k * 131 + b.n * 7 + b.k); return h % 7 == 0 ? 0.0 : (1 + h % 97) * std::pow(10.0, (int)(h / 97 % 7) - 4); };
    auto probe = [&](const Problem& p, const std::function<double(const Particle&, size_t cell, bool photon)>& want, const std::vector<double>& es, size_t cells) {
      mini::Doc doc(ref::xml(p));
      Probe pr{doc.root};
      for (size_t c = 0; c < cells; c++) for (double e : es) for (int ph = 0; ph < 2; ph++) {
        Particle q = at(pr, cells == 1 ? V{1, 2, 3} : V{c + 0.5, 0, 0}, b.what != 2 ? Energy{Group(e)} : Energy{ContinuousEnergy{e}}, ph);
        const double w = want(q, c, ph), got = q.GetCell().material->GetMicroscopicTotal(q), maj = q.GetCell().material->GetMicroscopicMajorant(q);
        run.count("transitions");
        run.count("traces_validated_against_impl");
        if (!close_to(got, w, 1e-11) || !(maj >= got * (1 - 1e-12)) || (b.what != 2 && !close_to(maj, got, 1e-12))) { run.violation(bd(i), fmt("%s at %g in cell %zu: total %.17g, majorant %.17g, expected %.17g", ph ? "photon" : "neutron", e, c, got, maj, w)); return; }
      }
      run.count("states", cells * es.size() * 2);
      run.count("materials", cells);
    };
    Problem p = base();
    std::vector<double> es;
    if (b.what == 0) {
      const int G = b.n;
      p.G = G;
      Reacts r[2];
      for (int ph = 0; ph < 2; ph++) {
        for (int g = 0; g < G; g++) {
          if (b.k & 1) r[ph].capture.push_back(some(g + 1000 * ph) + 1e-3);
          if (b.k & 4) { r[ph].fxs.push_back(some(g + 5000 + 1000 * ph)); r[ph].nubar.push_back(2.5); }
        }
        for (int x = 0; x < G * G; x++) { if (b.k & 2) r[ph].scatter.push_back(some(x + 70000 * ph) + (x / G == x % G ? 1e-3 : 0)); if (b.k & 4) r[ph].chi.push_back(1 + x % 3); }
      }
      ref::Nuclide n;
      n.name = "x";
      n.by["neutron"] = r[0];
      n.by["photon"] = r[1];
      p.nuclides = {n};
      for (int g = 1; g <= G; g++) es.push_back(g);
      probe(p, [&](const Particle& q, size_t, bool ph) { return r[ph].total(G, (int)energy_of(q) - 1); }, es, 1);
    } else if (b.what < 3) {
      std::vector<double> f;
      double sum = 0;
      p.materials = {{"m0", 0.1, {}}};
      for (int k = 0; k < b.n; k++) {
        const double x = b.k == 0 ? 1 : b.k == 1 ? std::pow(10.0, -k % 9) : b.k == 2 ? std::pow(10.0, k % 9 - 8) : some(k) + 1e-6;
        f.push_back(x);
        sum += x;
        p.materials[0].nuc.push_back({fmt("n%d", b.k % 2 ? b.n - 1 - k : k), x});
      }
      auto fraction = [&](int k) { return f[b.k % 2 ? b.n - 1 - k : k] / sum; };
      if (b.what == 1) {
        p.G = 2;
        p.nuclides.clear();
        for (int k = 0; k < b.n; k++) {
          ref::Nuclide n;
          n.name = fmt("n%d", k);
          Reacts x, y;
          x.capture = {some(3 * k) + 1e-4, some(3 * k + 1) + 1e-4}; y.capture = {some(3 * k + 2) + 1e-4, 1.0 * k};
          if (k % 3 == 0) x.scatter = {1, 0.25 * k, 0, 0.7};
          n.by["neutron"] = x; n.by["photon"] = y;
          p.nuclides.push_back(n);
        }
        auto& N2 = p.nuclides;
        probe(p, [&](const Particle& q, size_t, bool ph) { double w = 0; for (int k = 0; k < b.n; k++) w += fraction(k) * N2[k].by[ph ? "photon" : "neutron"].total(2, (int)energy_of(q) - 1); return w; }, {1, 2}, 1);
      } else {
        std::vector<cont::Nuclide> cn;
        std::vector<cont::Eval> ph;
        for (int k = 0; k < b.n; k++) {
          cont::Nuclide c;
          c.name = fmt("n%d", k); c.awr = 1000;
          c.capture = {{1e-6 * (1 + k % 3), 1e-3, 1}, {some(2 * k) + 0.1, 0.5, 0.25 * k}, 293.6};
          if (k % 2) c.scatter = {{1e-7, 1e-4 * (1 + k % 5), 10}, {1.0, 7, some(2 * k + 1)}, 293.6};
          ph.push_back(cont::Eval{{1e-6, 1}, {1.0 + k, 2.0}});
          c.others = "<photon><capture" + cont::attrs(run.scratch, fmt("big%zu-%d", i, k), ph.back()) + "</photon>";
          cn.push_back(c);
        }
        p.nuclides_text = cont::xml(run.scratch, fmt("big%zu", i), cn);
        probe(p, [&](const Particle& q, size_t, bool photon) {
          const double e = energy_of(q);
          double w = 0;
          for (int k = 0; k < b.n; k++) w += fraction(k) * (photon ? ph[k].at(e) : cn[k].capture.at(e) + (k % 2 ? cn[k].scatter.at(e) : 0));
          return w;
        }, {1e-8, 5e-7, 1e-6, 3e-5, 3e-4, 0.02, 1, 15}, 1);
        for (auto& e : std::filesystem::directory_iterator(run.scratch)) if (e.path().filename().string().find(fmt("big%zu", i)) == 0) std::filesystem::remove(e.path());
      }
    } else {
      // material k is of nuclides k, 2k and 3k modulo their number, cells in another order
      const int M = b.n, P = 1 + b.n / 2;
      p.G = 2;
      p.nuclides.clear();
      for (int k = 0; k < P; k++) { ref::Nuclide n; n.name = fmt("n%d", k); Reacts x, y; x.capture = {some(k) + 1e-3, 1.0 + k}; y.capture = {2.0 + k, some(k + 500) + 1e-3}; n.by["neutron"] = x; n.by["photon"] = y; p.nuclides.push_back(n); }
      p.materials.clear();
      std::vector<std::map<int, double>> what(M);
      for (int k = 0; k < M; k++) {
        for (int j = 1; j <= 3; j++) what[k][j * (k + b.k) % P] = j + k % 4;
        p.materials.push_back({fmt("m%d", k), 0.01 * (k + 1), {}});
        for (auto& [n, f] : what[k]) p.materials.back().nuc.push_back({fmt("n%d", n), f});
      }
      p.surfaces.clear(); p.cells.clear();
      std::vector<int> in;
      for (int k = 0; k <= M; k++) p.surfaces.push_back({fmt("p%d", k), 'p', {(double)k, 0, 0}});
      for (int k = 0; k < M; k++) { in.push_back((k * 5 + b.k) % M); p.cells.push_back({fmt("c%d", k), fmt("m%d", in[k]), {{fmt("p%d", k), 1}, {fmt("p%d", k + 1), -1}}, ""}); }
      p.cells.push_back({"", "", {{"p0", -1}}, ""});
      p.cells.push_back({"", "", {{fmt("p%d", M), 1}}, ""});
      const auto ns2 = p.nuclides;
      const ref::Problem q2 = ref::rename(p, b.k % 2 ? 0 : 1 + b.k);
      probe(q2, [&](const Particle& q, size_t c, bool ph) {
        double w = 0, sum = 0;
        for (auto& [n, f] : what[in[c]]) { auto nn = ns2[n]; w += f * nn.by[ph ? "photon" : "neutron"].total(2, (int)energy_of(q) - 1); sum += f; }
        if (q.GetCell().material->number_density != 0.01 * (in[c] + 1)) run.violation(bd(i), fmt("cell %zu holds a material of density %g", c, q.GetCell().material->number_density));
        return w / sum;
      }, {1, 2}, M);
    }
    if (i % 19 == 0) run.sample(bd(i));
  }, bd);
  return run.finish();
}
