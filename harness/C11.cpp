// Selection at a collision.
//  nuclide:  every table of up to three nuclides over small sets of totals and fractions; the target is sampled for every
//            one of N strata of the draw; frequencies must be the exact probabilities to within one stratum per nuclide.
//  joint:    tables whose probabilities are multiples of 1/K: over all K-ary draw sequences of a collision the joint
//            distribution of reaction and outgoing group must be exact, with isotropic directions for each outcome.
//  sweep:    tables with arbitrary probabilities: frequencies over N strata.
#include "choice.hpp"
#include "cont.hpp"
#include "probe.hpp"
#include "problems.hpp"
#include "vh.hpp"
#include "xs.hpp"
#include <algorithm>
#include <iostream>
using namespace vh;
using namespace prob;

namespace {
std::string doc_of(Problem p) {
  p.surfaces = {{"ball", 's', {}, 10}};
  p.cells = {{"in", "m0", {{"ball", -1}}, ""}, {"", "", {{"ball", 1}}, ""}};
  p.pos = {0.1, 0.2, 0.3};
  return ref::xml(p);
}
Particle make(const Probe& pr, Energy e, V dir = {0.48, -0.6, 0.64}, Particle::Type t = Particle::Type::neutron) {
  Particle p{Point{0.1, 0.2, 0.3}, direction(dir), e, t, 1};
  p.SetCell(pr.world.FindCellContaining(p.GetPosition()));
  return p;
}
// maximum deviation of the empirical distribution of v from uniform on [-1,1]
double ks(std::vector<double>& v) {
  std::sort(v.begin(), v.end());
  double w = 0;
  for (size_t i = 0; i < v.size(); i++) {
    const double F = (v[i] + 1) / 2;
    w = std::max({w, std::fabs(F - (double)i / v.size()), std::fabs(F - (i + 1.0) / v.size())});
  }
  return w;
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "tables", "traces_validated_against_impl"});
  std::cout.rdbuf(nullptr);

  // ---- nuclide
  const double tot[] = {0, 1, 2, 7};
  const double frac[] = {0.5, 1, 3};
  std::vector<std::vector<std::pair<int, int>>> mats;
  for (int a = 0; a < 12; a++) {
    mats.push_back({{a % 4, a / 4}});
    for (int b = 0; b < 12; b++) {
      mats.push_back({{a % 4, a / 4}, {b % 4, b / 4}});
      for (int c = 0; c < 12; c++) {
        mats.push_back({{a % 4, a / 4}, {b % 4, b / 4}, {c % 4, c / 4}});
        if (run.thorough) for (int d = 0; d < 12; d += 1) mats.push_back({{a % 4, a / 4}, {b % 4, b / 4}, {c % 4, c / 4}, {d % 4, d / 4}});
      }
    }
  }
  const std::vector<std::vector<std::string>> names{{"q", "a", "m", "b"}, {"a", "b", "c", "d"}, {"d", "c", "b", "a"}};
  const int N = run.thorough ? 2000 : 400;
  auto nd = [&](size_t i) { std::string s = "nuclides"; for (auto& [t, f] : mats[i]) s += fmt(" total %g fraction %g;", tot[t], frac[f]); return s; };
  run.cases("nuclide", mats.size(), [&](size_t i) {
    Problem p;
    p.G = 2;
    p.particles = "neutron photon";
    const auto& nm = names[i % 3];
    ref::Material m{"m0", 1, {}};
    for (size_t k = 0; k < mats[i].size(); k++) {
      const auto [t, f] = mats[i][k];
      Reacts r, ph;
      // split over reactions; the second group and photons have other tables
      r.capture = {tot[t] / 2, tot[(t + k + 1) % 4]};
      r.scatter = {0, 0, tot[t] / 2, 0};
      ph.capture = {tot[(t * 2 + k) % 4], tot[(t + 3) % 4]};
      ref::Nuclide n;
      n.name = nm[k];
      n.by["neutron"] = r;
      n.by["photon"] = ph;
      p.nuclides.push_back(n);
      m.nuc.push_back({n.name, frac[f]});
    }
    p.materials = {m};
    mini::Doc doc(doc_of(p));
    Probe probe{doc.root};
    run.count("tables");
    for (int who = 0; who < 4; who++) {
      const Group g = 1 + who % 2;
      const bool photon = who / 2;
      Particle part = make(probe, Energy{g}, {0.48, -0.6, 0.64}, photon ? Particle::Type::photon : Particle::Type::neutron);
      double sum = 0;
      std::map<std::string, double> want, got;
      for (size_t k = 0; k < mats[i].size(); k++) {
        const double w = m.nuc[k].second * p.nuclides[k].by.at(photon ? "photon" : "neutron").total(2, g - 1);
        want[nm[k]] = w;
        sum += w;
      }
      if (sum == 0) continue;
      for (int s = -2; s < N + 2; s++) {
        const double u = s < 0 ? (s + 2) * 1e-10 : s >= N ? 1 - 1e-10 * (s - N + 1) : (s + 0.5) / N;
        verif::serve() = [&](std::minstd_rand&) { return u; };
        const std::string name = part.SampleNuclide().name;
        verif::serve() = nullptr;
        if (s >= 0 && s < N) got[name] += 1.0 / N; else got[name] += 0;
        run.count("transitions");
        run.count("traces_validated_against_impl");
        if (!(want[name] > 0)) { run.violation(nd(i), fmt("%s chosen for draw %g in group %d though it has no cross section", name.c_str(), u, (int)g)); break; }
      }
      for (auto& [n, w] : want) {
        run.count("states");
        if (std::fabs(got[n] - w / sum) > 1.01 / N) run.violation(nd(i), fmt("%s %s group %d chosen with frequency %.5f, expected %.5f", n.c_str(), photon ? "photon" : "neutron", (int)g, got[n], w / sum));
      }
    }
    if (i % 401 == 0) run.sample(nd(i));
  }, nd);

  // ---- many nuclides
  struct Many { int n, pat, names; };
  std::vector<Many> many;
  for (int n : {4, 5, 6, 8, 9, 12, 16, 17, 33}) for (int pat = 0; pat < 8; pat++) for (int k = 0; k < 4; k++) many.push_back({n, pat, k});
  auto yd = [&](size_t i) { return fmt("%d nuclides, pattern %d, names %d", many[i].n, many[i].pat, many[i].names); };
  run.cases("many", many.size(), [&](size_t i) {
    const auto [n, pat, kind] = many[i];
    Problem p;
    p.G = 2;
    ref::Material m{"m0", 1, {}};
    for (int k = 0; k < n; k++) {
      Reacts r;
      const double w = pat == 0 ? 1 : pat == 1 ? (k == n - 1) : pat == 2 ? (k == 0) : pat == 3 ? k % 2 * (k + 1.0) : pat == 4 ? n - k : pat == 5 ? (k % 3 == 0 ? 0.01 : 1 + k) : pat == 6 ? (k == n / 2 ? 0 : 0.3 + 0.1 * (k % 4)) : 0.5 + k;
      r.capture = {w / 2, 1.0 + (k + pat) % 3};
      r.scatter = {w / 4, 0.1, w / 4, 0.2};
      p.nuclides.push_back(nuclide(kind == 0 ? fmt("n%02d", k) : kind == 1 ? fmt("n%02d", n - k) : kind == 2 ? fmt("n%d", k * 7 % 37) : std::string(k + 1, 'n'), r));
      m.nuc.push_back({p.nuclides.back().name, pat == 7 ? 3.0 / (1 + k) : 0.2 + 0.15 * (k % 4)});
    }
    p.materials = {m};
    mini::Doc doc(doc_of(p));
    Probe probe{doc.root};
    run.count("tables");
    for (Group g : {1, 2}) {
      Particle part = make(probe, Energy{g});
      double sum = 0;
      std::map<std::string, double> want, got;
      for (int k = 0; k < n; k++) { const double w = m.nuc[k].second * p.nuclides[k].by.at("neutron").total(2, g - 1); want[m.nuc[k].first] = w; sum += w; }
      for (int s = 0; s < 4 * N; s++) {
        verif::serve() = [&](std::minstd_rand&) { return (s + 0.5) / (4 * N); };
        got[part.SampleNuclide().name] += 0.25 / N;
        verif::serve() = nullptr;
        run.count("transitions");
        run.count("traces_validated_against_impl");
      }
      for (auto& [nm, w] : want) {
        run.count("states");
        if (std::fabs(got[nm] - w / sum) > 0.26 / N || (w == 0 && got[nm] > 0)) { run.violation(yd(i), fmt("%s in group %d chosen with frequency %.5f, expected %.5f", nm.c_str(), (int)g, got[nm], w / sum)); return; }
      }
    }
  }, yd);

  // ---- joint
  const int K = 6;
  struct J { std::vector<double> react, column; int G, in; };  // in sixths
  std::vector<J> js;
  for (int c = 0; c <= K; c++) for (int s = 0; c + s <= K; s++)
    for (int G = 1; G <= 3; G++) for (int in = 1; in <= G; in++)
      for (int a = 0; a <= K; a++) for (int b = 0; a + b <= K; b++) {
        if (G == 1 && (a != K || b)) continue;
        if (G == 2 && a + b != K) continue;
        if (!run.thorough && G == 3 && in != 2 && (a + 2 * b + c) % 4) continue;
        js.push_back({{(double)c, (double)s, (double)(K - c - s)}, {(double)a, (double)b, (double)(K - a - b)}, G, in});
      }
  auto jd = [&](size_t i) { const J& j = js[i]; return fmt("capture:scatter:fission %g:%g:%g, %d groups, incident %d, column %g %g %g", j.react[0], j.react[1], j.react[2], j.G, j.in, j.column[0], j.column[1], j.column[2]); };
  run.cases("joint", js.size(), [&](size_t i) {
    const J& j = js[i];
    Problem p;
    p.G = j.G;
    Reacts r;
    for (int g = 1; g <= j.G; g++) {
      const bool me = g == j.in;
      r.capture.push_back(me ? 0.5 * j.react[0] : 1);
      r.fxs.push_back(me ? 0.5 * j.react[2] : 2);
      r.nubar.push_back(0);
    }
    r.scatter.assign(j.G * j.G, 0.3);
    r.chi.assign(j.G * j.G, 1);
    for (int o = 0; o < j.G; o++) r.scatter[o * j.G + j.in - 1] = 0.5 * j.react[1] * j.column[o] / K;
    p.nuclides = {nuclide("x", r)};
    p.materials = {{"m0", 1, {{"x", 1}}}};
    mini::Doc doc(doc_of(p));
    Probe probe{doc.root};
    const auto nuc = probe.world.FindNuclideByName("x");
    run.count("tables");
    std::map<std::pair<int, int>, double> got, want;
    std::map<int, std::vector<V>> dirs;
    choice::Tree t;
    t.K = K;
    t.limit = 12;
    verif::tree() = &t;
    const V in{0.48, -0.6, 0.64};
    do {
      t.start();
      Particle part = make(probe, Energy{Group(j.in)}, in);
      nuc->Interact(part);
      const int g = (int)std::get<Group>(part.GetEnergy());
      got[{(int)part.event, part.event == Particle::Event::scatter ? g : 0}] += t.weight();
      if (part.event == Particle::Event::scatter) dirs[g].push_back(vec(part.GetDirection()));
      run.count("transitions");
      run.count("traces_validated_against_impl");
      Bank b;
      part.MoveSecondariesTo(b);
      if (!b.empty()) { run.violation(jd(i), "secondaries with a yield of zero"); break; }
    } while (t.next());
    verif::tree() = nullptr;
    want[{(int)Particle::Event::capture, 0}] = j.react[0] / K;
    want[{(int)Particle::Event::fission, 0}] = j.react[2] / K;
    for (int o = 0; o < j.G; o++) want[{(int)Particle::Event::scatter, o + 1}] = j.react[1] / K * j.column[o] / K;
    for (auto& [k, w] : want) {
      run.count("states");
      if (std::fabs(got[k] - w) > 1e-9) run.violation(jd(i), fmt("event %d group %d has probability %.9g, expected %.9g", k.first, k.second, got[k], w));
    }
    for (auto& [k, w] : got) if (w > 0 && !(want[k] > 0)) run.violation(jd(i), fmt("event %d group %d has probability %.9g, expected 0", k.first, k.second, w));
    for (auto& [g, ds] : dirs)
      for (V axis : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}, in, ref::unit({1, 1, 1})}) {
        std::vector<double> c;
        for (auto& d : ds) c.push_back(ref::dot(d, axis));
        const double w = ks(c);
        if (w > 0.17) run.violation(jd(i), fmt("directions after scattering to group %d are not isotropic along (%g,%g,%g): %.3f", g, axis.x, axis.y, axis.z, w));
      }
    if (i % 199 == 0) run.sample(jd(i));
  }, jd);

  // ---- sweep
  struct W { std::string what; Problem p; Energy e; std::map<int, double> react; std::vector<double> groups; };
  std::vector<W> ws;
  const std::vector<std::vector<double>> vals{{1, 1, 1}, {0.013, 3, 0.9}, {0, 1, 5}, {7, 0, 0.3}, {0.2, 11, 0}, {1e-3, 1e-3, 5}, {0, 0, 2}, {0, 3, 0}, {4, 0, 0}};
  for (auto& v : vals)
    for (auto& col : vals)
      for (int in = 1; in <= 3; in++) {
        W w{fmt("sweep capture %g scatter %g fission %g, column %g %g %g, incident %d", v[0], v[1], v[2], col[0], col[1], col[2], in), {}, Energy{Group(in)}, {}, {}};
        Reacts r;
        r.capture = r.fxs = {0.5, 0.5, 0.5};
        r.nubar = {0, 0, 0};
        r.chi.assign(9, 1);
        r.scatter.assign(9, 0.4);
        r.capture[in - 1] = v[0];
        r.fxs[in - 1] = v[2];
        const double s = col[0] + col[1] + col[2];
        for (int o = 0; o < 3; o++) { r.scatter[o * 3 + in - 1] = v[1] * col[o] / s; w.groups.push_back(col[o] / s); }
        w.react = {{(int)Particle::Event::capture, v[0]}, {(int)Particle::Event::scatter, v[1]}, {(int)Particle::Event::fission, v[2]}};
        w.p.G = 3;
        w.p.nuclides = {nuclide("x", r)};
        ws.push_back(w);
      }
  // many groups
  for (int G : {4, 5, 8, 9, 12, 17, 20, 33, 64, 70, 172, 280})
    for (int in : {1, 2, G / 2, G - 1, G})
      for (int pat = 0; pat < 6; pat++) {
        W w{fmt("sweep %d groups, incident %d, pattern %d", G, in, pat), {}, Energy{Group(in)}, {}, {}};
        Reacts r;
        for (int g = 1; g <= G; g++) { r.capture.push_back(0.1 + 0.03 * g); r.fxs.push_back(0.4 + 0.01 * (g * 7 % 5)); r.nubar.push_back(0); }
        r.chi.assign(G * G, 1);
        r.scatter.assign(G * G, 0.01);
        double s = 0;
        std::vector<double> col;
        for (int o = 1; o <= G; o++) {
          const double v = pat == 0 ? 1 : pat == 1 ? (o == G) : pat == 2 ? (o == 1) : pat == 3 ? o % 2 * (1 + o) : pat == 4 ? (o >= in ? 1.0 / (1 + o - in) : 0) : (o == G || o == G / 2 ? 3 : 0.1);
          col.push_back(v); s += v;
        }
        for (int o = 0; o < G; o++) { r.scatter[o * G + in - 1] = 2 * col[o] / s; w.groups.push_back(col[o] / s); }
        w.react = {{(int)Particle::Event::capture, r.capture[in - 1]}, {(int)Particle::Event::scatter, 2}, {(int)Particle::Event::fission, r.fxs[in - 1]}};
        w.p.G = G;
        w.p.nuclides = {nuclide("x", r)};
        ws.push_back(w);
      }
  int nr = 0;
  for (auto& v : vals)
    for (double E : {1e-12, 3e-8, 0.5, 30.0})
      for (double T : {293.6, 700.0}) {
        W w{fmt("sweep continuous capture %g scatter %g fission %g, energy %g, temperature %g", v[0], v[1], v[2], E, T), {}, Energy{ContinuousEnergy{E}}, {}, {}};
        cont::Nuclide n;
        n.name = "x";
        n.awr = 40;
        n.capture = {{1e-10, 1e-6, 10}, {v[0], v[0] * 2, v[0] / 2}, 293.6};
        n.scatter = {{1e-10, 1e-6, 10}, {v[1], v[1], v[1] * 3}, T};
        n.fission = {{1e-10, 1e-6, 10}, {v[2] * 2, v[2], v[2]}, 293.6};
        n.nubar = cont::flat(0);
        w.react = {{(int)Particle::Event::capture, n.capture.at(E)}, {(int)Particle::Event::scatter, n.scatter.at(E)}, {(int)Particle::Event::fission, n.fission.at(E)}};
        w.p.temperature_text = "<temperature><constant c=\"" + mini::num(T) + "\"/></temperature>";
        w.p.nuclides_text = cont::xml(run.scratch, fmt("s%d", nr++), {n});
        ws.push_back(w);
      }
  const int M = run.thorough ? 20000 : 2000;
  run.cases("sweep", ws.size(), [&](size_t i) {
    W& w = ws[i];
    w.p.materials = {{"m0", 1, {{"x", 1}}}};
    mini::Doc doc(doc_of(w.p));
    Probe probe{doc.root};
    const auto nuc = probe.world.FindNuclideByName("x");
    run.count("tables");
    std::map<int, double> got;
    std::map<int, double> groups;
    double scat = 0, sum = 0;
    for (int s = 0; s < M; s++) {
      Particle part = make(probe, w.e);
      int n = 0;
      verif::serve() = [&](std::minstd_rand&) { n++; return n <= 4 ? (s + 0.5) / M : (vh::mix(n + 100 * s) >> 11) * 0x1p-53; };
      nuc->Interact(part);
      verif::serve() = nullptr;
      got[(int)part.event] += 1.0 / M;
      run.count("transitions");
      run.count("traces_validated_against_impl");
    }
    for (auto& [e, v] : w.react) sum += v;
    for (auto& [e, v] : w.react) {
      run.count("states");
      if (std::fabs(got[e] - v / sum) > 2.01 / M || (v == 0 && got[e] > 0)) run.violation(w.what, fmt("event %d has frequency %.5f, expected %.5f", e, got[e], v / sum));
    }
    for (auto& [e, v] : got) if (!w.react.count(e)) run.violation(w.what, fmt("event %d occurred", e));
    // outgoing groups: strata of the other draws, given a scatter. The draw that selects the reaction is held inside the
    // scatter channel by trying all its strata, so no order of channels is assumed.
    if (!w.groups.empty() && w.react[(int)Particle::Event::scatter] > 0) {
      const int R = 40;
      for (int a = 0; a < R; a++)
        for (int s = 0; s < 400; s++) {
          Particle part = make(probe, w.e);
          int n = 0;
          verif::serve() = [&](std::minstd_rand&) { n++; return n == 1 ? (a + 0.5) / R : n == 2 ? (s + 0.5) / 400 : 0.3; };
          nuc->Interact(part);
          verif::serve() = nullptr;
          if (part.event != Particle::Event::scatter) continue;
          scat++;
          groups[(int)std::get<Group>(part.GetEnergy())]++;
          run.count("transitions");
        }
      for (int g = 1; g <= (int)w.groups.size(); g++)
        if (scat > 0 && (std::fabs(groups[g] / scat - w.groups[g - 1]) > 2.01 / 400 || (w.groups[g - 1] == 0 && groups[g] > 0)))
          run.violation(w.what, fmt("outgoing group %d has frequency %.5f, expected %.5f", g, groups[g] / scat, w.groups[g - 1]));
    }
    if (i % 61 == 0) run.sample(w.what);
  }, [&](size_t i) { return ws[i].what; });

  // ---- mixture: continuous-energy nuclides away from the temperatures of their evaluations, where totals and majorants
  //      differ; temperatures of the cell, of the problem, constant and linear
  tsl::Data law = tsl::plausible(1, {280, 400, 900}, {1e-10, 1e-9, 1e-8, 1e-7, 4e-7}, 4, {2, 3}, {3, 2});
  std::vector<xs::Nuclide> ns(6);
  {
    const cont::Vec e{1e-11, 1e-9, 3e-8, 1e-6, 1e-2, 20};
    ns[0].name = "hot"; ns[0].awr = 1; ns[0].scatter = {e, {30, 22, 20, 20.5, 10, 1}, 5000}; ns[0].capture = {e, {5, 2, 1, 0.3, 0.1, 0.01}, 293.6};
    ns[1].name = "carbon"; ns[1].awr = 12; ns[1].scatter = {e, {6, 5, 5, 4.8, 4, 1}, 293.6};
    ns[2].name = "water"; ns[2].awr = 1; ns[2].scatter = {e, {30, 22, 20, 20.5, 10, 1}, 293.6}; ns[2].law = &law;
    ns[3].name = "fuel"; ns[3].awr = 235; ns[3].capture = {e, {500, 100, 30, 10, 1, 0.2}, 293.6}; ns[3].scatter = cont::flat(8, 600); ns[3].fission = {e, {800, 200, 80, 30, 2, 1}, 293.6}; ns[3].nubar = cont::flat(2.4);
    ns[4].name = "poison"; ns[4].awr = 113; ns[4].capture = {e, {300, 90, 40, 20, 1, 0.1}, 293.6}; ns[4].total = {e, {330, 70, 50, 25, 1, 0.1}, 500};
    ns[5].name = "light"; ns[5].awr = 0.9; ns[5].scatter = {e, {40, 25, 20, 19, 10, 1}, 600}; ns[5].capture = cont::flat(0.5);
  }
  const std::string text = xs::xml(run.scratch, "mix", ns);
  struct Mix { std::vector<int> who; double T; bool linear; std::string tr, cellT; };
  std::vector<Mix> mx;
  for (int mask = 1; mask < 64; mask++) {
    std::vector<int> w;
    for (int k = 0; k < 6; k++) if (mask >> k & 1) w.push_back(k);
    if (w.size() > 4) continue;
    int v = 0;
    for (double T : {0.0, 4.0, 293.6, 500.0, 900.0, 1e5})
      for (bool lin : {false, true})
        for (const char* tr : {"surface", "cell delta"}) {
          if (lin && std::string(tr) == "surface") continue;
          if (lin && (T == 0 || T == 1e5)) continue;
          if (!run.thorough && w.size() > 2 && (mask + v++) % 3) continue;
          mx.push_back({w, T, lin, tr, (mask + v) % 5 == 0 ? "350" : ""});
        }
  }
  auto xd = [&](size_t i) { std::string s = "mixture of"; for (int k : mx[i].who) s += " " + ns[k].name; return s + fmt(" at %g%s%s %s", mx[i].T, mx[i].linear ? " rising" : "", mx[i].cellT.empty() ? "" : ", cell at 350", mx[i].tr.c_str()); };
  run.cases("mixture", mx.size(), [&](size_t i) {
    const Mix& m = mx[i];
    Problem p;
    p.nuclides_text = text;
    p.tracking = m.tr;
    ref::Material mat{"m0", 1, {}};
    for (size_t k = 0; k < m.who.size(); k++) mat.nuc.push_back({ns[m.who[k]].name, m.who[k] == 3 || m.who[k] == 4 ? 0.05 : 1.0 + k});
    p.materials = {mat};
    p.surfaces = {{"ball", 's', {}, 10}};
    p.cells = {{"in", "m0", {{"ball", -1}}, m.cellT}, {"", "", {{"ball", 1}}, ""}};
    p.pos = {0.1, 0.2, 0.3};
    p.energy_text = "1e-8";
    p.temperature_text = m.linear ? "<temperature><linear><bounds lower=\"1\" upper=\"6000\"/><intercept b=\"" + mini::num(m.T) + "\"/><gradient x=\"0.3\" y=\"-0.05\" z=\"0\"/></linear></temperature>"
                                  : "<temperature><constant c=\"" + mini::num(m.T) + "\"/></temperature>";
    mini::Doc doc(ref::xml(p));
    Probe probe{doc.root};
    for (double E : {1e-12, 2e-9, 5e-8, 2e-7, 3e-6, 0.5})
      for (V x : {V{0.1, 0.2, 0.3}, V{9, 1, 0}}) {
        const double T = !m.cellT.empty() ? 350 : m.linear ? m.T + 0.3 * x.x - 0.05 * x.y : m.T;
        Particle part{point(x), direction({0.48, -0.6, 0.64}), Energy{ContinuousEnergy{E}}, Particle::Type::neutron, 1};
        part.SetCell(probe.world.FindCellContaining(part.GetPosition()));
        std::map<std::string, double> want, got;
        double sum = 0;
        for (size_t k = 0; k < m.who.size(); k++) { const double w = mat.nuc[k].second * ns[m.who[k]].tot(E, T); want[mat.nuc[k].first] = w; sum += w; }
        if (!(sum > 0)) continue;
        for (int s = -1; s <= N; s++) {
          const double u = s < 0 ? 0 : s == N ? 1 - 4.7e-10 : (s + 0.5) / N;
          verif::serve() = [&](std::minstd_rand&) { return u; };
          const std::string name = part.SampleNuclide().name;
          verif::serve() = nullptr;
          got[name] += s >= 0 && s < N ? 1.0 / N : 0;
          run.count("transitions");
          run.count("traces_validated_against_impl");
        }
        for (auto& [n, w] : want) {
          run.count("states");
          if (std::fabs(got[n] - w / sum) > 1.05 / N) { run.violation(xd(i), fmt("%s chosen with frequency %.5f, expected %.5f, at energy %g and temperature %g", n.c_str(), got[n], w / sum, E, T)); return; }
        }
      }
    run.count("tables");
    if (i % 101 == 0) run.sample(xd(i));
  }, xd);
  return run.finish();
}
