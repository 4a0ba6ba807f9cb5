// Sensitivities.
//  model:       over all draw sequences, the joint distribution of tallies and sensitivities of the real solver equals that of
//               the reference model (effect per perturbation, accumulated while streaming through materials with the nuclide).
//  walks:       every sequence of streams, crossings, collisions and changes of energy of a particle, and the effect it has
//               accumulated after each, against the sum over its streams.
//  undisturbed: the printed tallies of runs with perturbations and sensitivities are those of the run without, for every
//               subset and order of perturbations and sensitivities; what is printed for a sensitivity does not depend on which others are there.
#include "explore.hpp"
#include "problems.hpp"
#include "results.hpp"
#include "cont.hpp"
#include "probe.hpp"
#include <algorithm>
#include <functional>
using namespace vh;
using namespace prob;

namespace {
struct Geo { std::string name; Problem p; };
std::vector<Geo> geos() {
  return {{"slab", slab({0, 1.3, 2.9}, {"m0", "m1"})}, {"slab4", slab({-1, 0.37, 0.6, 1.3, 2.9}, {"m1", "m0"})}, {"shells", shells({1.1, 2.3}, {"m0", "m1"}, {0.2, 0.1, -0.3})}, {"can", can(0.8, {0.3, 0.1, 0.2}, 1.9, -1.7, 2.1, "m0", "m1")}};
}
// perturbations: (name, nuclide); sensitivities per tally: every subset in turn
using Perts = std::vector<std::pair<std::string, std::string>>;
// but for the order of summation
bool alike(const results::Block& a, const results::Block& b) {
  if (a.mean.size() != b.mean.size() || a.dev.size() != b.dev.size() || a.bins != b.bins) return false;
  double scale = 0;
  for (auto* v : {&a.mean, &b.mean, &a.dev, &b.dev}) for (double x : *v) scale = std::max(scale, std::fabs(x));
  for (size_t i = 0; i < a.mean.size(); i++) if (std::fabs(a.mean[i] - b.mean[i]) > 2e-6 * std::fabs(b.mean[i]) + 1e-9 * scale || std::fabs(a.dev[i] - b.dev[i]) > 2e-6 * std::fabs(b.dev[i]) + 1e-7 * scale) return false;
  return true;
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  explore::declare(run);
  run.declare({"runs"});
  const std::string dir = run.scratch;

  struct Case { Problem p; std::string what; int K; };
  std::vector<Case> cs;
  for (auto& g : geos())
    for (int kind = 0; kind < 4; kind++) {
      Data data = kind == 0 ? absorber(4) : kind == 1 ? scatterer(2) : kind == 2 ? fissile(2, 1.5, 1) : fissile(2, 2, 0.5);
      std::vector<std::string> nn;
      for (auto& n : data.nuclides) nn.push_back(n.name);
      std::vector<Perts> sets{{{"q", nn[0]}}, {{"q", nn.back()}}, {{"r", nn[0]}, {"q", nn.back()}}, {{"z", nn.back()}, {"a", nn[0]}, {"m", nn.back()}}};
      if (nn.size() == 1) sets = {{{"q", nn[0]}}, {{"r", nn[0]}, {"q", nn[0]}}};
      // a third nuclide, in one of the materials only
      {
        auto& second = data.materials[1];
        auto other = data.nuclides[0];
        for (auto& n : data.nuclides) if (n.name == second.nuc[0].first) other = n;
        other.name = "other";
        data.nuclides.push_back(other);
        second.nuc.push_back({"other", second.nuc[0].second});
      }
      sets.push_back({{"u", "other"}, {"q", nn[0]}});
      for (size_t s = 0; s < sets.size(); s++)
        for (int binned = 0; binned < 2; binned++)
          for (std::string tr : {"surface", "cell delta"}) {
            Problem p = g.p;
            use(p, data);
            // m1 lacks one of the nuclides where there are two
            tally_all(p, binned);
            p.perturbations = sets[s];
            int k = 0;
            for (auto& t : p.tallies) {
              // different sensitivities at different tallies, in different orders
              for (size_t q = 0; q < sets[s].size(); q++) if (sets[s].size() == 1 || (int)q != k % 3) t.sens.push_back(sets[s][q].first);
              if (k % 2) std::reverse(t.sens.begin(), t.sens.end());
              k++;
            }
            p.tracking = tr;
            p.pos = {0.31, 0.07, 0.11};
            p.dir = {1, 0.1 * (int)s, -0.2};
            p.group = kind ? 2 : 1;
            cs.push_back({ref::rename(p, (int)(cs.size() % ref::kSchemes), cs.size() / 9 % 12), fmt("%s kind %d perturbations %zu binned %d %s", g.name.c_str(), kind, s, binned, tr.c_str()), data.K});
            if (kind == 1 && binned) { p.group = 1; cs.push_back({ref::rename(p, (int)(cs.size() % ref::kSchemes), 5), cs.back().what + " group 1", data.K}); }
          }
    }
  const uint64_t cap = run.thorough ? 100000 : 10000;
  run.cases("model", cs.size(), [&](size_t i) {
    explore::compare(run, cs[i].p, cs[i].what, cs[i].K, 26, cap);
    if (i % 53 == 0) run.sample(cs[i].what);
  }, [&](size_t i) { return cs[i].what; }, 300);

  // ---- undisturbed
  struct Base { Problem p; std::string what; std::vector<std::string> nuc; };
  std::vector<Base> bs;
  for (auto& g : geos())
    for (int kind = 0; kind < 4; kind++)
      for (std::string tr : {"surface", "cell delta"})
        for (int iso = 0; iso < 2; iso++) {
          Problem p = g.p;
          std::vector<std::string> nn;
          if (kind < 3) {
            const Data data = kind == 0 ? absorber(2) : kind == 1 ? scatterer(2) : fissile(2, 2.3, 1.4);
            use(p, data);
            for (auto& m : p.materials) m.aden *= 0.4;
            for (auto& n : data.nuclides) nn.push_back(n.name);
            p.group = kind ? 1 + (kind == 1) : 1;
          } else {
            cont::Nuclide a, b;
            a.name = "a"; a.awr = 4; a.capture = {{1e-11, 1e-8, 1e-3, 20}, {3, 2, 1, 0.5}, 293.6}; a.scatter = cont::flat(6);
            b.name = "b"; b.awr = 5; b.capture = {{1e-10, 1e-7, 2}, {0.5, 1, 2}, 600}; b.fission = cont::flat(0.5); b.nubar = cont::flat(1.8);
            p.nuclides_text = cont::xml(dir, fmt("u%zu", bs.size()), {a, b});
            p.materials = {{"m0", 0.15, {{"a", 0.4}, {"b", 1.2}}}, {"m1", 0.1, {{"a", 1}}}};
            p.energy_text = "1e-6";
            nn = {"a", "b"};
          }
          tally_all(p, kind < 3);
          p.tracking = tr;
          p.pos = {0.31, 0.07, 0.11};
          p.dir = {1, 0.2, -0.2};
          if (iso) p.dirkind = "isotropic";
          p.histories = 30;
          p.threads = 1 + iso;
          bs.push_back({p, fmt("%s kind %d %s isotropic %d", g.name.c_str(), kind, tr.c_str(), iso), nn});
        }
  run.cases("undisturbed", bs.size(), [&](size_t i) {
    const Base& b = bs[i];
    auto solve = [&](const Problem& p) { mini::Doc d(ref::xml(p)); FixedSource fs{d.root}; return results::parse(fs.Solve().to_string()); };
    const auto plain = solve(b.p);
    const auto& nn = b.nuc;
    Perts all{{"one", nn[0]}, {"two", nn.back()}, {"alpha", nn[0]}};
    std::map<std::string, results::Block> seen;  // sensitivity name + nuclide -> result
    std::vector<int> ord{0, 1, 2};
    do {
      for (int mask = 0; mask < 8; mask++)        // perturbations listed
        for (int sens = 0; sens < 8; sens++) {    // sensitivities asked for at tally k: rotated mask
          if (sens & ~mask) continue;
          Problem p = b.p;
          for (int q : ord) if (mask >> q & 1) p.perturbations.push_back(all[q]);
          int k = 0;
          for (auto& t : p.tallies) {
            for (int q : ord) if ((sens >> q & 1) && ((k + q) % 3 || run.thorough)) t.sens.push_back(all[q].first);
            k++;
          }
          const auto r = solve(p);
          run.count("runs");
          run.count("transitions", p.histories);
          run.count("traces_validated_against_impl", p.histories);
          size_t at = 0;
          for (size_t t = 0; t < p.tallies.size(); t++) {
            auto what = [&] { std::string s = b.what + fmt(" order %d%d%d perturbations %d sensitivities %d: ", ord[0], ord[1], ord[2], mask, sens); return s; };
            if (at >= r.size() || r[at].name != plain[t].name || r[at].bins != plain[t].bins || r[at].mean != plain[t].mean || r[at].dev != plain[t].dev)
              { run.violation(what(), "the tally " + plain[t].name + " differs from that of the calculation without sensitivities"); return; }
            at++;
            for (auto& q : p.tallies[t].sens) {
              const std::string name = plain[t].name + "::" + q;
              if (at >= r.size() || r[at].name != name || r[at].mean.size() != plain[t].mean.size()) { run.violation(what(), "no sensitivity " + name); return; }
              auto it = seen.emplace(name, r[at]).first;
              if (!alike(it->second, r[at])) { run.violation(what(), "the sensitivity " + name + " depends on which others are there"); return; }
              // scored where the tally scores: no sensitivity without a score
              for (size_t j = 0; j < r[at].mean.size(); j++) if (plain[t].mean[j] == 0 && r[at].mean[j] != 0) { run.violation(what(), "sensitivity " + name + " in a bin without scores"); return; }
              at++;
            }
          }
          if (at != r.size()) { run.violation(b.what, "more results than estimators and sensitivities"); return; }
          run.count("states");
        }
    } while (std::next_permutation(ord.begin(), ord.end()));
    // the same nuclide gives the same sensitivity under two names
    for (auto& t : b.p.tallies) {
      auto x = seen.find(t.name + "::one"), y = seen.find(t.name + "::alpha");
      if (x != seen.end() && y != seen.end() && !alike(x->second, y->second)) run.violation(b.what, "two perturbations of one nuclide give different sensitivities of " + t.name);
    }
    if (i % 11 == 0) run.sample(b.what);
  }, [&](size_t i) { return bs[i].what; }, 300);

  // ---- many: the sensitivity to one of up to dozens of perturbations is that to it alone
  struct Many { size_t base; int n, N; };
  std::vector<Many> ms;
  for (size_t b = 0; b < bs.size(); b++) {
    const bool few = bs[b].what.find("isotropic 0") != std::string::npos;
    for (int n : run.thorough ? std::vector<int>{4, 5, 8, 9, 16, 17, 33, 70} : few ? std::vector<int>{4, 9, 33} : std::vector<int>{5, 17}) ms.push_back({b, n, run.thorough ? 400 : 60});
    ms.push_back({b, 3, run.thorough ? 60000 : 6000});
  }
  run.cases("many", ms.size(), [&](size_t i) {
    const Base& b = bs[ms[i].base];
    Problem p = b.p;
    p.histories = ms[i].N;
    auto solve = [&](const Problem& q) {
      mini::Doc d(ref::xml(q));
      FixedSource fs{d.root};
      run.count("runs"); run.count("transitions", q.histories); run.count("traces_validated_against_impl", q.histories);
      return results::parse(fs.Solve().to_string());
    };
    // alone: one calculation per nuclide
    std::map<std::string, std::vector<results::Block>> alone;
    for (auto& n : b.nuc) {
      Problem q = p;
      q.perturbations = {{"alone", n}};
      for (auto& t : q.tallies) t.sens = {"alone"};
      alone[n] = solve(q);
    }
    const auto plain = solve(p);
    std::map<std::string, std::string> nuclide;
    for (int k = 0; k < ms[i].n; k++) { p.perturbations.push_back({ref::label((int)(i % ref::kSchemes), k), b.nuc[(k * 7 + k / 3) % b.nuc.size()]}); nuclide[p.perturbations.back().first] = p.perturbations.back().second; }
    int turn = 0;
    for (auto& t : p.tallies) {
      // all of them, from a different one on at every tally; every other tally in the opposite order
      for (int k = 0; k < ms[i].n; k++) t.sens.push_back(p.perturbations[(k + turn * 3) % ms[i].n].first);
      if (turn++ % 2) std::reverse(t.sens.begin(), t.sens.end());
    }
    const auto r = solve(p);
    const std::string what = b.what + fmt(", %d perturbations, %d histories", ms[i].n, ms[i].N);
    size_t at = 0;
    for (size_t t = 0; t < p.tallies.size(); t++) {
      if (at >= r.size() || r[at].name != plain[t].name || r[at].bins != plain[t].bins || r[at].mean != plain[t].mean || r[at].dev != plain[t].dev) { run.violation(what, "the tally " + plain[t].name + " differs from that of the calculation without sensitivities"); return; }
      at++;
      for (auto& q : p.tallies[t].sens) {
        if (at >= r.size() || r[at].name != plain[t].name + "::" + q) { run.violation(what, "no sensitivity to " + q); return; }
        const auto& one = alone.at(nuclide.at(q))[2 * t + 1];
        if (!alike(r[at], one)) { run.violation(what, "the sensitivity " + r[at].name + " differs from that of a calculation with this perturbation alone"); return; }
        at++;
      }
    }
    if (at != r.size()) run.violation(what, "more results than estimators and sensitivities");
    run.count("states");
    if (i % 31 == 0) run.sample(what);
  }, [&](size_t i) { return bs[ms[i].base].what + fmt(", %d perturbations", ms[i].n); }, 300);

  // ---- walks: nothing but streaming, and where and with which energy it happens, matters
  struct Walk { std::string tracking, energy, field; bool multigroup; };
  std::vector<Walk> ws;
  for (std::string tr : {"surface", "cell delta"})
    for (bool mg : {false, true}) {
      ws.push_back({tr, mg ? "1" : "1e-6", "", mg});
      if (!mg && tr == "cell delta") ws.push_back({tr, "1e-6", "<temperature><linear><bounds lower=\"100\" upper=\"900\"/><intercept b=\"500\"/><gradient x=\"60\" y=\"5\" z=\"-3\"/></linear></temperature>", mg});
    }
  auto wd = [&](size_t i) { return ws[i].tracking + (ws[i].multigroup ? " multigroup" : " continuous") + (ws[i].field.empty() ? "" : " gradient"); };
  run.cases("walks", ws.size(), [&](size_t i) {
    const Walk& w = ws[i];
    Problem p = slab({0, 1.3, 2.9}, {"m0", "m1"});
    if (w.multigroup) {
      Data data = fissile(2, 1.5, 1);
      use(p, data);
      p.materials = {{"m0", 0.7, {{data.nuclides[0].name, 1}}}, {"m1", 1.3, {{data.nuclides[0].name, 0.4}, {data.nuclides.back().name, 2}}}};
      p.perturbations = {{"one", data.nuclides[0].name}, {"two", data.nuclides.back().name}};
      p.group = 1;
    } else {
      cont::Nuclide a, b;
      a.name = "a"; a.awr = 4; a.capture = {{1e-11, 1e-8, 1e-3, 20}, {3, 2, 1, 0.5}, 293.6}; a.scatter = cont::flat(6);
      b.name = "b"; b.awr = 5; b.capture = {{1e-10, 1e-7, 2}, {0.5, 1, 2}, 600}; b.fission = cont::flat(0.5); b.nubar = cont::flat(1.8);
      p.nuclides_text = cont::xml(dir, fmt("w%zu", i), {a, b});
      p.materials = {{"m0", 0.15, {{"b", 0.4}}}, {"m1", 0.1, {{"a", 1}, {"b", 0.3}}}};
      p.energy_text = w.energy;
      p.perturbations = {{"one", "a"}, {"two", "b"}};
    }
    p.temperature_text = w.field;
    if (!w.field.empty()) for (auto& c : p.cells) c.temperature = "";
    p.tracking = w.tracking;
    p.tallies = {{"right", "p1", {}, {1, 0, 0}, {}, {"two", "one"}}};
    mini::Doc doc(ref::xml(p));
    Probe pr{doc.root};
    Particle::transport_method = pr.transport_method;
    const Perturbation* q[2] = {&pr.perturbations.FindPerturbationByName("one"), &pr.perturbations.FindPerturbationByName("two")};
    const std::string nuc[2] = {p.perturbations[0].second, p.perturbations[1].second};
    const V places[2] = {{0.4, 0.1, -0.2}, {2.1, -0.3, 0.5}};
    const ::Cell* cells[2] = {&pr.world.FindCellContaining(point(places[0])), &pr.world.FindCellContaining(point(places[1]))};
    auto contains = [&](int cell, const std::string& n) { for (auto& x : p.materials[cell].nuc) if (x.first == n) return true; return false; };
    const Particle::Event events[] = {Particle::Event::scatter, Particle::Event::virtual_collision, Particle::Event::surface_cross, Particle::Event::birth};
    auto energy = [&](int k) { return w.multigroup ? Energy{Group(1 + k)} : Energy{ContinuousEnergy{k ? 0.3 : 1e-6}}; };
    // 0-2: stream; 3-6: event; 7, 8: cell; 9, 10: energy; 11: a scatter
    const int ops = 12, depth = run.thorough ? 6 : 5;
    struct State { Particle p; double want[2]; int cell, e; };
    std::string trace;
    bool bad = false;
    std::function<void(const State&, int)> go = [&](const State& s, int left) {
      if (bad) return;
      run.count("states");
      if (!left) { run.count("paths"); return; }
      for (int o = 0; o < ops && !bad; o++) {
        State t = s;
        const size_t len = trace.size();
        if (o < 3) {
          const double d = o == 0 ? 0.25 : o == 1 ? 1e-3 : 0.8;
          Particle fresh{t.p.GetPosition(), t.p.GetDirection(), t.p.GetEnergy(), t.p.GetType(), 77};
          fresh.SetCell(*cells[t.cell]);
          for (int k = 0; k < 2; k++) if (contains(t.cell, nuc[k])) t.want[k] += 1 / (w.tracking == "surface" ? cells[t.cell]->material->GetMicroscopicTotal(fresh) : cells[t.cell]->material->GetMicroscopicMajorant(fresh)) - d;
          t.p.Stream(d);
          trace += fmt(" stream(%g)", d);
        } else if (o < 7) { t.p.event = events[o - 3]; trace += fmt(" event(%d)", (int)events[o - 3]); if (o == 5) t.p.current_surface = pr.world.FindSurfaceByName("p1"); }
        else if (o < 9) { t.cell = o - 7; t.p.SetCell(*cells[t.cell]); trace += fmt(" cell(%d)", t.cell); }
        else if (o < 11) { t.e = o - 9; t.p.SetEnergy(energy(t.e)); trace += fmt(" energy(%d)", t.e); }
        else { t.p.Scatter(0.3, energy(t.e)); t.p.event = Particle::Event::scatter; trace += " scatter"; }
        run.count("transitions");
        run.count("traces_validated_against_impl");
        for (int k = 0; k < 2 && !bad; k++)
          if (std::fabs(t.p.GetIndirectEffect(q[k]) - t.want[k]) > 1e-11 * (1 + std::fabs(t.want[k]))) { run.violation(wd(i) + ":" + trace, fmt("the effect of a perturbation of %s is %.15g, its streams make %.15g", nuc[k].c_str(), t.p.GetIndirectEffect(q[k]), t.want[k])); bad = true; }
        go(t, left - 1);
        trace.resize(len);
      }
    };
    for (int start = 0; start < 2; start++) {
      Particle q0{point(places[start]), direction({0.6, 0, 0.8}), energy(0), Particle::Type::neutron, 5};
      q0.SetCell(*cells[start]);
      q0.SetPerturbations(pr.perturbations);
      go({q0, {0, 0}, start, 0}, depth);
    }
    run.count("problems");
    run.sample(wd(i));
  }, wd, 300);
  return run.finish();
}
