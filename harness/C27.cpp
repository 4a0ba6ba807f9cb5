// Whatever was asked before.  A zoo of problems that share names, places and energies but differ in data is asked every
// kind of question; the reference for each question is its answer in a process that was never asked anything else.
//  pairs:    every ordered pair of questions, across objects and problems.
//  triples:  every ordered triple of a selection of the questions of one kind.
//  moving:   every sequence of steps of one particle up to a depth: what is asked about it afterwards is what a particle
//            that was put there directly is told.
//  rebuilt:  every ordered pair of problems and kind of question: asked of a problem after another one was asked and destroyed.
#include "Bank.hpp"
#include "FixedSource.hpp"
#include "lowest.hpp"
#include "Source.hpp"
#include "probe.hpp"
#include "problems.hpp"
#include "vh.hpp"
#include "xs.hpp"
#include <algorithm>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
using namespace vh;
using namespace prob;

namespace {
// what a question is answered: numbers (compared up to rounding) and texts (compared exactly)
struct Answer {
  static constexpr int kMax = 20;
  int n = 0;
  double v[kMax];
  uint64_t text = 0;
  void operator<<(double x) { if (n < kMax) v[n++] = x; }
  void operator<<(ref::V x) { *this << x.x; *this << x.y; *this << x.z; }
  void operator<<(const std::string& s) { text = vh::hash(s, text + 7); }
  bool same(const Answer& o) const {
    if (n != o.n || text != o.text) return false;
    for (int i = 0; i < n; i++) if (v[i] != o.v[i] && !(std::isnan(v[i]) && std::isnan(o.v[i])) && !close_to(v[i], o.v[i])) return false;
    return true;
  }
  std::string say() const { std::string s = text ? fmt("text %llx ", (unsigned long long)text) : ""; for (int i = 0; i < n; i++) s += fmt("%.12g ", v[i]); return s; }
};
const std::vector<V> kPlaces{{-5.1, 0.3, 0.2}, {-0.7, 0.4, 0.1}, {0.4, -0.3, 0.25}, {1.7, 0.2, -0.6}, {3.1, -1.2, 0.4}, {0.9, 2.2, 0.3}};
const std::vector<V> kDirections{ref::unit({1, 0.2, -0.1}), ref::unit({-0.7, 0.5, 0.3}), ref::unit({0.1, -0.9, 0.6})};

struct Entry { std::string name; Problem p; bool multigroup; std::vector<std::string> nuclides; };
Particle::Type type_of(int t) { return t ? Particle::Type::photon : Particle::Type::neutron; }

// a problem in memory
struct World_ {
  const Entry& e;
  mini::Doc doc;
  Probe probe;
  Source source;
  std::vector<std::unique_ptr<FixedSource>> solvers;
  std::vector<std::shared_ptr<const ::Nuclide>> nuclides;
  std::vector<std::shared_ptr<const CSGSurface>> surfaces;
  static std::string text(Problem p, long long seed) { p.seed = seed; p.histories = 2; return ref::xml(p); }
  explicit World_(const Entry& e) : e{e}, doc{text(e.p, 1)}, probe{doc.root}, source{doc.root.child("problemtype").child("fixedsource")} {
    for (long long s : {5, 77}) { mini::Doc d(text(e.p, s)); solvers.push_back(std::make_unique<FixedSource>(d.root)); }
    for (auto& n : e.nuclides) nuclides.push_back(probe.world.FindNuclideByName(n));
    for (auto& s : e.p.surfaces) surfaces.push_back(probe.world.FindSurfaceByName(s.name));
  }
};
struct Question { int problem, kind; std::string what, key; std::function<void(const World_&, Answer&)> ask; };
enum Kind { find, nearest, distance, inside, temperature, total, majorant, interact, material, choose, emit_, score, solve_, kinds };
const char* const kKind[] = {"cell", "nearest surface", "distance", "side", "temperature", "total", "majorant", "collision", "material", "choice of nuclide", "source", "score", "solution"};

Particle at(const World_& w, V x, V d, double e, int type, unsigned seed) {
  Particle p{point(x), direction(d), w.e.multigroup ? Energy{Group((unsigned)e)} : Energy{ContinuousEnergy{e}}, type_of(type), seed};
  p.SetCell(w.probe.world.FindCellContaining(p.GetPosition()));
  return p;
}
void tell(Answer& a, const Particle& p) {
  a << (double)(int)p.event; a << vec(p.GetPosition()); a << vec(p.GetDirection()); a << energy_of(p); a << (double)(int)p.GetType();
}
void tell_bank(Answer& a, Particle& p) {
  Bank b;
  p.MoveSecondariesTo(b);
  double n = 0;
  while (!b.empty()) { if (++n < 3) { a << energy_of(b.back()); a << vec(b.back().GetDirection()).x; } b.pop_back(); }
  a << n;
}
std::vector<double> energies(const Entry& e) { if (e.multigroup) { std::vector<double> r; for (int g = 1; g <= e.p.G; g++) r.push_back(g); return r; } return {2e-9, 3e-8, 2e-7, 1e-5, 1e-2}; }

std::vector<Question> questions(const std::vector<Entry>& zoo, const std::vector<std::unique_ptr<World_>>& worlds) {
  std::vector<Question> q;
  for (int k = 0; k < (int)zoo.size(); k++) {
    const Entry& e = zoo[k];
    auto add = [&](int kind, const std::string& what, std::function<void(const World_&, Answer&)> f) { q.push_back({k, kind, e.name + ": " + kKind[kind] + " " + what, what, std::move(f)}); };
    auto where = [](V x) { return fmt("(%g, %g, %g)", x.x, x.y, x.z); };
    for (auto& x : kPlaces) {
      add(find, where(x), [x](const World_& w, Answer& a) { const auto& c = w.probe.world.FindCellContaining(point(x)); a << c.name; a << (c.material ? c.material->name : std::string("-")); });
      for (auto& d : kDirections)
        add(nearest, where(x) + " along " + where(d), [x, d](const World_& w, Answer& a) { const auto [s, l] = w.probe.world.FindCellContaining(point(x)).NearestSurface(point(x), direction(d)); a << l; a << (s ? s->name : std::string("-")); });
      for (size_t s = 0; s < e.p.surfaces.size(); s++) {
        for (auto& d : kDirections) add(distance, e.p.surfaces[s].name + " from " + where(x) + " along " + where(d), [x, d, s](const World_& w, Answer& a) { a << w.surfaces[s]->Distance(point(x), direction(d)); });
        add(inside, e.p.surfaces[s].name + " " + where(x), [x, s](const World_& w, Answer& a) { a << (double)w.surfaces[s]->Contains(point(x)); });
      }
      const auto& cell = worlds[k]->e.p;
      bool isvoid = true;
      for (auto& c : cell.cells) { bool in = true; for (auto& [n, s] : c.s) in = in && ((cell.surf(n).f(x) < 0) == (s < 0)); if (in) { isvoid = c.material.empty(); break; } }
      if (isvoid) continue;
      add(temperature, where(x), [x](const World_& w, Answer& a) { const auto& c = w.probe.world.FindCellContaining(point(x)); a << c.temperature->at(point(x)); a << c.temperature->upper_bound; a << c.temperature->lower_bound; });
      for (int t = 0; t < (e.p.particles == "neutron" ? 1 : 2); t++)
        for (double en : energies(e)) {
          const std::string h = where(x) + fmt(" energy %g%s", en, t ? " photon" : "");
          const V d = kDirections[0];
          for (size_t n = 0; n < e.nuclides.size(); n++) {
            add(total, e.nuclides[n] + " " + h, [=](const World_& w, Answer& a) { a << w.nuclides[n]->GetTotal(at(w, x, d, en, t, 1)); });
            add(majorant, e.nuclides[n] + " " + h, [=](const World_& w, Answer& a) { a << w.nuclides[n]->GetMajorant(at(w, x, d, en, t, 1)); });
            for (unsigned seed : {3u, 1000u})
              add(interact, e.nuclides[n] + " " + h + fmt(" seed %u", seed), [=](const World_& w, Answer& a) { Particle p = at(w, x, d, en, t, seed); w.nuclides[n]->Interact(p); tell(a, p); tell_bank(a, p); a << (double)p.rng(); });
          }
          add(material, h, [=](const World_& w, Answer& a) { const Particle p = at(w, x, d, en, t, 1); a << p.GetCell().material->GetMicroscopicTotal(p); a << p.GetCell().material->GetMicroscopicMajorant(p); });
          for (unsigned seed : {3u, 90000u, 2000000u}) add(choose, h + fmt(" seed %u", seed), [=](const World_& w, Answer& a) { Particle p = at(w, x, d, en, t, seed); a << p.SampleNuclide().name; a << (double)p.rng(); });
        }
    }
    for (unsigned seed : {1u, 2u, 700u}) add(emit_, fmt("seed %u", seed), [=](const World_& w, Answer& a) { Particle p = w.source.Sample(seed); tell(a, p); a << (double)p.rng(); });
    for (size_t s = 0; s < e.p.surfaces.size(); s++)
      for (size_t d = 0; d < kDirections.size(); d++)
        add(score, e.p.surfaces[s].name + fmt(" direction %zu", d), [=](const World_& w, Answer& a) {
          EstimatorSet set{w.probe.init_estimator_set};
          auto proxy = set.GetProxy();
          Particle p = at(w, kPlaces[s % kPlaces.size()], kDirections[d], energies(w.e)[d % energies(w.e).size()], 0, 1);
          p.SetPerturbations(w.probe.perturbations);
          p.current_surface = w.surfaces[s];
          p.event = Particle::Event::surface_cross;
          proxy.Score(p);
          proxy.CommitHistory();
          a << set.to_string();
        });
    for (size_t s = 0; s < 2; s++) add(solve_, fmt("number %zu", s), [s](const World_& w, Answer& a) { a << w.solvers[s]->Solve().to_string(); });
  }
  return q;
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "pairs", "triples", "sequences", "rebuilt", "questions", "traces_validated_against_impl"});
  std::cout.rdbuf(nullptr);
  const std::string dir = run.scratch;

  std::vector<Entry> zoo;
  auto finish = [](Problem& p, const std::vector<std::string>& sens) {
    tally_all(p, true);
    if (!p.nuclides_text.empty()) for (auto& t : p.tallies) t.eb = {1e-9, 3e-8, 1e-6, 1e-3};
    for (auto& n : sens) p.perturbations.push_back({"d-" + n, n});
    for (auto& t : p.tallies) for (auto& q : p.perturbations) t.sens.push_back(q.first);
    p.pos = {0.41, -0.29, 0.24};
    p.dirkind = "isotropic";
  };
  for (int v = 0; v < 3; v++) {
    Problem p = v == 0 ? slab({-3, 0, 1.3, 4}, {"m0", "m1"}) : v == 1 ? slab({-2, 0.6, 2.5, 5}, {"m1", "m0"}) : can(1.2, {0.2, -0.1, 0.1}, 2, -1.5, 4, "m0", "m1");
    p.G = v == 2 ? 3 : 2;
    p.particles = v == 2 ? "neutron" : "neutron photon";
    for (int n = 0; n < 3; n++) {
      ref::Nuclide x;
      x.name = std::string(1, "abc"[n]);
      for (int t = 0; t < (v == 2 ? 1 : 2); t++) {
        Reacts r;
        for (int g = 0; g < p.G; g++) r.capture.push_back(0.3 + 0.2 * n + 0.37 * g + 0.11 * v + 0.05 * t);
        for (int o = 0; o < p.G; o++) for (int g = 0; g < p.G; g++) r.scatter.push_back(o < g ? 0.0 : 0.1 + 0.3 * (n + 1) * (o + 1 + v) / (g + 2 + t));
        if (n == 1 && t == 0) for (int g = 0; g < p.G; g++) { r.fxs.push_back(0.4 + 0.3 * g + 0.1 * v); r.nubar.push_back(0.9 + 0.25 * v); }
        if (n == 1 && t == 0) for (int o = 0; o < p.G; o++) for (int g = 0; g < p.G; g++) r.chi.push_back(o == p.G - 1 ? 0.7 + 0.1 * v : 0.2);
        x.by[t ? "photon" : "neutron"] = r;
      }
      p.nuclides.push_back(x);
    }
    p.materials = {{"m0", 0.5 + 0.2 * v, {{"a", 1}, {"b", 0.4 + v}}}, {"m1", 0.3, {{"c", 1.0 + v}, {"b", 0.2}, {"a", 0.5}}}};
    if (v == 1) p.tracking = "cell delta";
    finish(p, {"a", "b"});
    zoo.push_back({fmt("groups %d", v), p, true, {"a", "b", "c"}});
  }
  tsl::Data law[2] = {tsl::plausible(1, {280, 400, 900}, {1e-10, 1e-9, 1e-8, 1e-7, 4e-7}, 4, {2, 3}, {3, 2}), tsl::plausible(1, {250, 500, 800}, {2e-10, 2e-9, 1.5e-8, 1e-7, 5e-7}, 5, {3, 2}, {2, 2}, 3.0)};
  std::vector<xs::Nuclide> data[2];
  for (int k = 0; k < 2; k++) {
    const cont::Vec e{1e-11, 1e-9, 3.1e-8, 1e-6, 1e-2, 20};
    auto eval = [&](std::initializer_list<double> v, double T) { cont::Eval r{e, v, T}; for (auto& y : r.v) y *= 1 + 0.37 * k; return r; };
    std::vector<xs::Nuclide>& ns = data[k];
    ns.resize(5);
    ns[0].name = "a"; ns[0].awr = 1; ns[0].scatter = eval({30, 22, 20, 20.5, 10, 1}, 293.6); ns[0].capture = eval({5, 2, 1, 0.3, 0.1, 0.01}, 293.6); ns[0].law = &law[k];
    ns[1].name = "b"; ns[1].awr = 12 - k; ns[1].scatter = eval({6, 5, 5, 4.8, 4, 1}, 0); ns[1].capture = cont::flat(0.05 + 0.02 * k);
    ns[2].name = "c"; ns[2].awr = 235; ns[2].capture = eval({500, 100, 30, 10, 1, 0.2}, 293.6); ns[2].scatter = cont::flat(8, 600); ns[2].fission = eval({800, 200, 80, 30, 2, 1}, 293.6); ns[2].nubar = cont::flat(0.8);
    ns[3].name = "d"; ns[3].awr = 1; ns[3].scatter = eval({40, 25, 20, 19, 10, 1}, 293.6); ns[3].capture = cont::flat(0.5); ns[3].law = &law[1 - k];
    ns[4].name = "e"; ns[4].awr = 2; ns[4].scatter = ns[1].scatter; ns[4].total = eval({9, 8, 7, 6, 5, 4}, 450); ns[4].capture = cont::flat(1.0);
  }
  const std::string text[2] = {xs::xml(dir, "k0", data[0]), xs::xml(dir, "k1", data[1])};
  for (int v = 0; v < 3; v++) {
    Problem p = v == 0 ? slab({-3, 0, 1.3, 4}, {"m0", "m1"}) : v == 1 ? shells({1.1, 2.2, 5.5}, {"m1", "m0"}, {0.3, 0.1, -0.2}) : slab({-3, 0.6, 2.5, 4}, {"m1", "m0"});
    p.nuclides_text = text[v == 1];
    p.materials = {{"m0", 0.05 + 0.01 * v, {{"a", 1}, {"b", 0.4 + v}, {"e", 0.3}}}, {"m1", 0.03, {{"c", 0.2 + v}, {"d", 1.2}, {"a", 0.5}, {"e", 0.1}}}};
    if (v != 1) {
      p.tracking = "cell delta";
      p.temperature_text = v ? "<temperature><linear><bounds lower=\"150\" upper=\"1100\"/><intercept b=\"600\"/><gradient x=\"-40\" y=\"20\" z=\"10\"/></linear></temperature>"
                             : "<temperature><linear><bounds lower=\"200\" upper=\"1000\"/><intercept b=\"500\"/><gradient x=\"60\" y=\"20\" z=\"-10\"/></linear></temperature>";
      // m1 or m0 at several temperatures
      p.cells[1].temperature = v ? "700" : "350";
      p.cells[2].temperature = v ? "295" : "820";
    } else {
      p.temperature_text = "<temperature><constant c=\"450\"/></temperature>";
      p.cells[1].temperature = "700";
      p.cells[0].temperature = "300";
    }
    p.energy_text = "1e-6";
    finish(p, {"a", "e"});
    zoo.push_back({fmt("continuous %d", v), p, false, {"a", "b", "c", "d", "e"}});
  }
  // twins: alike to the letter but for numbers, so that they are likely to be given the places in memory of one another
  const size_t base = zoo.size();
  for (size_t i = 0; i < base; i++) {
    Entry e = zoo[i];
    e.name += " twin";
    for (auto& x : e.p.nuclides) for (auto& [t, r] : x.by) { for (auto& c : r.capture) c *= 2; for (auto& c : r.scatter) c *= 1.5; }
    if (!e.multigroup) { e.p.nuclides_text = text[i != 4]; if (e.p.temperature_text.find("intercept") != std::string::npos) e.p.temperature_text.replace(e.p.temperature_text.find("intercept b=\"") + 13, 1, "4"); }
    for (auto& c : e.p.cells) if (!c.temperature.empty()) c.temperature[0]++;
    for (auto& x : e.p.surfaces) { x.c.x += 0.0625; if (x.r) x.r += 0.0625; }
    zoo.push_back(e);
  }
  std::vector<std::unique_ptr<World_>> worlds;
  for (auto& e : zoo) worlds.push_back(std::make_unique<World_>(e));
  // other checks ask some kinds of question, of some of the problems
  std::string only, of;
  for (int i = 1; i + 1 < argc; i++) { if (argv[i] == std::string("--kinds")) only = std::string(",") + argv[i + 1] + ","; if (argv[i] == std::string("--of")) of = argv[i + 1]; }
  auto wanted = [&](int k) { return only.empty() || only.find(std::string(",") + kKind[k] + ",") != std::string::npos; };
  std::vector<Question> qs = questions(zoo, worlds);
  qs.erase(std::remove_if(qs.begin(), qs.end(), [&](const Question& q) { return !wanted(q.kind) || zoo[q.problem].name.compare(0, of.size(), of) != 0; }), qs.end());
  if (qs.empty()) { fprintf(stderr, "no questions\n"); return 97; }
  const size_t all_n = qs.size(), n = std::find_if(qs.begin(), qs.end(), [&](const Question& q) { return q.problem >= (int)base; }) - qs.begin();

  // the reference: each question in a process of its own
  struct Shared { Answer a; int done; };
  Shared* refs = static_cast<Shared*>(mmap(nullptr, all_n * sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  {
    std::atomic<size_t>* next = static_cast<std::atomic<size_t>*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (next) std::atomic<size_t>(0);
    std::vector<pid_t> ps;
    for (int w = 0; w < run.workers; w++) {
      const pid_t p = fork();
      if (p == 0) {
        for (size_t i; (i = next->fetch_add(1)) < all_n;) {
          const pid_t c = fork();
          if (c == 0) {
            alarm(20);
            const int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 2);
            new (&refs[i]) Shared();
            qs[i].ask(*worlds[qs[i].problem], refs[i].a);
            refs[i].done = 1;
            _exit(0);
          }
          int st;
          waitpid(c, &st, 0);
        }
        _exit(0);
      }
      ps.push_back(p);
    }
    for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
  }
  run.count("questions", all_n);
  for (size_t i = 0; i < all_n; i++)
    if (!refs[i].done) { run.violation("alone: " + qs[i].what, "asking this first ends the process or does not end"); run.finish(false); }
  for (size_t i = 0; i < all_n; i++) { uint64_t h = refs[i].a.text; for (int k = 0; k < refs[i].a.n; k++) h = vh::hash(refs[i].a.v[k], h + k); run.distinct("states", vh::hash(std::to_string(i), h)); }
  auto ask = [&](size_t i, const World_& w) { Answer a; qs[i].ask(w, a); return a; };

  run.cases("pairs", n, [&](size_t i) {
    int64_t done = 0;
    for (size_t j = 0; j < n; j++) {
      if (!run.thorough && (qs[i].kind == solve_ || qs[j].kind == solve_ || qs[j].kind == score) && (i + j) % 3 && qs[i].kind != qs[j].kind) continue;
      for (size_t k : {i, j}) {
        const Answer a = ask(k, *worlds[qs[k].problem]);
        if (!a.same(refs[k].a)) { run.violation(qs[k].what, fmt("around the questions [%s] and [%s]: %s; alone: %s", qs[i].what.c_str(), qs[j].what.c_str(), a.say().c_str(), refs[k].a.say().c_str())); run.count("transitions", done); return; }
      }
      done += 2;
    }
    run.count("transitions", done);
    run.count("pairs", done / 2);
    run.count("traces_validated_against_impl", done);
    if (i % 501 == 0) run.sample(qs[i].what + " before and after every other");
  }, [&](size_t i) { return qs[i].what; });

  // ---- triples of one kind
  struct Family { std::string name; std::vector<size_t> q; };
  std::vector<Family> groups;
  for (int k = 0; k < kinds; k++) {
    std::vector<size_t> all;
    for (size_t i = 0; i < n; i++) if (qs[i].kind == k) all.push_back(i);
    if (all.empty()) continue;
    const size_t most = k == solve_ ? (run.thorough ? 12 : 8) : k == score ? (run.thorough ? 40 : 16) : run.thorough ? 240 : 72;
    Family g{kKind[k], {}};
    // evenly spread, so that every problem is in it
    for (size_t i = 0; i < std::min(most, all.size()); i++) g.q.push_back(all[i * all.size() / std::min(most, all.size())]);
    groups.push_back(g);
  }
  std::vector<std::pair<size_t, size_t>> firsts;
  for (size_t g = 0; g < groups.size(); g++) for (size_t i = 0; i < groups[g].q.size(); i++) firsts.push_back({g, i});
  run.cases("triples", firsts.size(), [&](size_t c) {
    const auto& q = groups[firsts[c].first].q;
    int64_t done = 0;
    for (size_t j : q)
      for (size_t l : q) {
        for (size_t k : {q[firsts[c].second], j, l}) {
          const Answer a = ask(k, *worlds[qs[k].problem]);
          if (!a.same(refs[k].a)) { run.violation(qs[k].what, fmt("around [%s], [%s], [%s]: %s; alone: %s", qs[q[firsts[c].second]].what.c_str(), qs[j].what.c_str(), qs[l].what.c_str(), a.say().c_str(), refs[k].a.say().c_str())); return; }
        }
        done += 3;
      }
    run.count("transitions", done);
    run.count("triples", done / 3);
    run.count("traces_validated_against_impl", done);
  }, [&](size_t c) { return qs[groups[firsts[c].first].q[firsts[c].second]].what; });

  // ---- one particle that moves
  const int kSteps = 7, depth = run.thorough ? 6 : 5;
  size_t nseq = 1;
  for (int i = 0; i < depth; i++) nseq *= kSteps;
  const size_t per = 343;
  if (only.empty()) run.cases("moving", base * (nseq / per), [&](size_t c) {
    const World_& w = *worlds[c % base];
    const auto es = energies(w.e);
    auto look = [&](Particle& p, Answer& a, bool in) {
      const auto [s, l] = p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
      a << l; a << (s ? s->name : std::string("-"));
      if (!in) return;
      a << p.GetCell().material->GetMicroscopicTotal(p); a << p.GetCell().material->GetMicroscopicMajorant(p);
      for (auto& x : w.nuclides) { a << x->GetTotal(p); a << x->GetMajorant(p); }
      p.rng.seed(12345);
      a << p.SampleNuclide().name;
    };
    for (size_t s = (c / base) * per, end = s + per; s < end; s++) {
      const V start = kPlaces[2];
      Particle p = at(w, start, kDirections[0], es[0], 0, 1);
      std::string trail;
      size_t r = s;
      for (int i = 0; i < depth; i++, r /= kSteps) {
        const int step = (int)(r % kSteps);
        switch (step) {
        case 0: p.Stream(0.7); trail += "stream 0.7, "; break;
        case 1: p.Stream(1.9); trail += "stream 1.9, "; break;
        case 2: p.SetEnergy(w.e.multigroup ? Energy{::Group{2}} : Energy{ContinuousEnergy{es[2]}}); trail += "other energy, "; break;
        case 3: p.SetEnergy(w.e.multigroup ? Energy{::Group{1}} : Energy{ContinuousEnergy{es[0]}}); trail += "first energy, "; break;
        case 4: p.rng.seed(7); p.Scatter(-0.4, p.GetEnergy()); trail += "turn, "; break;
        case 5: p.rng.seed(9); p.Scatter(0.3, w.e.multigroup ? Energy{::Group{2}} : Energy{ContinuousEnergy{es[1]}}); trail += "scatter, "; break;
        case 6: { Particle q = p; Answer a; const auto& cell = w.probe.world.FindCellContaining(q.GetPosition()); q.SetCell(cell); look(q, a, (bool)cell.material); trail += "asked, "; p.SetCell(cell); Answer b; look(p, b, (bool)cell.material); if (!a.same(b)) { run.violation(w.e.name + ": " + trail, "a copy answers otherwise: " + a.say() + "/ " + b.say()); return; } break; }
        }
        const auto& cell = w.probe.world.FindCellContaining(p.GetPosition());
        p.SetCell(cell);
        if (i + 1 < depth && step != 6) continue;
        Particle f{p.GetPosition(), p.GetDirection(), p.GetEnergy(), p.GetType(), 1};
        f.SetCell(cell);
        Answer a, b;
        look(p, a, (bool)cell.material);
        look(f, b, (bool)cell.material);
        run.count("transitions");
        if (!a.same(b)) { run.violation(w.e.name + ": " + trail, "moved there: " + a.say() + "; put there: " + b.say()); return; }
      }
      run.count("sequences");
      run.count("traces_validated_against_impl");
    }
  }, [&](size_t c) { return zoo[c % base].name + fmt(" steps %zu and following", c / base * per); });

  // ---- problems that are no longer there: one is asked and destroyed, then the next; the last question to the one is, as far as
  // it can be asked there, the first to the next
  std::vector<std::array<int, 3>> after;
  for (int kind = 0; kind < kinds; kind++)
    for (int i = 0; i < (int)zoo.size(); i++)
      for (int j = 0; j < (int)zoo.size(); j++)
        if (wanted(kind) && i != j && (i % base == j % base || (i < (int)base && j < (int)base))) after.push_back({i, j, kind});
  run.cases("rebuilt", after.size(), [&](size_t c) {
    const auto [i, j, kind] = after[c];
    const bool twins = i % base == j % base;
    std::vector<size_t> of_i, of_j;
    for (size_t q = 0; q < all_n; q++) { if (qs[q].kind == kind && qs[q].problem == i) of_i.push_back(q); if (qs[q].kind == kind && qs[q].problem == j) of_j.push_back(q); }
    if (of_i.empty() || of_j.empty()) return;
    const size_t rounds = std::min(of_i.size(), size_t(run.thorough ? (twins ? 60 : 12) : twins ? 10 : 2));
    for (size_t round = 0; round < rounds; round++) {
      const size_t last = (round * of_i.size() / rounds + round) % of_i.size();
      size_t first = 0;
      for (size_t q = 0; q < of_j.size(); q++) if (qs[of_j[q]].key == qs[of_i[last]].key) first = q;
      for (int second = 0; second < 2; second++) {
        const World_ w{zoo[second ? j : i]};
        const auto& of = second ? of_j : of_i;
        const size_t most = std::min<size_t>(of.size(), kind == solve_ || kind == score ? 4 : run.thorough ? 100 : 30);
        for (size_t k = 0; k < most; k++) {
          const size_t q = of[second ? (first + k) % of.size() : (last + of.size() * 2 - most + 1 + k) % of.size()];
          const Answer a = ask(q, w);
          run.count("transitions");
          run.count("traces_validated_against_impl");
          if (!a.same(refs[q].a)) { run.violation(qs[q].what, fmt("after '%s' was asked and destroyed: %s; alone: %s", zoo[second ? i : j].name.c_str(), a.say().c_str(), refs[q].a.say().c_str())); return; }
        }
        run.count("rebuilt");
      }
    }
  }, [&](size_t c) { return zoo[after[c][0]].name + " then " + zoo[after[c][1]].name + ", " + kKind[after[c][2]]; });
  return run.finish();
}
