// Tally statistics: mean and standard deviation of per-history totals; merging and copying.
//  ops:   every sequence, up to a depth, of opening, scoring, committing and abandoning histories on several tallies sets,
//         merging sets and replacing a set by a copy of another, against a model that keeps the list of histories.
//  merge: every assignment of histories to workers and every order and grouping of merging them.
//  many:  many tallies, bins, sensitivities, scores and histories, by rule.
//  runs:  whole calculations against the totals of the single histories they consist of.
#include "explore.hpp"
#include "probe.hpp"
#include "problems.hpp"
#include "results.hpp"
#include <algorithm>
#include <optional>
using namespace vh;
using namespace prob;

namespace {
#if defined(__SANITIZE_ADDRESS__)
constexpr bool asan = true;
#else
constexpr bool asan = false;
#endif

// what a particle of the alphabet scores: index into the flattened (tally, bin), effects of the two perturbations
struct Kind { int surface; V dir; Particle::Event ev; double d; int at; double e0 = 0, e1 = 0; };
using History = std::vector<int>;                    // kinds scored, in order
using Set = std::vector<History>;                    // committed histories
struct Expect { std::vector<long double> s1, s2; };  // per printed block and bin

struct Bench {
  Problem p;
  std::vector<Kind> kinds;
  std::unique_ptr<mini::Doc> doc;
  std::unique_ptr<Probe> pr;
  std::vector<Particle> ps;
  std::vector<size_t> width;  // bins per printed block: tally 0, its sensitivities, tally 1, ...
  double N;
  Bench(int histories) : N(histories) {
    p = slab({0, 1, 2}, {"m0", "m1"});
    Reacts a, b;
    a.capture = {3, 4}; b.capture = {1, 1};  // a mean free path of 1/2: effects that cancel exactly, or vanish
    p.G = 2;
    p.nuclides = {nuclide("a", a), nuclide("b", b)};
    p.materials = {{"m0", 1, {{"a", 1}, {"b", 1}}}, {"m1", 1, {{"b", 1}}}};
    p.perturbations = {{"qa", "a"}, {"qb", "b"}};
    p.tallies = {{"left", "p0", {-0.5, 0.5}, {1, 0, 0}, {}, {"qb", "qa"}}, {"mid", "p1", {}, {1, 0, 0}, {}, {}}, {"again", "p0", {}, {1, 0, 0}, {}, {"qa"}}};
    p.pos = {0.5, 0, 0};
    p.histories = histories;
    kinds = {{0, {1, 0, 0}, Particle::Event::surface_cross, 0.25, 2}, {0, {-1, 0.1, 0}, Particle::Event::leak, 0.75, 0}, {0, {0.1, 1, 0}, Particle::Event::surface_cross, 0.5, 1},
             {1, {1, 1, 0}, Particle::Event::surface_cross, 0.5, 0}, {0, {1, 0, 0}, Particle::Event::scatter, 0.3, -1}, {2, {1, 0, 0}, Particle::Event::leak, 0.3, -1},
             {0, {1, 0.2, 0}, Particle::Event::leak, 3, 2}};
    doc = std::make_unique<mini::Doc>(ref::xml(p));
    pr = std::make_unique<Probe>(doc->root);
    Particle::transport_method = pr->transport_method;
    for (auto& k : kinds) {
      Particle q{point({0.5, 0, 0}), direction(k.dir), Energy{Group{1}}, Particle::Type::neutron, 1};
      q.SetCell(pr->world.FindCellContaining(q.GetPosition()));
      q.SetPerturbations(pr->perturbations);
      q.Stream(k.d);
      q.event = k.ev;
      q.current_surface = pr->world.FindSurfaceByName("p" + std::to_string(k.surface));
      k.e0 = k.e1 = 0.5 - k.d;
      ps.push_back(q);
    }
    width = {3, 3, 3, 1, 1, 1};
  }
  // scores of one history per printed block and bin
  void add(Expect& e, const History& h) const {
    std::vector<double> x(12, 0);
    for (int i : h) {
      const Kind& k = kinds[i];
      if (k.at < 0) continue;
      if (k.surface == 0) { x[k.at] += 1; x[3 + k.at] += k.e1; x[6 + k.at] += k.e0; x[10] += 1; x[11] += k.e0; }
      else x[9] += 1;
    }
    e.s1.resize(12); e.s2.resize(12);
    for (int i = 0; i < 12; i++) { e.s1[i] += x[i]; e.s2[i] += (long double)x[i] * x[i]; }
  }
  std::string check(const EstimatorSet& s, const Set& model) const {
    Expect e;
    e.s1.resize(12); e.s2.resize(12);
    for (auto& h : model) add(e, h);
    const auto b = results::parse(s.to_string());
    const char* names[] = {"left", "left::qb", "left::qa", "mid", "again", "again::qa"};
    if (b.size() != 6) return fmt("%zu result blocks", b.size());
    size_t at = 0;
    for (int k = 0; k < 6; k++) {
      if (b[k].name != names[k]) return "block " + b[k].name + " where " + names[k] + " belongs";
      if (b[k].mean.size() != width[k] || b[k].dev.size() != width[k]) return b[k].name + fmt(": %zu means, %zu deviations", b[k].mean.size(), b[k].dev.size());
      for (size_t i = 0; i < width[k]; i++, at++)
        if (!results::moments(b[k].mean[i], b[k].dev[i], e.s1[at], e.s2[at], N))
          return b[k].name + fmt(" bin %zu: mean %.7g, deviation %.7g; the totals of the histories sum to %.7Lg, their squares to %.7Lg, of %g histories", i, b[k].mean[i], b[k].dev[i], e.s1[at], e.s2[at], N);
    }
    for (int k : {0, 3, 4}) {
      const auto& est = s.FindEstimatorByName(names[k]);
      const size_t off = k == 0 ? 0 : k == 3 ? 9 : 10;
      for (size_t i = 0; i < width[k]; i++)
        if (est.GetScore(i, 1) != (double)e.s1[off + i] || !close_to(est.GetScore(i, N), (double)e.s1[off + i] / N, 1e-14)) return fmt("%s bin %zu: sum of scores %.17g, expected %.17Lg", names[k], i, est.GetScore(i, 1), e.s1[off + i]);
    }
    return "";
  }
};

struct Op { char what; int i, k; };
std::string show(const std::vector<Op>& o) {
  std::string r;
  for (auto& x : o) r += (r.empty() ? "" : " ") + (x.what == 'o' ? fmt("open%d", x.i) : x.what == 's' ? fmt("score%d:%d", x.i, x.k) : x.what == 'c' ? fmt("commit%d", x.i) : x.what == 'a' ? fmt("drop%d", x.i) : x.what == 'm' ? fmt("%d+=%d", x.i, x.k) : fmt("%d=copy(%d)", x.i, x.k));
  return r;
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  explore::declare(run);
  run.declare({"operation_sequences", "merges", "runs"});

  // ---- ops
  const int depth = run.thorough ? (asan ? 6 : 7) : (asan ? 4 : 6), sets = 2;
  Bench bench(5);
  // model of which operations apply
  struct State { std::vector<Set> set; std::vector<bool> open; std::vector<History> cur; };
  auto ops_of = [&](const State& s) {
    std::vector<Op> r;
    for (int i = 0; i < sets; i++) {
      if (!s.open[i]) r.push_back({'o', i, 0});
      else {
        for (int k = 0; k < 5; k++) r.push_back({'s', i, k});
        r.push_back({'c', i, 0});
        r.push_back({'a', i, 0});
      }
      for (int j = 0; j < sets; j++) {
        if (s.open[i] || s.open[j]) continue;
        if (i != j) r.push_back({'m', i, j});
        r.push_back({'y', i, j});
      }
    }
    return r;
  };
  auto apply = [&](State& s, const Op& o) {
    if (o.what == 'o') { s.open[o.i] = true; s.cur[o.i].clear(); }
    if (o.what == 's') s.cur[o.i].push_back(o.k);
    if (o.what == 'c') { s.set[o.i].push_back(s.cur[o.i]); s.open[o.i] = false; }
    if (o.what == 'a') s.open[o.i] = false;
    if (o.what == 'm') s.set[o.i].insert(s.set[o.i].end(), s.set[o.k].begin(), s.set[o.k].end());
    if (o.what == 'y') s.set[o.i] = Set(s.set[o.k]);
  };
  auto play = [&](const std::vector<Op>& seq, State& m) -> std::string {
    std::vector<std::unique_ptr<EstimatorSet>> s;
    std::vector<std::optional<EstimatorSetProxy>> px(sets);
    for (int i = 0; i < sets; i++) s.push_back(std::make_unique<EstimatorSet>(bench.pr->init_estimator_set));
    m.set.assign(sets, {}); m.open.assign(sets, false); m.cur.assign(sets, {});
    for (auto& o : seq) {
      apply(m, o);
      if (o.what == 'o') px[o.i].emplace(s[o.i]->GetProxy());
      if (o.what == 's') px[o.i]->Score(bench.ps[o.k]);
      if (o.what == 'c') { px[o.i]->CommitHistory(); px[o.i].reset(); }
      if (o.what == 'a') px[o.i].reset();
      if (o.what == 'm') *s[o.i] += *s[o.k];
      if (o.what == 'y') { auto c = std::make_unique<EstimatorSet>(*s[o.k]); s[o.i] = std::move(c); }
    }
    for (int i = 0; i < sets; i++) {
      const std::string e = bench.check(*s[i], m.set[i]);
      if (!e.empty()) return fmt("set %d: ", i) + e;
    }
    return bench.check(bench.pr->init_estimator_set, {});
  };
  // cases: the first three operations; the rest is walked within
  std::vector<std::vector<Op>> heads;
  {
    State s0;
    s0.set.assign(sets, {}); s0.open.assign(sets, false); s0.cur.assign(sets, {});
    std::vector<std::pair<std::vector<Op>, State>> level{{{}, s0}};
    for (int d = 0; d < 3; d++) {
      decltype(level) next;
      for (auto& [seq, st] : level) for (auto& o : ops_of(st)) { auto q = seq; q.push_back(o); State t = st; apply(t, o); next.push_back({q, t}); }
      level = next;
    }
    for (auto& l : level) heads.push_back(l.first);
  }
  run.cases("ops", heads.size(), [&](size_t i) {
    std::vector<Op> seq = heads[i];
    std::function<bool()> walk = [&]() {
      State m;
      const std::string e = play(seq, m);
      run.count("operation_sequences");
      run.count("transitions", seq.size());
      run.count("traces_validated_against_impl");
      if (!e.empty()) { run.violation("operations " + show(seq), e); return false; }
      run.count("states");
      if ((int)seq.size() < depth)
        for (auto& o : ops_of(m)) {
          seq.push_back(o);
          const bool ok = walk();
          seq.pop_back();
          if (!ok) return false;
        }
      return true;
    };
    walk();
    if (i % 37 == 0) run.sample(show(heads[i]));
  }, [&](size_t i) { return show(heads[i]); }, 300);

  // ---- merge
  const std::vector<History> pool{{0}, {0, 0, 6}, {1, 3, 0, 2}, {}, {4, 5}, {3, 3, 3, 1, 1}, {6, 2, 2, 0, 1}};
  const int M = asan ? 4 : run.thorough ? 7 : 5, W = 3;
  size_t assigns = 1;
  for (int i = 0; i < M; i++) assigns *= W;
  run.cases("merge", assigns, [&](size_t a) {
    std::vector<Set> w(W);
    { size_t x = a; for (int i = 0; i < M; i++, x /= W) w[x % W].push_back(pool[(i + a) % pool.size()]); }
    Set all;
    for (auto& s : w) all.insert(all.end(), s.begin(), s.end());
    Bench b(M);
    auto fill = [&](EstimatorSet& s, const Set& h) {
      for (auto& x : h) { auto px = s.GetProxy(); for (int k : x) px.Score(b.ps[k]); px.CommitHistory(); }
    };
    auto whole = b.pr->init_estimator_set;
    fill(whole, all);
    auto verify = [&](const EstimatorSet& s, const Set& m, const std::string& how) {
      const std::string e = b.check(s, m);
      run.count("merges"); run.count("transitions"); run.count("traces_validated_against_impl");
      if (!e.empty()) run.violation(fmt("assignment %zu %s", a, how.c_str()), e);
      return e.empty();
    };
    if (!verify(whole, all, "unsplit")) return;
    std::vector<int> ord{0, 1, 2};
    do {
      for (int grouping = 0; grouping < 3; grouping++) {
        std::vector<EstimatorSet> part;
        part.reserve(W);
        for (int i = 0; i < W; i++) { part.push_back(b.pr->init_estimator_set); fill(part.back(), w[ord[i]]); }
        EstimatorSet base = b.pr->init_estimator_set;
        if (grouping == 0) { for (auto& x : part) base += x; }
        else if (grouping == 1) { part[1] += part[2]; part[0] += part[1]; base += part[0]; }
        else { EstimatorSet c{part[0]}; c += part[1]; base += part[2]; base += c; if (!verify(part[0], w[ord[0]], "copied from")) return; }
        if (!verify(base, all, fmt("order %d%d%d grouping %d", ord[0], ord[1], ord[2], grouping))) return;
        if (!verify(b.pr->init_estimator_set, {}, "template")) return;
      }
    } while (std::next_permutation(ord.begin(), ord.end()));
    run.count("states");
  }, [&](size_t i) { return fmt("assignment %zu", i); });

  // ---- many: many tallies, bins, sensitivities, scores and histories
  struct Many { int tallies, sens, bins, histories, scheme; double N; };
  std::vector<Many> ms;
  {
    int k = 0;
    for (int t : {1, 2, 3, 5, 9, 17, 40}) for (int s : {0, 1, 2, 4, 7, 13}) for (int b : {1, 3, 9, 70, 300}) {
      if (t * (s + 1) * b > (asan ? 3000 : 20000)) continue;
      const int h = t * (s + 1) * b > 1500 ? 12 : (k % 3 == 0 ? 100 : k % 3 == 1 ? 257 : 1);
      ms.push_back({t, s, b, h, k++ % ref::kSchemes, k % 4 == 0 ? 1e6 : (double)h});
    }
    if (!asan) for (int h : {4096, 70000, 300000}) { ms.push_back({1, 1, 3, h, 0, (double)h}); ms.push_back({2, 2, 9, h / 4, 3, (double)(h / 4)}); ms.push_back({1, 0, 1, h + 1, 1, (double)(h + 1)}); }
  }
  run.cases("many", ms.size(), [&](size_t i) {
    const Many& m = ms[i];
    Problem p = slab({0, 1, 2, 3}, {"m0", "m1"});
    Reacts a;
    a.capture = {2, 4};
    p.G = 2;
    // perturbation j is of nuclide j, the odd ones of which are not in m0
    p.materials = {{"m0", 1, {{"n0", 1}}}, {"m1", 1, {{"n0", 1}}}};
    p.nuclides = {nuclide("n0", a)};
    for (int j = 1; j < m.sens; j++) { p.nuclides.push_back(nuclide("n" + std::to_string(j), a)); p.materials[j % 2].nuc.push_back({"n" + std::to_string(j), 1}); }
    for (int j = 0; j < m.sens; j++) p.perturbations.push_back({"q" + std::to_string(j), "n" + std::to_string(j)});
    for (int t = 0; t < m.tallies; t++) {
      ref::Tally x;
      x.name = "t" + std::to_string(t);
      x.surface = "p" + std::to_string(t * 3 % 4);
      for (int b = 1; b < m.bins; b++) x.cosb.push_back(-1 + 2.0 * b / m.bins);
      x.ref = {1, 0, 0};
      for (int j = 0; j < m.sens; j++) x.sens.push_back("q" + std::to_string(t % 2 ? m.sens - 1 - j : (j + t) % m.sens));
      p.tallies.push_back(x);
    }
    p.pos = {0.5, 0, 0};
    p.histories = (long long)m.N;
    const auto plain = p;
    p = ref::rename(p, m.scheme);
    mini::Doc d(ref::xml(p));
    Probe pr{d.root};
    Particle::transport_method = pr.transport_method;
    // particles in one of the two materials, with a cosine in the middle of a bin
    struct K { Particle p; int surface, bin; bool first; double e; };
    std::vector<K> ks;
    const int nk = 23;
    for (int k = 0; k < nk; k++) {
      const int bin = (k * 37 + k / 3) % m.bins, surface = k % 4;
      const double mu = -1 + (2.0 * bin + 1) / m.bins;
      const V x{k % 2 ? 1.5 : 0.5, 0, 0};
      Particle q{point(x), direction({mu, std::sqrt(1 - mu * mu), 0}), Energy{Group{1}}, Particle::Type::neutron, 1};
      q.SetCell(pr.world.FindCellContaining(q.GetPosition()));
      q.SetPerturbations(pr.perturbations);
      const double length = 0.1 + 0.07 * k;
      q.Stream(length);
      q.event = k % 5 == 3 ? Particle::Event::leak : k % 7 == 6 ? Particle::Event::scatter : Particle::Event::surface_cross;
      q.current_surface = pr.world.FindSurfaceByName(p.surfaces[surface].name);
      ks.push_back({q, k % 7 == 6 && k % 5 != 3 ? -1 : surface, bin, k % 2 == 0, 1 / 2.0 - length});
    }
    auto in = [&](int nuclide, bool first) { return nuclide == 0 || (nuclide % 2 == 0) == first; };
    // history h: which particles score
    auto scored = [&](long h) {
      std::vector<int> r;
      const uint64_t x = vh::mix(h + 1000 * i);
      const int n = h % 11 == 3 ? 0 : h == 5 ? 300 : 1 + (int)(x % 4);
      for (int k = 0; k < n; k++) r.push_back((int)((x >> 8) % nk + 5 * k) % nk);
      return r;
    };
    const size_t W = 1 + i % 4;
    std::vector<EstimatorSet> parts(W, pr.init_estimator_set);
    EstimatorSet all = pr.init_estimator_set;
    // blocks: per tally its bins, then those of its sensitivities
    const size_t per = (size_t)m.bins * (m.sens + 1), total = per * m.tallies;
    std::vector<long double> s1(total, 0), s2(total, 0);
    std::vector<double> x(total, 0);
    std::vector<size_t> hit;
    for (long h = 0; h < m.histories; h++) {
      auto proxy = parts[h % W].GetProxy();
      hit.clear();
      for (int k : scored(h)) {
        proxy.Score(ks[k].p);
        if (ks[k].surface < 0) continue;
        for (int t = 0; t < m.tallies; t++) {
          if (t * 3 % 4 != ks[k].surface) continue;
          auto add = [&](size_t at, double v) { if (x[at] == 0) hit.push_back(at); x[at] += v; };
          add(t * per + ks[k].bin, 1);
          for (int j = 0; j < m.sens; j++) {
            const int q = t % 2 ? m.sens - 1 - j : (j + t) % m.sens;
            if (in(q, ks[k].first)) add(t * per + (size_t)m.bins * (j + 1) + ks[k].bin, ks[k].e);
          }
        }
      }
      proxy.CommitHistory();
      std::sort(hit.begin(), hit.end());
      hit.erase(std::unique(hit.begin(), hit.end()), hit.end());
      for (size_t at : hit) { s1[at] += x[at]; s2[at] += (long double)x[at] * x[at]; x[at] = 0; }
    }
    for (auto& s : parts) all += s;
    const EstimatorSet copy{all};
    const auto b = results::parse(copy.to_string());
    const std::string what = fmt("%d tallies, %d sensitivities, %d bins, %d histories, names %d", m.tallies, m.sens, m.bins, m.histories, m.scheme);
    if (b.size() != (size_t)m.tallies * (m.sens + 1)) { run.violation(what, fmt("%zu blocks of results", b.size())); return; }
    for (int t = 0, at = 0; t < m.tallies; t++)
      for (int j = 0; j <= m.sens; j++, at++) {
        if (b[at].mean.size() != (size_t)m.bins || b[at].dev.size() != (size_t)m.bins) { run.violation(what, "block " + b[at].name + " has the wrong number of bins"); return; }
        for (int k = 0; k < m.bins; k++) {
          const size_t y = t * per + (size_t)m.bins * j + k;
          if (!results::moments(b[at].mean[k], b[at].dev[k], s1[y], s2[y], m.N)) { run.violation(what, "block " + b[at].name + fmt(" bin %d: mean %.7g, deviation %.7g; the totals of the histories sum to %.9Lg, their squares to %.9Lg, of %g histories", k, b[at].mean[k], b[at].dev[k], s1[y], s2[y], m.N)); return; }
          if (j == 0 && copy.FindEstimatorByName(p.tallies[t].name).GetScore(k, 1) != (double)s1[y]) { run.violation(what, fmt("tally %d bin %d: sum of scores", t, k)); return; }
        }
      }
    run.count("operation_sequences");
    run.count("states");
    run.count("transitions", m.histories);
    run.count("traces_validated_against_impl", m.histories);
    if (i % 23 == 0) run.sample(what);
  }, [&](size_t i) { return fmt("%d tallies, %d sensitivities, %d bins, %d histories", ms[i].tallies, ms[i].sens, ms[i].bins, ms[i].histories); }, 300);

  // ---- runs
  struct R { Problem p; std::string what; };
  std::vector<R> rs;
  {
    std::vector<std::pair<std::string, Problem>> geos{{"slab", slab({0, 1.3, 2.9}, {"m0", "m1"})}, {"shells", shells({1.1, 2.3}, {"m0", "m1"}, {0.2, 0.1, -0.3})}, {"can", can(0.8, {0.3, 0.1, 0.2}, 1.9, -1.7, 2.1, "m0", "m1")}};
    for (auto& [gn, g] : geos)
      for (int kind = 0; kind < 3; kind++)
        for (int binned = 0; binned < 2; binned++)
          for (int N : {1, 2, 3, 7, 40})
            for (int th : {1, 3}) {
              Problem p = g;
              use(p, kind == 0 ? absorber(2) : kind == 1 ? scatterer(2) : fissile(2, 2.5, 1.5));
              for (auto& m : p.materials) m.aden *= kind == 2 ? 0.4 : 0.7;
              tally_all(p, binned);
              p.perturbations = {{"q", p.nuclides[0].name}};
              for (auto& t : p.tallies) t.sens = {"q"};
              p.pos = {0.31, 0.07, 0.11};
              p.dirkind = binned ? "isotropic" : "constant";
              p.dir = {1, 0.1, -0.2};
              p.histories = N;
              p.threads = th;
              p.seed = 11 + N;
              rs.push_back({p, fmt("%s kind %d binned %d histories %d threads %d", gn.c_str(), kind, binned, N, th)});
            }
  }
  if (!asan)
    run.cases("runs", rs.size(), [&](size_t i) {
      Problem p = rs[i].p;
      mini::Doc d(ref::xml(p));
      FixedSource fs{d.root};
      const auto got = results::parse(fs.Solve().to_string());
      // single histories
      std::vector<std::vector<std::vector<double>>> x;  // history, block, bin
      for (int h = 0; h < rs[i].p.histories; h++) {
        p.histories = 1;
        p.threads = 1;
        p.seed = rs[i].p.seed + h;
        mini::Doc d1(ref::xml(p));
        FixedSource f1{d1.root};
        const auto b = results::parse(f1.Solve().to_string());
        x.push_back({});
        for (auto& k : b) x.back().push_back(k.mean);
        if (b.size() != got.size()) { run.violation(rs[i].what, "the number of results varies"); return; }
      }
      const double N = rs[i].p.histories;
      for (size_t k = 0; k < got.size(); k++)
        for (size_t j = 0; j < got[k].mean.size(); j++) {
          long double s1 = 0, s2 = 0, sa = 0;
          for (auto& h : x) { s1 += h[k][j]; s2 += (long double)h[k][j] * h[k][j]; sa += std::fabs(h[k][j]); }
          // the single totals are printed with seven digits
          const double want = (double)(s1 / N), var = (double)std::max(s2 - s1 * s1 / N, 0.0L), dev = std::sqrt(var) / N;
          if (std::fabs(got[k].mean[j] - want) > 2e-6 * (double)sa / N + 1e-300 || std::fabs(got[k].dev[j] - dev) > 1e-5 * dev + 3e-3 * std::sqrt((double)s2) / N * (dev < 1e-2 * std::sqrt((double)s2) / N) + 1e-300)
            { run.violation(rs[i].what, got[k].name + fmt(" bin %zu: mean %.7g, deviation %.7g; the histories one by one give %.7g and %.7g", j, got[k].mean[j], got[k].dev[j], want, dev)); return; }
        }
      run.count("runs");
      run.count("transitions", N);
      run.count("traces_validated_against_impl", N);
      run.count("states");
      if (i % 41 == 0) run.sample(rs[i].what);
    }, [&](size_t i) { return rs[i].what; });
  return run.finish();
}
