// Explores every choice sequence of a fixed-source calculation of the code under test and collects the distribution of
// its results; compares it with the distribution of the reference model.
#pragma once
#include "inline_threads.hpp"
#include "refmc.hpp"
#include "vh.hpp"
#include "Estimator.hpp"
#include "FixedSource.hpp"

namespace explore {
struct Result { ref::Dist dist; uint64_t paths = 0, truncated = 0, draws = 0; bool capped = false; };

inline std::vector<double> sens_of(const EstimatorSet& s, const ref::Problem& p) {
  // sensitivities appear in the printed results only: "NAME::PERT\n====\n\nmean\n----\nv, v, \n\nstd dev..."
  std::vector<double> r;
  const std::string t = s.to_string();
  for (auto& ta : p.tallies)
    for (auto& q : ta.sens) {
      const std::string head = "\n" + ta.name + "::" + q + "\n";
      size_t at = t.find(head);
      if (at == std::string::npos) { r.push_back(NAN); continue; }
      at = t.find("mean\n----\n", at);
      const char* c = t.c_str() + at + 10;
      for (size_t i = 0; i < ref::bins_of(ta); i++) { char* e; r.push_back(std::strtod(c, &e) * p.histories); c = e + 2; }
    }
  return r;
}
inline std::vector<int> counts_of(const EstimatorSet& s, const ref::Problem& p) {
  std::vector<int> key;
  for (auto& t : p.tallies) {
    const auto& e = s.FindEstimatorByName(t.name);
    for (size_t i = 0; i < ref::bins_of(t); i++) key.push_back((int)std::lround(e.GetScore(i, 1.0)));
  }
  return key;
}
inline Result implementation(const ref::Problem& p, int K, size_t limit, uint64_t cap = 0) {
  Result r;
  mini::Doc d(ref::xml(p));
  FixedSource fs{d.root};
  choice::Tree t;
  t.K = K;
  t.limit = limit;
  bool sens = false;
  for (auto& ta : p.tallies) sens = sens || !ta.sens.empty();
  do {
    t.start();
    verif::tree() = &t;
    const EstimatorSet s = fs.Solve();
    verif::tree() = nullptr;
    r.paths++;
    r.draws += t.pos;
    r.truncated += t.truncated;
    ref::add(r.dist, counts_of(s, p), t.weight(), sens ? sens_of(s, p) : std::vector<double>{});
    if (cap && r.paths >= cap) { r.capped = true; break; }
  } while (t.next());
  return r;
}
inline ref::V direction_of_code(choice::Tree& t) {
  RNG rng{1};
  choice::Tree* const before = verif::tree();
  verif::tree() = &t;
  const Direction d{rng};
  verif::tree() = before;
  return {d.Dot(Point{1, 0, 0}), d.Dot(Point{0, 1, 0}), d.Dot(Point{0, 0, 1})};
}
inline Result reference(const ref::Problem& p, int K, size_t limit, uint64_t cap = 0) {
  ref::Sim::sampler() = direction_of_code;
  Result r;
  ref::Sim sim(p);
  choice::Tree t;
  t.K = K;
  t.limit = limit;
  do {
    t.start();
    ref::Outcome o, total;
    total.counts.assign(sim.nb, 0);
    total.sens.assign(sim.ns, 0);
    for (int h = 0; h < p.histories; h++) {
      sim.history(t, o);
      for (size_t i = 0; i < sim.nb; i++) total.counts[i] += o.counts[i];
      for (size_t i = 0; i < sim.ns; i++) total.sens[i] += o.sens[i];
    }
    r.paths++;
    r.draws += t.pos;
    r.truncated += t.truncated;
    ref::add(r.dist, total.counts, t.weight(), total.sens);
    if (cap && r.paths >= cap) { r.capped = true; break; }
  } while (t.next());
  return r;
}
// One case: both distributions must be equal. Returns false when the problem is too large for the cap.
inline bool compare(vh::Run& run, const ref::Problem& p, const std::string& what, int K, size_t limit, uint64_t cap) {
  const Result want = reference(p, K, limit, cap);
  if (want.capped || want.truncated) { run.count("problems_over_cap"); return false; }
  const Result got = implementation(p, K, limit + 20, 32 * want.paths + 1000);
  run.count("states", got.dist.size());
  run.count("transitions", got.draws);
  run.count("paths", got.paths);
  run.count("traces_validated_against_impl", got.paths);
  run.count("problems");
  const std::string diff = ref::differ(got.dist, want.dist, 1e-9);
  if (got.capped) run.violation(what, vh::fmt("more than %llu histories exist where %llu are expected; ", (unsigned long long)got.paths, (unsigned long long)want.paths) + diff + " " + ref::xml(p));
  else if (!diff.empty()) run.violation(what, diff + " " + ref::xml(p));
  return true;
}
inline void declare(vh::Run& run) { run.declare({"states", "transitions", "paths", "traces_validated_against_impl", "problems", "problems_over_cap"}); silence(); }
}  // namespace explore
