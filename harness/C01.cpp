// Every interleaving, up to a bound on preemptions, of the threads of a fixed-source calculation, on the real solver.
//  schedules: depth-first over the decisions of the scheduler; each execution's counts must equal those of one thread and of
//             the single histories; data races, deadlocks and endless executions are violations.
//  split:     numbers of histories and threads, all ways of sharing out with no preemption.
//  crowd:     up to 128 threads, with rules for when a thread gives way and to whom.
//  long:      batches long enough for progress reports.
#include "vh.hpp"
#include <sys/prctl.h>
#include "FixedSource.hpp"
#include "zoo.hpp"
#include "results.hpp"
#include "sched.hpp"
using namespace vh;

namespace {
struct Sums {
  std::vector<double> counts, squares, sens, sens_dev;
  std::string text;
};
Sums sums_of(const EstimatorSet& s, const ref::Problem& p) {
  Sums r;
  for (auto& t : p.tallies) for (size_t i = 0; i < ref::bins_of(t); i++) { r.counts.push_back(s.FindEstimatorByName(t.name).GetScore(i, 1)); }
  for (auto& b : results::parse(s.to_string()))
    if (b.name.find("::") != std::string::npos) for (size_t i = 0; i < b.mean.size(); i++) { r.sens.push_back(b.mean[i]); r.sens_dev.push_back(b.dev[i]); }
    else for (double v : b.dev) r.squares.push_back(v);
  return r;
}
struct Execution { Sums sums; std::vector<sched::Decision> trace; uint64_t points = 0, accesses = 0; int races = 0, threads = 0; std::string race; };
Execution execute(FixedSource& fs, const ref::Problem& p, const std::vector<sched::Decision>& prefix) {
  Execution e;
  sched::begin(prefix.data(), (int)prefix.size(), p.threads > 10 ? 140 : 12);
  {
    const EstimatorSet s = fs.Solve();
    sched::end();
    e.trace.assign(sched::trace, sched::trace + sched::decisions);
    e.points = sched::points;
    e.accesses = sched::accesses;
    e.threads = sched::threads_made;
    e.races = sched::races;
    e.race = sched::race_text;
    e.sums = sums_of(s, p);
  }
  return e;
}
Sums one_thread(ref::Problem p) { p.threads = 1; mini::Doc d(ref::xml(p)); FixedSource fs{d.root}; return sums_of(fs.Solve(), p); }
// empty when equal
std::string differ(const Sums& a, const Sums& b) {
  for (size_t i = 0; i < a.counts.size(); i++) if (a.counts[i] != b.counts[i]) return fmt("mean of tally bin %zu is %.17g instead of %.17g", i, a.counts[i], b.counts[i]);
  for (size_t i = 0; i < a.squares.size(); i++) if (std::fabs(a.squares[i] - b.squares[i]) > 3e-6 * std::fabs(b.squares[i])) return fmt("deviation of tally bin %zu is %.9g instead of %.9g", i, a.squares[i], b.squares[i]);
  double scale = 0;
  for (double v : b.sens) scale = std::max(scale, std::fabs(v));
  for (double v : b.sens_dev) scale = std::max(scale, std::fabs(v));
  for (size_t i = 0; i < a.sens.size(); i++) if (std::fabs(a.sens[i] - b.sens[i]) > 1e-6 * std::fabs(b.sens[i]) + 1e-7 * scale) return fmt("sensitivity bin %zu is %.9g instead of %.9g", i, a.sens[i], b.sens[i]);
  for (size_t i = 0; i < a.sens_dev.size(); i++) if (std::fabs(a.sens_dev[i] - b.sens_dev[i]) > 1e-5 * std::fabs(b.sens_dev[i]) + 1e-6 * scale) return fmt("deviation of sensitivity bin %zu is %.9g instead of %.9g", i, a.sens_dev[i], b.sens_dev[i]);
  return "";
}
std::string show(const std::vector<sched::Decision>& t) {
  std::string r;
  for (size_t i = 0; i < t.size(); i++) if (t[i].chosen) r += fmt(" %zu:%d/%d%s", i, t[i].chosen, t[i].n, t[i].free ? "" : "!");
  return r.empty() ? " none" : r;
}

struct Explorer {
  Run& run;
  const ref::Problem& p;
  std::string name;
  Sums want;
  std::function<Execution(const std::vector<sched::Decision>&)> go;
  size_t executions = 0, cap = 0;
  bool capped = false, bad = false, delays = false;
  int preemptions(const std::vector<sched::Decision>& t) const { int n = 0; for (auto& d : t) n += d.chosen > 0 && !d.free; return n; }
  // false: stop
  bool judge(const Execution& e) {
    run.count("schedules");
    run.count("transitions", e.trace.size());
    run.count("traces_validated_against_impl");
    run.count("scheduling_points", e.points);
    run.count("memory_accesses_checked", e.accesses);
    run.count("threads", e.threads);
    if (preemptions(e.trace) > 1) run.count("schedules_with_two_preemptions");
    std::string sig;
    for (auto& d : e.trace) sig.push_back('0' + d.chosen);
    run.distinct("states", hash(name + sig));
    const std::string d = differ(e.sums, want);
    if (!d.empty()) { run.violation(name + ": results", d + "; schedule:" + show(e.trace)); bad = true; return false; }
    if (e.races) { run.violation(name + ": race", e.race + "; schedule:" + show(e.trace)); bad = true; return false; }
    return true;
  }
  bool below(const std::vector<sched::Decision>& prefix, int budget, size_t slice, size_t slices) {
    if ((cap && executions >= cap) || (!run.thorough && run.elapsed() > 450)) { capped = true; return true; }
    executions++;
    const Execution e = go(prefix);
    for (size_t i = 0; i < prefix.size(); i++) if (i >= e.trace.size() || e.trace[i].n != prefix[i].n) { run.count("diverged_replays"); break; }
    if (prefix.size() || slice == 0) if (!judge(e)) return false;
    for (size_t j = prefix.size(); j < e.trace.size(); j++) {
      if (slices > 1 && j % slices != slice) continue;
      const int cost = e.trace[j].free && !delays ? 0 : 1;
      if (cost > budget) continue;
      for (int k = 1; k < e.trace[j].n; k++) {
        std::vector<sched::Decision> q(e.trace.begin(), e.trace.begin() + j + 1);
        q[j].chosen = (uint8_t)k;
        if (!below(q, budget - cost, 0, 1)) return false;
      }
    }
    return true;
  }
};
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  std::cout.rdbuf(nullptr);
  run.declare({"states", "transitions", "traces_validated_against_impl", "schedules", "schedules_with_two_preemptions", "scheduling_points", "memory_accesses_checked", "threads", "diverged_replays", "capped_cases"});
  const auto all = zoo::all(run.scratch);
  struct Config { int problem, T, N, bound; bool delays; };

  // ---- schedules
  std::vector<Config> cs;
  for (int b = 0; b < (int)all.size(); b++) {
    for (int T : {2, 3, 4}) for (int N : {0, 1, 2, 3, 4}) {
      const bool small = b == 0 || b == 1;
      if (run.thorough) {
        const int bound = T == 2 ? (small ? 3 : 2) : T == 3 ? (small ? 2 : 1) : 2;
        cs.push_back({b, T, N, bound, T == 4});
      } else {
        if (N > 2 && b > 2) continue;
        const int bound = T == 2 && (b == 0 || (small && N == 3) || (b == 2 && N == 2)) ? 2 : 1;
        cs.push_back({b, T, N, bound, T == 4 || (T == 3 && (b != 0 || N != 2))});
      }
    }
  }
  const size_t slices = 8;
  const size_t cap = run.thorough ? 60000 : 12000;
  run.cases("schedules", cs.size() * slices, [&](size_t i) {
    const Config c = cs[i / slices];
    ref::Problem p = all[c.problem].p;
    p.threads = c.T; p.histories = c.N; p.seed = 3 + c.N;
    Explorer x{run, p, all[c.problem].name + fmt(", %d threads, %d histories", c.T, c.N)};
    x.want = one_thread(p);
    mini::Doc d(ref::xml(p));
    FixedSource fs{d.root};
    x.go = [&](const std::vector<sched::Decision>& q) { return execute(fs, p, q); };
    x.cap = cap;
    x.delays = c.delays;
    if (!x.judge(x.go({}))) return;  // the first use of everything
    x.below({}, c.bound, i % slices, slices);
    if (x.capped) { run.count("capped_cases"); run.sample("capped: " + x.name); }
    if (i % 31 == 0) run.sample(x.name + fmt(": %zu schedules with up to %d %s in one of %zu slices", x.executions, c.bound, c.delays ? "delays" : "preemptions", slices));
  }, [&](size_t i) { const Config c = cs[i / slices]; return all[c.problem].name + fmt(", %d threads, %d histories", c.T, c.N); }, 600);

  // ---- fresh: every execution in a process of its own, so that first uses are interleaved too
  run.cases("fresh", all.size() * slices, [&](size_t i) {
    ref::Problem p = all[i / slices].p;
    p.threads = 2; p.histories = 2; p.seed = 11;
    const std::string name = all[i / slices].name + " for the first time";
    // what one execution says: decisions and a verdict
    auto forked = [&](const std::vector<sched::Decision>& q, bool first) {
      int fd[2];
      if (pipe(fd)) _exit(97);
      const pid_t pid = fork();
      if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(fd[0]);
        mini::Doc d(ref::xml(p));
        FixedSource fs{d.root};
        const Execution e = execute(fs, p, q);
        const std::string df = differ(e.sums, one_thread(p));
        std::string s = std::to_string(e.trace.size()) + "\n";
        s.append((const char*)e.trace.data(), e.trace.size() * sizeof(sched::Decision));
        s += df.empty() ? e.races ? e.race : "" : df;
        for (size_t at = 0; at < s.size();) { const ssize_t k = write(fd[1], s.data() + at, s.size() - at); if (k <= 0) _exit(1); at += k; }
        _exit(0);
      }
      close(fd[1]);
      std::string s;
      char b[4096];
      for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) s.append(b, k);
      close(fd[0]);
      int st;
      waitpid(pid, &st, 0);
      (void)first;
      std::pair<std::vector<sched::Decision>, std::string> r;
      if (!WIFEXITED(st) || WEXITSTATUS(st)) { r.second = "the process ends with " + std::string(WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "a failure"); return r; }
      const size_t nl = s.find('\n'), n = std::stoul(s);
      r.first.resize(n);
      memcpy(r.first.data(), s.data() + nl + 1, n * sizeof(sched::Decision));
      r.second = s.substr(nl + 1 + n * sizeof(sched::Decision));
      run.count("schedules");
      run.count("transitions", n);
      run.count("traces_validated_against_impl");
      return r;
    };
    const auto base = forked({}, true);
    if (!base.second.empty()) { run.violation(name, base.second + "; schedule: none"); return; }
    for (size_t j = i % slices; j < base.first.size(); j += slices)
      for (int k = 1; k < base.first[j].n; k++) {
        std::vector<sched::Decision> q(base.first.begin(), base.first.begin() + j + 1);
        q[j].chosen = (uint8_t)k;
        const auto r = forked(q, false);
        std::string sig;
        for (auto& d : r.first) sig.push_back('0' + d.chosen);
        run.distinct("states", hash(name + sig));
        if (!r.second.empty()) { run.violation(name, r.second + "; schedule:" + show(q)); return; }
      }
  }, [&](size_t i) { return all[i / slices].name + " for the first time"; }, 300);

  // ---- split: numbers of threads and histories
  const int maxT = run.thorough ? 10 : 7, maxN = run.thorough ? 40 : 16;
  run.cases("split", all.size() * maxT, [&](size_t i) {
    const int T = 1 + i % maxT;
    const auto& e = all[i / maxT];
    std::vector<Sums> one;
    ref::Problem p = e.p;
    for (int n = 0; n < maxN; n++) { p.histories = 1; p.seed = 21 + n; one.push_back(one_thread(p)); }
    p.seed = 21;
    for (int N = 0; N <= maxN; N++) {
      p.histories = N; p.threads = T;
      Explorer x{run, p, e.name + fmt(", %d threads, %d histories", T, N)};
      x.want = one_thread(p);
      for (size_t b = 0; b < x.want.counts.size(); b++) {
        double sum = 0;
        for (int n = 0; n < N; n++) sum += one[n].counts[b];
        if (sum != x.want.counts[b]) { run.violation(x.name, fmt("sum of scores of tally bin %zu is %.17g; the histories one by one give %.17g", b, x.want.counts[b], sum)); return; }
      }
      mini::Doc d(ref::xml(p));
      FixedSource fs{d.root};
      x.go = [&](const std::vector<sched::Decision>& q) { return execute(fs, p, q); };
      x.cap = run.thorough ? 3000 : 60;
      if (!x.below({}, 0, 0, 1)) return;
      if (T > 1 && N > 1) {
        // every thread gives way after k operations, for several k
        for (int k : {3, 7, 12, 13, 14, 20, 31, 50}) {
          const Execution base = x.go({});
          std::vector<sched::Decision> q;
          for (size_t j = 0; j < base.trace.size() * 3; j++) q.push_back({2, (uint8_t)((int)j % k == k - 1 ? 1 : 0), 0});
          if (!x.judge(x.go(q))) return;
        }
      }
    }
    if (i % 9 == 0) run.sample(e.name + fmt(", %d threads, up to %d histories", T, maxN));
  }, [&](size_t i) { return all[i / maxT].name + fmt(", %zu threads", 1 + i % maxT); }, 300);

  // ---- crowd: many threads; with a rule for the schedule in place of a search
  const std::vector<int> many = run.thorough ? std::vector<int>{8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129} : std::vector<int>{8, 9, 16, 17, 33, 64, 128};
  run.cases("crowd", all.size() * many.size(), [&](size_t i) {
    ref::Problem p = all[i / many.size()].p;
    p.threads = many[i % many.size()];
    p.seed = 31;
    if (p.threads > 20 && i / many.size() > 1 && !run.thorough) return;
    for (int N : run.thorough ? std::vector<int>{0, 1, p.threads - 1, p.threads, p.threads + 1, 3 * p.threads + 1} : std::vector<int>{1, p.threads - 1, p.threads + 1}) {
      p.histories = N;
      Explorer x{run, p, all[i / many.size()].name + fmt(", %d threads, %d histories", p.threads, N)};
      x.want = one_thread(p);
      mini::Doc d(ref::xml(p));
      FixedSource fs{d.root};
      // never give way unless blocked, taking the first or another of those that can go on; give way every k-th time
      // who -1: to each of them in turn
      const std::vector<std::pair<int, int>> rules = run.thorough ? std::vector<std::pair<int, int>>{{0, 0}, {0, 1}, {7, 2}, {p.threads - 1, 3}, {1, 13}, {0, 50}, {-1, 1}, {-1, 2}, {-1, 7}, {-1, 40}} : std::vector<std::pair<int, int>>{{0, 0}, {7, 3}, {p.threads - 1, 13}, {1, 50}, {-1, 1}, {-1, 6}};
      for (auto [who, k] : rules) {
        std::vector<sched::Decision> q;
        if (k) for (int j = 0; j < 20000; j++) q.push_back({200, (uint8_t)(j % k == k - 1 ? who < 0 ? 1 + j / k % p.threads : who == 0 ? 2 : who : 0), 0});
        if (!x.judge(execute(fs, p, q))) return;
      }
    }
    if (i % 9 == 0) run.sample(all[i / many.size()].name + fmt(", %d threads", p.threads));
  }, [&](size_t i) { return all[i / many.size()].name + fmt(", %d threads", many[i % many.size()]); }, 300);

  // ---- long
  run.cases("long", 4, [&](size_t i) {
    ref::Problem p = all[i % 2].p;
    p.histories = i < 2 ? 10000 : 20003; p.seed = 7; p.threads = 2 + i % 2;
    Explorer x{run, p, all[i % 2].name + fmt(", %d threads, %d histories", p.threads, (int)p.histories)};
    x.want = one_thread(p);
    mini::Doc d(ref::xml(p));
    FixedSource fs{d.root};
    for (int k : run.thorough ? std::vector<int>{0, 2, 3, 5, 101, 1009} : i < 2 ? std::vector<int>{0, 3, 101} : std::vector<int>{5}) {
      std::vector<sched::Decision> q;
      if (k) for (int j = 0; j < 60000; j++) q.push_back({2, (uint8_t)(j % k == k - 1 ? 1 : 0), 0});
      if (!x.judge(execute(fs, p, q))) return;
    }
    run.sample(x.name);
  }, [&](size_t i) { return fmt("long %zu", i); }, 200);
  return run.finish(run.value("capped_cases") == 0);
}
