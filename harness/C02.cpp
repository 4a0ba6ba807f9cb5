// A history depends on its own seed only.
//  batches:   for every starting seed of a window and every length, the sums of the batch equal those of the single histories.
//  repeat:    every sequence, up to a depth, of creating, solving and destroying drivers of several problems in one process;
//             each result equals that of a fresh process.
//  placement: the objects a problem consists of are laid out in memory in many systematically different orders.
//  files:     the same with drivers made from files, rewritten in between, some of which are rejected.
//  long:      batches long enough for progress reports, and up to a million histories.
#include "explore.hpp"
#include "results.hpp"
#include "zoo.hpp"
#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include <filesystem>
#include "Driver.hpp"
#include <new>
using namespace vh;

// ---- allocation: when a pattern is set, blocks are handed out of an arena; the pattern decides for each block whether it is
// taken from the lower or the upper end, and how far from the previous one.
namespace heap {
bool on = false;
char* base = nullptr;
constexpr size_t size = 1ull << 28;
size_t lo = 0, hi = size, n = 0;
unsigned pattern = 0, bits = 1;
void start(unsigned p, unsigned b) {
  if (!base) base = static_cast<char*>(aligned_alloc(4096, size));
  lo = 0; hi = size; n = 0; pattern = p; bits = b; on = true;
}
void* get(size_t s) {
  s = (s + 31) / 16 * 16;
  const bool up = pattern >> (n++ % bits) & 1;
  if (lo + s + 64 > hi) { fprintf(stderr, "arena full\n"); _exit(97); }
  if (up) { hi -= s; return base + hi; }
  void* r = base + lo;
  lo += s;
  return r;
}
bool mine(void* p) { return base && p >= base && p < base + size; }
}  // namespace heap
void* operator new(size_t s) { if (heap::on) return heap::get(s); if (void* p = malloc(s ? s : 1)) return p; throw std::bad_alloc(); }
void* operator new[](size_t s) { return operator new(s); }
void operator delete(void* p) noexcept { if (!heap::mine(p)) free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace {
std::string solve(const ref::Problem& p) { mini::Doc d(ref::xml(p)); FixedSource fs{d.root}; return fs.Solve().to_string(); }
// exact counts and printed sensitivities
struct Sums { std::vector<double> counts, sens; };
Sums sums(const ref::Problem& p) {
  mini::Doc d(ref::xml(p));
  FixedSource fs{d.root};
  const EstimatorSet s = fs.Solve();
  Sums r;
  for (auto& t : p.tallies) for (size_t i = 0; i < ref::bins_of(t); i++) r.counts.push_back(s.FindEstimatorByName(t.name).GetScore(i, 1));
  for (auto& b : results::parse(s.to_string())) if (b.name.find("::") != std::string::npos) for (double v : b.mean) r.sens.push_back(v * p.histories);
  return r;
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  explore::declare(run);
  run.declare({"batches", "driver_sequences", "placements"});
  const auto all = zoo::all(run.scratch);

  // ---- batches
  const int window = run.thorough ? 60 : 24;
  const std::vector<long long> firsts = run.thorough ? std::vector<long long>{0, 1, 17, 1000, 2147483640, 4294967290, 123456789012} : std::vector<long long>{0, 1, 1000, 2147483640, 4294967290, 123456789012};
  run.cases("batches", all.size() * firsts.size(), [&](size_t i) {
    ref::Problem p = all[i / firsts.size()].p;
    const long long s0 = firsts[i % firsts.size()];
    std::vector<Sums> one;
    for (int k = 0; k < window; k++) { p.seed = s0 + k; p.histories = 1; one.push_back(sums(p)); }
    std::vector<std::vector<double>> acc;  // prefix sums
    for (int a = 0; a < window; a++)
      for (int len = 1; a + len <= window; len++) {
        if (!run.thorough && len > 8 && a % 3) continue;
        p.seed = s0 + a;
        p.histories = len;
        p.threads = 1 + (a + len) % 3;
        const Sums got = sums(p);
        const std::string what = all[i / firsts.size()].name + fmt(" seed %lld histories %d", s0 + a, len);
        for (size_t b = 0; b < got.counts.size(); b++) {
          double want = 0;
          for (int k = a; k < a + len; k++) want += one[k].counts[b];
          if (got.counts[b] != want) { run.violation(what, fmt("tally bin %zu: sum of scores %.17g; the histories one by one give %.17g", b, got.counts[b], want)); return; }
        }
        for (size_t b = 0; b < got.sens.size(); b++) {
          double want = 0, scale = 0;
          for (int k = a; k < a + len; k++) want += one[k].sens[b], scale += std::fabs(one[k].sens[b]);
          if (std::fabs(got.sens[b] - want) > 3e-6 * scale) { run.violation(what, fmt("sensitivity bin %zu: sum %.9g; the histories one by one give %.9g", b, got.sens[b], want)); return; }
        }
        run.count("batches");
        run.count("transitions", len);
        run.count("traces_validated_against_impl", len);
      }
    run.count("states", window);
    run.sample(all[i / firsts.size()].name + fmt(" seeds from %lld", s0));
  }, [&](size_t i) { return all[i / firsts.size()].name + fmt(" seeds from %lld", firsts[i % firsts.size()]); }, 300);

  // ---- large batches: they equal the sum of their thousands, and those of their twenties
  struct Large { size_t e; long long s0; int n, chunk; };
  std::vector<Large> large;
  for (size_t e = 0; e < all.size(); e++) {
    large.push_back({e, 100 + (long long)e, 1100, 20});
    if (run.thorough || e % 5 == 0) large.push_back({e, 4294967296 - 1500, 3000, 20});
    if (run.thorough || e % 4 == 1) large.push_back({e, 7, 70000, 1000});
    if (run.thorough || e % 12 == 2) large.push_back({e, 2147483648 - 20000, 300000, 1000});
  }
  auto ld = [&](size_t i) { return all[large[i].e].name + fmt(" seed %lld histories %d in parts of %d", large[i].s0, large[i].n, large[i].chunk); };
  run.cases("large", large.size(), [&](size_t i) {
    const Large& l = large[i];
    ref::Problem p = all[l.e].p;
    std::vector<double> want, wants, scale;
    for (int a = 0; a < l.n; a += l.chunk) {
      p.seed = l.s0 + a;
      p.histories = std::min(l.chunk, l.n - a);
      p.threads = 1;
      const Sums x = sums(p);
      want.resize(x.counts.size()); wants.resize(x.sens.size()); scale.resize(x.sens.size());
      for (size_t b = 0; b < want.size(); b++) want[b] += x.counts[b];
      for (size_t b = 0; b < wants.size(); b++) wants[b] += x.sens[b], scale[b] += std::fabs(x.sens[b]);
    }
    p.seed = l.s0;
    p.histories = l.n;
    for (int threads : {1, 3}) {
      p.threads = threads;
      const Sums got = sums(p);
      for (size_t b = 0; b < want.size(); b++) if (got.counts[b] != want[b]) { run.violation(ld(i), fmt("tally bin %zu with %d threads: sum of scores %.17g; in parts %.17g", b, threads, got.counts[b], want[b])); return; }
      for (size_t b = 0; b < wants.size(); b++) if (std::fabs(got.sens[b] - wants[b]) > 1e-5 * scale[b]) { run.violation(ld(i), fmt("sensitivity bin %zu with %d threads: sum %.9g; in parts %.9g", b, threads, got.sens[b], wants[b])); return; }
      run.count("batches");
      run.count("transitions", l.n);
      run.count("traces_validated_against_impl", l.n);
    }
    run.count("states", l.n);
  }, ld, 300);

  // ---- repeat
  std::vector<zoo::Entry> some;
  for (auto& e : all) { some.push_back(e); some.back().p.histories = 6; some.back().p.threads = 1 + some.size() % 2; some.back().p.seed = 5; }
  // reference results, each from a process of its own
  auto forked = [](const std::function<std::string()>& f) {
    int fd[2];
    if (pipe(fd)) _exit(97);
    const pid_t pid = fork();
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[0]); const std::string s = f(); heap::on = false; size_t at = 0; while (at < s.size()) { const ssize_t k = write(fd[1], s.data() + at, s.size() - at); if (k <= 0) _exit(1); at += k; } _exit(0); }
    close(fd[1]);
    std::string s;
    char b[4096];
    for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) s.append(b, k);
    close(fd[0]);
    int st;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? s : fmt("the process ended with status %d", st);
  };
  std::vector<std::string> want;
  for (auto& e : some) want.push_back(forked([&] { return solve(e.p); }));
  // operations: create i into slot a/b, solve slot, destroy slot
  struct Op { int what, slot, k; };
  const int depth = run.thorough ? 7 : 6, slots = 2;
  std::vector<std::vector<int>> pairs;  // the problems used
  for (size_t a = 0; a < some.size(); a++) for (size_t b = a + 1; b < some.size(); b++) pairs.push_back({(int)a, (int)b});
  run.cases("repeat", pairs.size(), [&](size_t i) {
    std::vector<mini::Doc*> docs;
    for (int k : pairs[i]) docs.push_back(new mini::Doc(ref::xml(some[k].p)));
    std::vector<Op> seq;
    auto show = [&] {
      std::string s = some[pairs[i][0]].name + " / " + some[pairs[i][1]].name + ":";
      for (auto& o : seq) s += o.what == 0 ? fmt(" create%d:%d", o.slot, o.k) : o.what == 1 ? fmt(" solve%d", o.slot) : fmt(" destroy%d", o.slot);
      return s;
    };
    std::function<bool(std::vector<int>)> walk = [&](std::vector<int> st) -> bool {
      // a sequence that ends with solve is replayed; shorter ones are its prefixes
      if ((int)seq.size() == depth || (!seq.empty() && seq.back().what == 1)) {
        if (seq.back().what == 1) {
          std::vector<std::unique_ptr<FixedSource>> d(slots);
          std::vector<int> in(slots, -1);
          for (auto& o : seq) {
            if (o.what == 0) { d[o.slot] = std::make_unique<FixedSource>(docs[o.k]->root); in[o.slot] = o.k; }
            if (o.what == 1) {
              const std::string got = d[o.slot]->Solve().to_string();
              run.count("transitions", 6);
              run.count("traces_validated_against_impl", 6);
              if (got != want[pairs[i][in[o.slot]]]) { run.violation(show(), "the last result differs from that of a fresh process"); return false; }
            }
            if (o.what == 2) d[o.slot].reset();
          }
          run.count("driver_sequences");
          run.count("states");
        }
        if ((int)seq.size() == depth) return true;
      }
      for (int s = 0; s < slots; s++) {
        if (s == 1 && st[0] < 0 && st[1] < 0) continue;  // the slots are alike
        for (int k = 0; k < 2; k++) if (st[s] < 0) {
          auto t = st; t[s] = k;
          seq.push_back({0, s, k});
          const bool ok = walk(t);
          seq.pop_back();
          if (!ok) return false;
        }
        if (st[s] >= 0) {
          seq.push_back({1, s, 0});
          bool ok = walk(st);
          seq.pop_back();
          if (!ok) return false;
          auto t = st; t[s] = -1;
          seq.push_back({2, s, 0});
          ok = walk(t);
          seq.pop_back();
          if (!ok) return false;
        }
      }
      return true;
    };
    walk(std::vector<int>(slots, -1));
    if (i % 5 == 0) run.sample(some[pairs[i][0]].name + " / " + some[pairs[i][1]].name);
  }, [&](size_t i) { return some[pairs[i][0]].name + " / " + some[pairs[i][1]].name; }, 300);

  // ---- files: drivers made from documents on disk, among them documents that are rejected, and solved in any order
  struct Text { std::string name, text; int good; };
  const int fdepth = run.thorough ? 5 : 4;
  const std::vector<std::pair<int, int>> fpairs = run.thorough ? std::vector<std::pair<int, int>>{{0, 1}, {0, 2}, {1, 2}, {2, 3}, {3, 4}, {1, 4}, {4, 5}, {2, 5}} : std::vector<std::pair<int, int>>{{1, 2}, {3, 4}, {5, 2}};
  run.cases("files", fpairs.size() * 16, [&](size_t i) {
    const auto [a, b] = fpairs[i / 16];
    const std::string dir = run.scratch + fmt("/files-%zu", i);
    std::filesystem::create_directories(dir);
    for (auto n : {"minimc.xsd", "minimc_basictypes.xsd"}) std::filesystem::copy_file(mini::repo() + "/test/" + n, dir + "/" + n, std::filesystem::copy_options::overwrite_existing);
    std::vector<Text> t{{some[a].name, ref::xml(some[a].p), a}, {some[b].name, ref::xml(some[b].p), b}};
    // rejected ones: b (which tracks differently from a) with something wrong at the end, in the middle and in its form
    auto wrong = [&](const char* n, ref::Problem q) { t.push_back({n, ref::xml(q), -1}); };
    { auto q = some[b].p; q.tallies.back().surface = "nowhere"; wrong("tally of an unknown surface", q); }
    if (i / 8 % 2) { auto q = some[b].p; q.cells.back().material = "nothing"; wrong("unknown material", q); }
    else { std::string x = ref::xml(some[b].p); const size_t at = x.rfind("</"); t.push_back({"cut off", x.substr(0, at), -1}); }
    // two names for the files: the last document written under a name counts
    const std::vector<std::string> path{dir + "/one.xml", dir + "/two.xml"};
    struct Op { int what, k, f; };  // 0: document k to file f and a driver from it; 1: solve the k-th newest driver; 2: forget all drivers
    std::vector<Op> ops, seq;
    for (int k = 0; k < (int)t.size(); k++) ops.push_back({0, k, k % 2});
    ops.push_back({0, 1, 0});
    ops.push_back({1, 0, 0}); ops.push_back({1, 1, 0}); ops.push_back({2, 0, 0});
    size_t n = 0;
    std::function<bool(int, int)> walk = [&](int made, int good) -> bool {
      if (!seq.empty() && seq.back().what == 1) {
        if (n++ % 8 == i % 8) {
          std::vector<std::pair<std::unique_ptr<Driver>, int>> d;
          std::string what;
          for (auto& o : seq) {
            if (o.what == 0) {
              what += " create " + t[o.k].name + ";";
              mini::spit(path[o.f], t[o.k].text);
              bool made_it = true;
              try { d.push_back({Driver::Create(path[o.f]), t[o.k].good}); } catch (const std::exception&) { made_it = false; }
              if (made_it != (t[o.k].good >= 0)) { run.violation(what, made_it ? "the document is accepted" : "the document is rejected"); return false; }
            } else if (o.what == 1) {
              what += fmt(" solve %d back;", o.k);
              auto& x = d[d.size() - 1 - o.k];
              const std::string got = x.first->Solve().to_string();
              run.count("transitions", 6);
              run.count("traces_validated_against_impl", 6);
              if (got != want[x.second]) { run.violation(what, "the last result differs from that of a fresh process"); return false; }
            } else { what += " forget;"; d.clear(); }
          }
          run.count("driver_sequences");
          run.count("states");
          if (n % 4001 == 0) run.sample(what);
        }
      }
      if ((int)seq.size() == fdepth) return true;
      for (auto& o : ops) {
        if (o.what == 1 && o.k >= made) continue;
        if (o.what == 2 && (made == 0 || (int)seq.size() > fdepth - 2)) continue;
        seq.push_back(o);
        const bool ok = walk(o.what == 0 ? made + (t[o.k].good >= 0) : o.what == 2 ? 0 : made, good);
        seq.pop_back();
        if (!ok) return false;
      }
      return true;
    };
    walk(0, 0);
    std::filesystem::remove_all(dir);
  }, [&](size_t i) { return some[fpairs[i / 16].first].name + " / " + some[fpairs[i / 16].second].name + " from files"; }, 300);

  // ---- placement
  std::vector<std::pair<unsigned, unsigned>> patterns;
  for (unsigned bits = 1; bits <= (run.thorough ? 11u : 8u); bits++) for (unsigned p = 0; p < 1u << bits; p++) patterns.push_back({p, bits});
  run.cases("placement", some.size() * patterns.size(), [&](size_t i) {
    const auto& e = some[i / patterns.size()];
    const auto [pat, bits] = patterns[i % patterns.size()];
    // a process of its own: what the arena holds outlives a calculation
    const std::string got = forked([&] {
      mini::Doc d(ref::xml(e.p));
      heap::start(pat, bits);
      FixedSource fs{d.root};
      return fs.Solve().to_string();
    });
    run.count("placements");
    run.count("transitions", e.p.histories);
    run.count("traces_validated_against_impl", e.p.histories);
    if (got != want[i / patterns.size()]) run.violation(e.name + fmt(" pattern %u of %u bits", pat, bits), "the result depends on where objects lie in memory");
    if (i % 997 == 0) run.sample(e.name + fmt(" pattern %u of %u bits", pat, bits));
  }, [&](size_t i) { return some[i / patterns.size()].name + fmt(" pattern %zu", i % patterns.size()); });

  // ---- long
  const std::vector<int> lengths = run.thorough ? std::vector<int>{10000, 9999, 20003, 10001, 70001, 65536, 1000000, 2100001} : std::vector<int>{10000, 9999, 20003, 10001, 70001, 65536, 1000000};
  run.cases("long", lengths.size(), [&](size_t i) {
    const int N = lengths[i];
    ref::Problem p = all[N > 70001 ? 0 : i % 2].p;
    p.seed = 7;
    p.histories = N;
    p.threads = 1 + i % 3;
    const Sums got = sums(p);
    std::vector<double> c(got.counts.size(), 0);
    for (int at = 0; at < N;) {  // in batches of growing size
      p.seed = 7 + at;
      p.histories = std::min(N - at, 1 + at % (N > 100000 ? 29989 : 997));
      p.threads = 1;
      const Sums s = sums(p);
      for (size_t b = 0; b < c.size(); b++) c[b] += s.counts[b];
      at += p.histories;
      run.count("batches");
    }
    run.count("transitions", 2 * N);
    run.count("traces_validated_against_impl", 2 * N);
    for (size_t b = 0; b < c.size(); b++) if (c[b] != got.counts[b]) { run.violation(fmt("histories %d", N), fmt("tally bin %zu: %.17g, in batches %.17g", b, got.counts[b], c[b])); return; }
  }, [&](size_t i) { return fmt("long %zu", i); }, 200);
  return run.finish();
}
