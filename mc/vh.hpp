// Harness support: enumerates numbered cases over forked workers, survives crashes and hangs of the code under
// test (they become violations of the case being run), counts what was explored, and confirms every violation by
// replaying its case alone before it is reported.
#pragma once
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <new>
#include <poll.h>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace vh {

inline std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
inline uint64_t mix(uint64_t h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
  return h;
}
inline uint64_t hash(const std::string& s, uint64_t seed = 1469598103934665603ULL) {
  uint64_t h = seed;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return mix(h);
}
inline uint64_t hash(double d, uint64_t seed) {
  uint64_t b; std::memcpy(&b, &d, 8);
  return mix(b ^ (seed * 0x9e3779b97f4a7c15ULL));
}
inline int64_t now_ns() {
  return std::chrono::duration_cast<std::chrono::nanoseconds>(
             std::chrono::steady_clock::now().time_since_epoch()).count();
}

class Run {
public:
  static constexpr size_t kTable = 1u << 24;
  static constexpr int kMaxWorkers = 32;
  static constexpr int kMaxCounters = 64;
  bool thorough = false;
  uint64_t seed = 1;
  int workers = 8;
  std::string scratch;  // private scratch directory, removed by run.py

  Run(int argc, char** argv) {
    self() = this;
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto val = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
      if (a == "--tier") thorough = val() == "thorough";
      else if (a == "--seed") seed = std::strtoull(val().c_str(), nullptr, 10);
      else if (a == "--workers") workers = std::atoi(val().c_str());
      else if (a == "--scratch") scratch = val();
      else if (a == "--phase") only_phase_ = val();
      else if (a == "--case") { only_case_ = std::strtoll(val().c_str(), nullptr, 10); }
    }
    if (workers > kMaxWorkers) workers = kMaxWorkers;
    if (scratch.empty()) scratch = ".";
    shared_ = static_cast<Shared*>(map(sizeof(Shared)));
    new (shared_) Shared();
    table_ = static_cast<std::atomic<uint64_t>*>(map(kTable * sizeof(std::atomic<uint64_t>)));
    out_ = fdopen(dup(1), "w");
    // the code under test prints to stdout; keep the protocol stream separate
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    close(dn);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
  }

  // ---- used inside a case -------------------------------------------------------------------------------------
  void count(const char* name, int64_t n = 1) { shared_->counters[idx(name)].fetch_add(n, std::memory_order_relaxed); }
  // declares counters before workers fork so that they share one slot
  void declare(std::initializer_list<const char*> names) { for (auto n : names) idx(n); }
  int64_t value(const char* name) { return shared_->counters[idx(name)].load(); }
  // records a distinct item; true when new
  bool distinct(const char* name, uint64_t h) {
    const int c = idx(name);
    h = mix(h ^ (0x1234567ULL * (c + 1)));
    if (h == 0) h = 1;
    for (size_t i = h & (kTable - 1), n = 0; n < 4096; n++, i = (i + 1) & (kTable - 1)) {
      uint64_t cur = table_[i].load(std::memory_order_relaxed);
      if (cur == h) return false;
      if (cur == 0) {
        uint64_t z = 0;
        if (table_[i].compare_exchange_strong(z, h)) { shared_->counters[c]++; return true; }
        if (z == h) return false;
      }
    }
    return false;  // table full around here: under-count rather than over-count
  }
  void violation(const std::string& key, const std::string& detail) {
    if (in_worker_) {
      if (++reported_in_case_ > 3 || ++reported_ > 60) return;
      send("V", key, detail);
    } else {
      direct_.push_back({phase_, -1, key, detail});
    }
  }
  bool failed_case() const { return reported_in_case_ > 0; }
  void sample(const std::string& s) {
    if (in_worker_) { if (shared_->samples.fetch_add(1) < 12) send("S", "", s); }
    else if (samples_.size() < 12) samples_.push_back(s);
  }
  // key/value sums merged by the parent into merged
  void emit(const std::string& key, double v) { if (in_worker_) send("E", key, fmt("%.17g", v)); else merged[key] += v; }
  std::map<std::string, double> merged;
  void note(const std::string& s) { notes_.push_back(s); }

  // ---- enumeration --------------------------------------------------------------------------------------------
  // Runs fn(i) for every i in [0, n). describe(i) must name the case stably. A crash or a case that exceeds limit_s
  // is a violation of that case.
  void cases(const std::string& phase, size_t n, const std::function<void(size_t)>& fn,
             const std::function<std::string(size_t)>& describe, double limit_s = 60) {
    if (!only_phase_.empty() && only_phase_ != phase) return;
    if (hung_ || (!thorough && now_ns() - born_ > (violations_.empty() ? 550LL : 200LL) * 1000000000)) {  // an answer in time matters more than all of it
      notes_.push_back("phase " + phase + " left out: " + (hung_ ? "an earlier case does not end" : "out of time"));
      capped_++;
      return;
    }
    if (!thorough) limit_s = std::min(limit_s, 60.0);
    phase_ = phase;
    size_t begin = 0, end = n;
    if (only_case_ >= 0 && !only_phase_.empty()) { begin = only_case_; end = std::min<size_t>(n, begin + 1); }
    std::vector<Rec> recs;
    pass(begin, end, fn, describe, limit_s, std::min<size_t>(workers, std::max<size_t>(1, end - begin)), recs);
    // confirm each violating case by running it alone
    std::set<int64_t> seen;
    size_t confirmed = 0;
    for (auto& r : recs) {
      if (confirmed >= 12 || (confirmed && !thorough && now_ns() - born_ > 150LL * 1000000000)) break;
      if (!seen.insert(r.c).second) continue;
      std::vector<Rec> again;
      auto keep = shared_->counters_copy();
      for (int attempt = 0; attempt < (r.timeout ? 1 : 3) && again.empty(); attempt++)
        pass(r.c, r.c + 1, fn, describe, limit_s * (r.timeout ? 2 : 1) + 5, 1, again);
      shared_->restore(keep);
      if (again.empty()) {
        notes_.push_back("unconfirmed (did not reproduce in 3 replays): " + phase + " case " + std::to_string(r.c) + " " + r.key);
        continue;
      }
      confirmed++;
      for (auto& a : again) { violations_.push_back(a); hung_ = hung_ || a.timeout; }
      if (hung_) break;
    }
    cases_[phase] = end - begin;
    reported_ = 0;
  }
  double elapsed() const { return (now_ns() - born_) * 1e-9; }
  bool single_case() const { return !only_phase_.empty(); }

  int finish(bool exhaustive = true) {
    for (auto& d : direct_) violations_.push_back(d);
    for (auto& v : violations_)
      fprintf(out_, "VIOL\t%s\t%lld\t%s\t%s\n", esc(v.phase).c_str(), (long long)v.c, esc(v.key).c_str(), esc(v.detail).c_str());
    for (size_t i = 0; i < names_.size(); i++)
      fprintf(out_, "STAT\t%s\t%lld\n", names_[i].c_str(), (long long)shared_->counters[i].load());
    for (auto& [p, n] : cases_) fprintf(out_, "CASES\t%s\t%zu\n", esc(p).c_str(), n);
    for (auto& s : samples_) fprintf(out_, "SAMPLE\t%s\n", esc(s).c_str());
    for (auto& s : notes_) fprintf(out_, "NOTE\t%s\n", esc(s).c_str());
    fprintf(out_, "EXHAUSTIVE\t%d\n", exhaustive && capped_ == 0 ? 1 : 0);
    fprintf(out_, "DONE\n");
    fflush(out_);
    _exit(0);
  }
  static Run*& self() { static Run* r = nullptr; return r; }

private:
  struct Rec { std::string phase; int64_t c; std::string key, detail; bool timeout = false; };
  struct Shared {
    std::atomic<uint64_t> next{0};
    std::atomic<int64_t> samples{0};
    std::atomic<int64_t> counters[kMaxCounters]{};
    std::atomic<int64_t> cur[kMaxWorkers]{};
    std::atomic<int64_t> start[kMaxWorkers]{};
    std::atomic<int64_t> slowest{0};
    std::vector<int64_t> counters_copy() { std::vector<int64_t> v; for (auto& c : counters) v.push_back(c.load()); return v; }
    void restore(const std::vector<int64_t>& v) { for (int i = 0; i < kMaxCounters; i++) counters[i] = v[i]; }
  };
  static void* map(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return p;
  }
  int idx(const char* name) {
    for (size_t i = 0; i < names_.size(); i++) if (names_[i] == name) return (int)i;
    if (in_worker_) { fprintf(stderr, "counter %s not declared\n", name); _exit(97); }
    names_.push_back(name);
    return (int)names_.size() - 1;
  }
  static std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; }
    return r;
  }
  static std::string clip(const std::string& s, size_t n) { return s.size() > n ? s.substr(0, n) + "..." : s; }
  void send(const char* tag, const std::string& key, const std::string& detail) {
    std::string l = std::string(tag) + "\t" + std::to_string(cur_case_) + "\t" + esc(clip(key, 600)) + "\t" + esc(clip(detail, 2500)) + "\n";
    ssize_t r = write(pipe_w_, l.data(), l.size());
    (void)r;
  }
  std::string errfile(int w) const { return scratch + "/stderr." + std::to_string(getpid_main_) + "." + std::to_string(w); }

  void worker(int w, size_t end, const std::function<void(size_t)>& fn) {
    in_worker_ = true;
    int e = open(errfile(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (e >= 0) { dup2(e, 2); close(e); }
    while (true) {
      const uint64_t i = shared_->next.fetch_add(1);
      if (i >= end) break;
      cur_case_ = i;
      shared_->start[w] = now_ns();
      shared_->cur[w] = (int64_t)i;
      reported_in_case_ = 0;
      const int64_t began = now_ns();
      fn(i);
      for (int64_t t = now_ns() - began, was = shared_->slowest; t > was && !shared_->slowest.compare_exchange_weak(was, t);) {}
      shared_->cur[w] = -1;
    }
    _exit(0);
  }
  void pass(size_t begin, size_t end, const std::function<void(size_t)>& fn, const std::function<std::string(size_t)>& describe,
            double limit_s, size_t nw, std::vector<Rec>& recs) {
    if (begin >= end) return;
    getpid_main_ = getpid();
    int fds[2];
    if (pipe(fds)) { perror("pipe"); _exit(3); }
    fcntl(fds[0], F_SETFL, O_NONBLOCK);
    fcntl(fds[1], 1031 /* F_SETPIPE_SZ */, 1 << 20);
    pipe_w_ = fds[1];
    shared_->next = begin;
    std::vector<pid_t> pids(nw, -1);
    std::string buf;
    size_t crashes = 0;
    auto spawn = [&](size_t w) {
      shared_->cur[w] = -1;
      fflush(nullptr);
      pid_t p = fork();
      if (p < 0) { perror("fork"); _exit(3); }
      if (p == 0) worker((int)w, end, fn);
      pids[w] = p;
    };
    auto drain = [&]() {
      char tmp[65536];
      while (true) {
        ssize_t r = read(fds[0], tmp, sizeof tmp);
        if (r <= 0) break;
        buf.append(tmp, r);
      }
      size_t pos;
      while ((pos = buf.find('\n')) != std::string::npos) {
        std::string l = buf.substr(0, pos);
        buf.erase(0, pos + 1);
        std::vector<std::string> f;
        std::stringstream ss(l);
        std::string t;
        while (std::getline(ss, t, '\t')) f.push_back(t);
        while (f.size() < 4) f.push_back("");
        if (f[0] == "V") { if (recs.size() < 400) recs.push_back({phase_, atoll(f[1].c_str()), f[2], f[3]}); }
        else if (f[0] == "S") { if (samples_.size() < 24) samples_.push_back(f[3]); }
        else if (f[0] == "E") merged[f[2]] += strtod(f[3].c_str(), nullptr);
      }
    };
    auto crash = [&](size_t w, const std::string& how) {
      const int64_t c = shared_->cur[w];
      std::string tail;
      if (FILE* f = fopen(errfile((int)w).c_str(), "r")) {
        char b[1500];
        size_t n = fread(b, 1, sizeof b - 1, f);
        b[n] = 0;
        tail = b;
        fclose(f);
      }
      if (c < 0) { fprintf(stderr, "harness worker died outside a case: %s %s\n", how.c_str(), tail.c_str()); _exit(4); }
      recs.push_back({phase_, c, "crash:" + phase_ + ":" + describe((size_t)c), how + " " + tail});
      crashes++;
    };
    for (size_t w = 0; w < nw; w++) spawn(w);
    size_t live = nw;
    while (live) {
      pollfd pf{fds[0], POLLIN, 0};
      poll(&pf, 1, 20);
      drain();
      for (size_t w = 0; w < nw; w++) {
        if (pids[w] < 0) continue;
        int st;
        if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
          pids[w] = -1;
          live--;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { fprintf(stderr, "harness error in case %lld\n", (long long)shared_->cur[w].load()); _exit(4); }
          crash(w, WIFSIGNALED(st) ? fmt("died by signal %d (%s):", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("exited with %d:", WEXITSTATUS(st)));
          if (crashes < 40) { spawn(w); live++; }
          else capped_++;
        } else if (shared_->cur[w] >= 0 && now_ns() - shared_->start[w] > (int64_t)(limit_s * 1e9)) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          pids[w] = -1;
          live--;
          crash(w, fmt("no result within %.0f s:", limit_s));
          recs.back().timeout = true;
          shared_->next = end;  // the others finish what they have begun
          capped_++;
        }
      }
    }
    drain();
    close(fds[0]);
    close(fds[1]);
    for (size_t w = 0; w < nw; w++) unlink(errfile((int)w).c_str());
  }

  Shared* shared_;
  std::atomic<uint64_t>* table_;
  FILE* out_;
  std::string only_phase_, phase_;
  int64_t only_case_ = -1;
  bool hung_ = false;
  const int64_t born_ = now_ns();
  bool in_worker_ = false;
  int pipe_w_ = -1;
  int64_t cur_case_ = -1;
  int reported_ = 0, reported_in_case_ = 0, capped_ = 0;
  pid_t getpid_main_ = 0;
  std::vector<std::string> names_;
  std::map<std::string, size_t> cases_;
  std::vector<std::string> samples_, notes_;
  std::vector<Rec> violations_, direct_;
};

inline bool close_to(double a, double b, double rel = 1e-9, double abs = 1e-12) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

// Mixed-radix decoder: turns a case number into a tuple of small indices.
struct Radix {
  std::vector<size_t> dims;
  size_t size() const { size_t n = 1; for (auto d : dims) n *= d; return n; }
  std::vector<size_t> operator()(size_t i) const {
    std::vector<size_t> r(dims.size());
    for (size_t k = 0; k < dims.size(); k++) { r[k] = i % dims[k]; i /= dims[k]; }
    return r;
  }
};
}  // namespace vh
