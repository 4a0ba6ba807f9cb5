// The program itself: every combination of problems, tallies, names, places and previous contents of the output file; wrong
// usage and rejected inputs. The output is compared with the results the library computes and with an own rendering of them.
#include "vh.hpp"
#include "Driver.hpp"
#include "Estimator.hpp"
#include "results.hpp"
#include "zoo.hpp"
#include <filesystem>
#include <sys/prctl.h>
using namespace vh;
namespace fs = std::filesystem;

namespace {
struct Ended { int status; bool timeout; std::string out; };
Ended program(const std::string& cwd, const std::vector<std::string>& args) {
  const char* exe = getenv("MINIMC_MAIN");
  if (!exe) { fprintf(stderr, "MINIMC_MAIN not set\n"); _exit(97); }
  const std::string log = cwd + "/../log-" + std::to_string(getpid());
  const pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (chdir(cwd.c_str())) _exit(98);
    const int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 1); dup2(fd, 2);
    std::vector<char*> v{const_cast<char*>("minimc")};
    for (auto& a : args) v.push_back(const_cast<char*>(a.c_str()));
    v.push_back(nullptr);
    execv(exe, v.data());
    _exit(99);
  }
  int st = 0;
  const int64_t t0 = now_ns();
  bool timeout = false;
  while (waitpid(pid, &st, WNOHANG) == 0) {
    if (now_ns() - t0 > 30LL * 1000000000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); timeout = true; break; }
    usleep(1000);
  }
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99)) { fprintf(stderr, "the program cannot be run\n"); _exit(97); }
  Ended e{st, timeout, mini::slurp(log)};
  unlink(log.c_str());
  return e;
}
bool succeeded(const Ended& e) { return !e.timeout && WIFEXITED(e.status) && WEXITSTATUS(e.status) == 0; }
std::string how(const Ended& e) {
  return e.timeout ? "it does not end" : WIFEXITED(e.status) ? fmt("it ends with status %d", WEXITSTATUS(e.status)) : fmt("it ends with signal %d", WTERMSIG(e.status));
}
// every file below a directory with its contents
std::map<std::string, std::string> tree(const std::string& d) {
  std::map<std::string, std::string> r;
  for (auto& e : fs::recursive_directory_iterator(d)) r[fs::relative(e.path(), d).string()] = e.is_regular_file() ? mini::slurp(e.path().string()) : e.is_directory() ? "(directory)" : "(other)";
  return r;
}
void schema(const std::string& d) { for (auto n : {"minimc.xsd", "minimc_basictypes.xsd"}) fs::copy_file(mini::repo() + "/test/" + n, d + "/" + n, fs::copy_options::overwrite_existing); }

// what the output must be, written from the results themselves
std::string check(const std::string& text, const ref::Problem& p, const EstimatorSet& want) {
  if (text.find(std::to_string(p.histories) + "\n") != 0) return "the output does not begin with the number of histories";
  const std::string rest = text.substr(text.find('\n') + 1);
  const auto b = results::parse(rest);
  size_t at = 0;
  for (auto& t : p.tallies) {
    if (at >= b.size() || b[at].name != t.name) return "estimator '" + t.name + "' is not where it belongs; found '" + (at < b.size() ? b[at].name : "nothing") + "'";
    const size_t n = ref::bins_of(t);
    if (b[at].mean.size() != n || b[at].dev.size() != n) return fmt("estimator '%s' has %zu means and %zu deviations for %zu bins", t.name.c_str(), b[at].mean.size(), b[at].dev.size(), n);
    for (size_t i = 0; i < n; i++) {
      const double m = want.FindEstimatorByName(t.name).GetScore(i, p.histories);
      if (!results::close(b[at].mean[i], m, 1)) return fmt("mean of bin %zu of '%s' is %.9g instead of %.9g", i, t.name.c_str(), b[at].mean[i], m);
    }
    // the boundaries are listed
    const auto listed = results::numbers_in(b[at].bins);
    size_t k = 0;
    for (auto* v : {&t.cosb, &t.eb}) for (double x : *v) { while (k < listed.size() && !results::close(listed[k], x, 1)) k++; if (k == listed.size()) return fmt("the boundary %.9g of '%s' is not listed", x, t.name.c_str()); k++; }
    at++;
    for (auto& s : t.sens) {
      if (at >= b.size() || b[at].name.find(t.name) == std::string::npos || b[at].name.find(s) == std::string::npos)
        return "the sensitivity of '" + t.name + "' to '" + s + "' is not where it belongs; found '" + (at < b.size() ? b[at].name : "nothing") + "'";
      if (b[at].mean.size() != n || b[at].dev.size() != n) return fmt("the sensitivity of '%s' to '%s' has %zu means and %zu deviations for %zu bins", t.name.c_str(), s.c_str(), b[at].mean.size(), b[at].dev.size(), n);
      at++;
    }
  }
  if (at != b.size()) return fmt("%zu blocks of results instead of %zu", b.size(), at);
  // word for word the results of the same calculation done here, and nothing else
  const std::string same = results::same_words(rest, want.to_string());
  if (!same.empty()) return same;
  // values, deviations and sensitivities included
  const auto w = results::parse(want.to_string());
  if (w.size() != b.size()) return fmt("%zu blocks of results instead of %zu", b.size(), w.size());
  for (size_t k = 0; k < w.size(); k++) {
    double scale = 0;
    for (double v : w[k].mean) scale = std::max(scale, std::fabs(v));
    for (double v : w[k].dev) scale = std::max(scale, std::fabs(v));
    for (size_t i = 0; i < w[k].mean.size(); i++) {
      if (std::fabs(b[k].mean[i] - w[k].mean[i]) > 3e-6 * std::fabs(w[k].mean[i]) + 1e-7 * scale) return fmt("mean of bin %zu of '%s' is %.9g instead of %.9g", i, w[k].name.c_str(), b[k].mean[i], w[k].mean[i]);
      if (std::fabs(b[k].dev[i] - w[k].dev[i]) > 3e-5 * std::fabs(w[k].dev[i]) + 1e-6 * scale) return fmt("deviation of bin %zu of '%s' is %.9g instead of %.9g", i, w[k].name.c_str(), b[k].dev[i], w[k].dev[i]);
    }
  }
  return "";
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "traces_validated_against_impl", "runs", "outputs_checked", "rejections"});
  const auto all = zoo::all(run.scratch);
  const std::string root = run.scratch;
  auto place = [&](const std::string& phase, size_t i) { const std::string d = root + "/" + phase + "-" + std::to_string(i) + "/work"; fs::remove_all(d); fs::create_directories(d); return d; };
  auto leave = [&](const std::string& d) { fs::remove_all(fs::path(d).parent_path()); };

  // ---- results: problems x tallies
  std::vector<ref::Problem> ps;
  {
    ref::Problem base = all[1].p;  // three groups, sensitivities
    std::vector<ref::Tally> kinds;
    auto tally = [&](const char* n, int surface, std::vector<double> c, std::vector<double> e, std::vector<std::string> s) { ref::Tally t; t.name = n; t.surface = base.surfaces[surface].name; t.cosb = c; t.eb = e; t.sens = s; kinds.push_back(t); };
    tally("outer", 1, {}, {}, {});
    tally("a first", 0, {0.1}, {1.5, 2.5}, {"d-b", "d-a"});
    tally("mean", 1, {-0.5, 0, 0.5}, {}, {"d-a"});
    tally("z", 0, {}, {2.5}, {});
    tally("std dev", 1, {0.3}, {}, {"d-b"});
    // all ordered selections
    const int top = run.thorough ? 5 : 4;
    std::function<void(std::vector<int>)> pick = [&](std::vector<int> have) {
      ref::Problem p = base;
      p.tallies.clear();
      for (int k : have) p.tallies.push_back(kinds[k]);
      ps.push_back(p);
      if ((int)have.size() == top) return;
      for (int k = 0; k < (int)kinds.size(); k++) if (std::find(have.begin(), have.end(), k) == have.end()) { auto h = have; h.push_back(k); pick(h); }
    };
    pick({});
  }
  for (auto& e : all) for (int N : {1, 2, 7, 100}) for (int T : {1, 3}) { auto p = e.p; p.histories = N; p.threads = T; ps.push_back(p); }
  run.cases("results", ps.size(), [&](size_t i) {
    ref::Problem p = ps[i];
    if (p.histories == 1 && i < ps.size() - all.size() * 8) p.histories = 9 + i % 90;
    p = ref::rename(p, (int)(i % ref::kSchemes), i / 9 % 12);
    p.seed = 1 + i;
    const std::string d = place("results", i);
    schema(d);
    mini::spit(d + "/problem.xml", ref::xml(p));
    const auto before = tree(d);
    const Ended e = program(d, {"problem.xml"});
    run.count("runs");
    run.count("states");
    auto after = tree(d);
    const std::string name = fmt("results %zu", i);
    if (!succeeded(e)) { run.violation(name, "the program does not succeed: " + how(e) + ": " + e.out.substr(0, 300)); return; }
    if (!after.count("problem.out")) { run.violation(name, "no problem.out beside problem.xml"); return; }
    const std::string text = after["problem.out"];
    after.erase("problem.out");
    if (after != before) run.violation(name, "other files changed");
    const auto driver = Driver::Create(d + "/problem.xml");
    const EstimatorSet want = driver->Solve();
    const std::string w = check(text, p, want);
    if (!w.empty()) run.violation(name, w + "\n" + text.substr(0, 1500));
    run.count("outputs_checked");
    run.count("transitions", p.histories);
    run.count("traces_validated_against_impl");
    if (i % 40 == 0) run.sample(fmt("%zu tallies, %d histories: %zu bytes of output", p.tallies.size(), p.histories, text.size()));
    leave(d);
  }, [&](size_t i) { return fmt("results %zu", i); });

  // ---- names and places: the name of the input, how it is given, what is there already
  const std::vector<std::string> names{"problem.xml", "a.b.xml", "with space.xml", "noextension", "UPPER.XML", "two.out.xml", ".hidden.xml", "tail.", "x.y"};
  const std::vector<std::string> wants{"problem.out", "a.b.out", "with space.out", "noextension.out", "UPPER.out", "two.out.out", ".hidden.out", "tail.out", "x.out"};
  const std::vector<std::string> dirs{"", "sub", "sub.dir/deeper"};
  enum { relative, dotted, absolute, from_above, nways };
  enum { nothing, longer, shorter, link, nbefore };
  const size_t nplaces = names.size() * dirs.size() * nways * nbefore;
  run.cases("places", nplaces, [&](size_t i) {
    size_t k = i;
    auto next = [&](size_t n) { const size_t r = k % n; k /= n; return r; };
    const size_t iname = next(names.size()), idir = next(dirs.size());
    const int way = (int)next(nways), before = (int)next(nbefore);
    ref::Problem p = all[0].p;
    p.histories = 5; p.seed = 1 + i;
    const std::string d = place("places", i);
    const std::string where = dirs[idir].empty() ? d : d + "/" + dirs[idir];
    fs::create_directories(where);
    fs::create_directories(d + "/elsewhere/x");
    schema(where);
    mini::spit(where + "/" + names[iname], ref::xml(p));
    const std::string out = where + "/" + wants[iname];
    if (before == longer) mini::spit(out, std::string(20000, '#') + "\n");
    if (before == shorter) mini::spit(out, "1\n");
    if (before == link) { mini::spit(d + "/elsewhere/real", std::string(9000, '#')); fs::create_symlink(d + "/elsewhere/real", out); }
    const std::string rel = (dirs[idir].empty() ? "" : dirs[idir] + "/") + names[iname];
    std::string cwd = d, arg = rel;
    if (way == dotted) arg = "./" + rel;
    if (way == absolute) { cwd = d + "/elsewhere"; arg = d + "/" + rel; }
    if (way == from_above) { cwd = d + "/elsewhere/x"; arg = "../../" + rel; }
    const auto was = tree(d);
    const Ended e = program(cwd, {arg});
    run.count("runs");
    run.count("states");
    const std::string name = "input " + arg + fmt(", before: %s", before == nothing ? "nothing" : before == longer ? "a longer file" : before == shorter ? "a shorter file" : "a link");
    if (!succeeded(e)) { run.violation(name, "the program does not succeed: " + how(e) + ": " + e.out.substr(0, 300)); return; }
    if (!fs::exists(out)) { run.violation(name, "no " + wants[iname] + " beside the input"); return; }
    auto now = tree(d);
    const std::string text = mini::slurp(out);
    auto rest = was;
    for (auto* t : {&now, &rest}) { t->erase(fs::relative(out, d).lexically_normal().string()); t->erase((dirs[idir].empty() ? "" : dirs[idir] + "/") + wants[iname]); if (before == link) t->erase("elsewhere/real"); }
    if (now != rest) run.violation(name, "other files changed");
    const auto driver = Driver::Create(where + "/" + names[iname]);
    const EstimatorSet want = driver->Solve();
    const std::string w = check(text, p, want);
    if (!w.empty()) run.violation(name, w + "\n" + text.substr(0, 1000));
    run.count("outputs_checked");
    run.count("transitions", p.histories);
    run.count("traces_validated_against_impl");
    if (i % 97 == 0) run.sample(name);
    leave(d);
  }, [&](size_t i) { return fmt("place %zu", i); });

  // ---- wrong usage and rejected inputs
  struct Bad { std::string what, name, text; std::vector<std::string> args; };
  std::vector<Bad> bads;
  {
    ref::Problem p = all[1].p;
    p.histories = 3;
    const std::string ok = ref::xml(p);
    auto with = [&](const std::string& what, const std::string& a, const std::string& b) {
      std::string t = ok;
      const size_t at = t.find(a);
      if (at == std::string::npos) { fprintf(stderr, "no %s in the document\n%s\n", a.c_str(), t.c_str()); _exit(97); }
      t.replace(at, a.size(), b);
      bads.push_back({what, "in.xml", t, {"in.xml"}});
    };
    bads.push_back({"no argument", "in.xml", ok, {}});
    bads.push_back({"two arguments", "in.xml", ok, {"in.xml", "in.xml"}});
    bads.push_back({"two arguments, output first", "in.xml", ok, {"in.out", "in.xml"}});
    bads.push_back({"an option after the input", "in.xml", ok, {"in.xml", "--verbose"}});
    bads.push_back({"three arguments", "in.xml", ok, {"in.xml", "a", "b"}});
    bads.push_back({"an empty argument", "in.xml", ok, {""}});
    bads.push_back({"a file that does not exist", "in.xml", ok, {"other.xml"}});
    bads.push_back({"the name without extension", "in.xml", ok, {"in"}});
    bads.push_back({"a directory", "in.xml", ok, {"."}});
    bads.push_back({"an empty file", "in.xml", "", {"in.xml"}});
    bads.push_back({"no XML", "in.xml", "hello\n", {"in.xml"}});
    bads.push_back({"a truncated document", "in.xml", ok.substr(0, ok.size() / 2), {"in.xml"}});
    bads.push_back({"another root", "in.xml", "<other/>", {"in.xml"}});
    with("an unknown element", "<materials>", "<colour/><materials>");
    with("a missing element", "<chunksize>1</chunksize>", "");
    with("a misspelled tracking", "</general>", "<tracking>delta</tracking></general>");
    with("an unknown material", "material=\"m1\"", "material=\"m9\"");
    with("an unknown nuclide", "<nuclide name=\"a\" afrac", "<nuclide name=\"nobody\" afrac");
    with("an unknown surface in a cell", "<surface name=\"s1\"", "<surface name=\"s9\"");
    with("an unknown surface in a tally", "surface=\"s1\"", "surface=\"s9\"");
    with("an unknown perturbation", "<perturbation name=\"d-a\"", "<perturbation name=\"d-z\"");
    with("a perturbation of an unknown nuclide", "nuclide=\"a\"", "nuclide=\"nobody\"");
    with("too few groups", "<capture>", "<capture>1 ");
    with("no histories", "<histories>3", "<histories>0");
    with("unusable boundaries", "<boundaries>", "<boundaries>9 ");
  }
  run.cases("rejected", bads.size() * 2, [&](size_t i) {
    const Bad& b = bads[i / 2];
    const std::string d = place("rejected", i);
    schema(d);
    mini::spit(d + "/" + b.name, b.text);
    if (i % 2) mini::spit(d + "/in.out", "earlier results\n");
    const auto was = tree(d);
    const Ended e = program(d, b.args);
    run.count("runs");
    run.count("rejections");
    run.count("states");
    run.count("transitions");
    run.count("traces_validated_against_impl");
    const std::string name = b.what + (i % 2 ? ", earlier results present" : "");
    if (e.timeout) run.violation(name, "the program does not end");
    else if (succeeded(e)) run.violation(name, "the program reports success");
    if (tree(d) != was) run.violation(name, "files were written");
    if (i % 9 == 0) run.sample(name + ": " + how(e));
    leave(d);
  }, [&](size_t i) { return bads[i / 2].what; });

  // ---- results that cannot be written
  run.cases("unwritable", 3, [&](size_t i) {
    ref::Problem p = all[0].p;
    p.histories = 3;
    const std::string d = place("unwritable", i);
    schema(d);
    mini::spit(d + "/in.xml", ref::xml(p));
    if (i == 0) fs::create_directories(d + "/in.out/x");
    if (i == 1) fs::create_symlink(d + "/missing/real", d + "/in.out");
    if (i == 2) fs::create_symlink("/dev/full", d + "/in.out");
    const Ended e = program(d, {"in.xml"});
    run.count("runs");
    run.count("states");
    run.count("transitions");
    run.count("traces_validated_against_impl");
    if (e.timeout || succeeded(e)) run.violation(fmt("output cannot be written, %s", i == 0 ? "a directory of its name" : i == 1 ? "a dangling link" : "no space"), e.timeout ? "the program does not end" : "the program reports success");
    leave(d);
  }, [&](size_t i) { return fmt("unwritable %zu", i); });
  return run.finish();
}
