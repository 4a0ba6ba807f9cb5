// Data files.
//  shapes:  every shape up to a bound in one to four dimensions, every index tuple in and around the shape; every value is
//           found in its place, directly and through the maps made from the table, every axis is as written.
//  faults:  files that are no tables, lack a part, have parts of the wrong kind or another number of dimensions; files cut
//           off at every length.
//  again:   every sequence of writing, deleting and reading two files of the same name in two directories, by several paths,
//           up to a depth; every table has what was in its file when it was read, and keeps it.
//  used:    the same for the cross sections of nuclides: every assignment of three files (two of one name) to their
//           reactions, set up, with one file rewritten, set up again, the former kept or not.
#include "HDF5DataSet.hpp"
#include "h5.hpp"
#include "mini.hpp"
#include "Cell.hpp"
#include "Nuclide.hpp"
#include "Particle.hpp"
#include "World.hpp"
#include "vh.hpp"
#include <array>
#include <filesystem>
#include <unistd.h>
using namespace vh;

namespace {
using Dims = std::vector<size_t>;
std::string str(const Dims& d) { std::string s; for (size_t i = 0; i < d.size(); i++) s += (i ? "x" : "") + std::to_string(d[i]); return s; }
double axis_value(size_t d, size_t i) { const double x = (double)i - 3.25; return x * (1 + std::fabs(x)) * std::pow(10.0, 4.0 * d - 3) + d; }
double value_at(const Dims& idx) { double v = 0.5; for (auto i : idx) v = v * 1021 + (double)i; size_t n = 0; for (auto i : idx) n += i; return n % 2 ? -v : v; }
size_t product(const Dims& d) { size_t n = 1; for (auto x : d) n *= x; return n; }
void contents(const Dims& dims, std::vector<h5::Vec>& axes, h5::Vec& values) {
  axes.clear();
  values.clear();
  for (size_t d = 0; d < dims.size(); d++) { axes.push_back({}); for (size_t i = 0; i < dims[d]; i++) axes[d].push_back(axis_value(d, i)); }
  for (size_t k = 0; k < product(dims); k++) {
    Dims idx(dims.size());
    size_t q = k;
    for (size_t d = dims.size(); d-- > 0;) { idx[d] = q % dims[d]; q /= dims[d]; }
    values.push_back(value_at(idx));
  }
}
template <size_t D, typename T, size_t... I> double get(const T& t, const Dims& i, std::index_sequence<I...>) { return t.at(i[I]...); }
template <size_t D> double get(const HDF5DataSet<D>& t, const Dims& i) { return get<D>(t, i, std::make_index_sequence<D>{}); }
template <typename M> double dig(M& m, const Dims& i, size_t level) {
  if constexpr (std::is_same_v<std::decay_t<decltype(m[0.0])>, double>) return m[axis_value(level, i[level])];
  else return dig(m[axis_value(level, i[level])], i, level + 1);
}
template <size_t D> void shape(Run& run, const std::string& path, const Dims& dims, size_t around) {
  const std::string what = str(dims);
  HDF5DataSet<D> t{path};
  for (size_t d = 0; d < D; d++) {
    const auto& a = t.GetAxis(d);
    bool same = a.size() == dims[d];
    for (size_t i = 0; same && i < a.size(); i++) same = a[i] == axis_value(d, i);
    if (!same) { run.violation(what, fmt("axis %zu is not as written", d)); return; }
  }
  auto map = t.ToContinuousMap();
  // indices per level: all valid ones, some beyond
  std::vector<Dims> choices(D);
  for (size_t d = 0; d < D; d++) {
    for (size_t i = 0; i < dims[d] + around; i++) choices[d].push_back(i);
    if (around) for (size_t x : {dims[d] * 7 + 5, (size_t)1 << 32, ~(size_t)0, ~(size_t)0 / 2 + 1}) choices[d].push_back(x);
  }
  Dims at(D, 0);
  for (size_t d = 0; d < D; d++) if (choices[d].empty()) return;
  for (;;) {
    Dims idx(D);
    bool valid = true;
    for (size_t d = 0; d < D; d++) { idx[d] = choices[d][at[d]]; valid = valid && idx[d] < dims[d]; }
    run.count("transitions");
    run.count("traces_validated_against_impl");
    double v = 0;
    int thrown = 0;
    try { v = get<D>(t, idx); } catch (const std::exception&) { thrown = 1; }
    if (valid && (thrown || v != value_at(idx))) { run.violation(what, "entry " + str(idx) + (thrown ? ": error" : fmt(": %.17g, expected %.17g", v, value_at(idx)))); return; }
    if (!valid && !thrown) { run.violation(what, "index " + str(idx) + fmt(" is out of range and gave %.17g", v)); return; }
    if (valid) { if (const double m = dig(map, idx, 0); m != value_at(idx)) { run.violation(what, "map entry " + str(idx) + fmt(": %.17g, expected %.17g", m, value_at(idx))); return; } }
    run.count(valid ? "entries" : "out_of_range");
    size_t d = D;
    while (d-- > 0) { if (++at[d] < choices[d].size()) break; at[d] = 0; if (d == 0) return; }
  }
}
// whether it reads, and if so whether everything is in its place; text of the outcome
template <size_t D> std::string attempt(const std::string& path, const Dims& dims) {
  try {
    HDF5DataSet<D> t{path};
    for (size_t d = 0; d < D; d++) {
      if (t.GetAxis(d).size() != dims[d]) return "read with other axes";
      for (size_t i = 0; i < dims[d]; i++) if (t.GetAxis(d)[i] != axis_value(d, i)) return "read with other axes";
    }
    std::string r = "read";
    for (size_t k = 0; k < product(dims); k++) {
      Dims idx(D);
      size_t q = k;
      for (size_t d = D; d-- > 0;) { idx[d] = q % dims[d]; q /= dims[d]; }
      try { if (get<D>(t, idx) != value_at(idx)) return "read with other values"; } catch (const std::exception&) { r = "read, but entries are missing"; }
    }
    return r;
  } catch (const H5::Exception&) { return "error"; }
  catch (const std::exception&) { return "error"; }
}
std::string attempt(size_t D, const std::string& path, const Dims& dims) {
  return D == 1 ? attempt<1>(path, dims) : D == 2 ? attempt<2>(path, dims) : attempt<3>(path, dims);
}
void shape(Run& run, const std::string& path, const Dims& dims, size_t around) {
  if (dims.size() == 1) shape<1>(run, path, dims, around);
  if (dims.size() == 2) shape<2>(run, path, dims, around);
  if (dims.size() == 3) shape<3>(run, path, dims, around);
  if (dims.size() == 4) shape<4>(run, path, dims, around);
  if (dims.size() == 5) shape<5>(run, path, dims, around);
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "entries", "out_of_range", "files", "refused", "traces_validated_against_impl"});
  H5::Exception::dontPrint();
  const std::string dir = run.scratch;

  std::vector<Dims> shapes;
  {
    const size_t m3 = run.thorough ? 6 : 4, m4 = run.thorough ? 3 : 2;
    for (size_t a = 0; a <= 12; a++) shapes.push_back({a});
    for (size_t a = 0; a <= 7; a++) for (size_t b = 0; b <= 7; b++) shapes.push_back({a, b});
    for (size_t a = 0; a <= m3; a++) for (size_t b = 0; b <= m3; b++) for (size_t c = 0; c <= m3; c++) shapes.push_back({a, b, c});
    for (size_t a = 1; a <= m4; a++) for (size_t b = 1; b <= m4; b++) for (size_t c = 1; c <= m4; c++) for (size_t d = 1; d <= 3; d++) shapes.push_back({a, b, c, d});
    for (auto s : std::vector<Dims>{{2, 3, 2, 3, 4}, {1, 2, 1, 3, 1}, {3, 2, 1, 2, 2}, {2, 2, 2, 2, 2}}) shapes.push_back(s);
    for (auto s : std::vector<Dims>{{70000}, {300, 200}, {2, 30000}, {30000, 2}, {40, 30, 20}, {257, 3, 65}, {1, 1, 5000}, {5000, 1, 1}, {1, 5000, 1}, {300000}, {600, 500}, {70, 66, 65}}) shapes.push_back(s);
    if (run.thorough) for (auto s : std::vector<Dims>{{2000003}, {1200, 1900}, {2, 1000000}, {130, 129, 131}, {9, 8, 7, 600}}) shapes.push_back(s);
  }
  run.cases("shapes", shapes.size(), [&](size_t i) {
    const Dims& d = shapes[i];
    std::vector<h5::Vec> axes;
    h5::Vec values;
    contents(d, axes, values);
    const std::string path = h5::table(dir, fmt("shape %zu", i), axes, values);
    shape(run, path, d, product(d) < 1000 ? 2 : 0);
    run.count("files");
    run.count("states");
    if (i % 61 == 0) run.sample("shape " + str(d));
    unlink(path.c_str());
  }, [&](size_t i) { return "shape " + str(shapes[i]); });

  // ---- faults
  struct Fault { std::string what; size_t D; Dims dims; std::function<void(const std::string&)> make; std::string want; };
  std::vector<Fault> fs;
  const std::vector<Dims> base{{3}, {2, 3}, {3, 2, 2}};
  for (size_t D = 1; D <= 3; D++) {
    const Dims d = base[D - 1];
    std::vector<h5::Vec> axes;
    h5::Vec values;
    contents(d, axes, values);
    auto add = [&](const std::string& w, std::function<void(const std::string&)> f, const std::string& want = "error") { fs.push_back({fmt("%zu dimensions, ", D) + w, D, d, f, want}); };
    auto good = [axes, values](const std::string& p) { h5::write(p, axes, values); };
    auto edit = [good](const std::string& p, std::function<void(H5::H5File&)> f) { good(p); H5::H5File h(p, H5F_ACC_RDWR); f(h); };
    add("nothing wrong", good, "read");
    add("missing", [](const std::string&) {});
    add("a directory", [](const std::string& p) { mkdir(p.c_str(), 0700); });
    add("empty", [](const std::string& p) { mini::spit(p, ""); });
    add("text", [](const std::string& p) { mini::spit(p, "1 2 3\n4 5 6\n"); });
    add("dangling link", [](const std::string& p) { (void)!symlink((p + ".nowhere").c_str(), p.c_str()); });
    add("zeros", [](const std::string& p) { mini::spit(p, std::string(8000, '\0')); });
    add("no content", [](const std::string& p) { H5::H5File f(p, H5F_ACC_TRUNC); });
    add("another group", [edit](const std::string& p) { edit(p, [](H5::H5File& f) { f.move("/pandas", "/other"); }); });
    add("a data set in place of the group", [](const std::string& p) { H5::H5File f(p, H5F_ACC_TRUNC); const hsize_t n = 3; f.createDataSet("/pandas", H5::PredType::NATIVE_DOUBLE, H5::DataSpace(1, &n)); });
    add("no number of levels", [edit](const std::string& p) { edit(p, [](H5::H5File& f) { f.openGroup("/pandas").removeAttr("axis1_nlevels"); }); });
    for (unsigned long long n : {0ull, 1ull, 2ull, 3ull, 4ull, 5ull, 1ull << 32, ~0ull, (1ull << 32) + D}) if (n != D) {
      add(fmt("%llu levels", n), [edit, n](const std::string& p) { edit(p, [n](H5::H5File& f) { auto g = f.openGroup("/pandas"); g.removeAttr("axis1_nlevels"); g.createAttribute("axis1_nlevels", H5::PredType::NATIVE_ULLONG, H5::DataSpace(H5S_SCALAR)).write(H5::PredType::NATIVE_ULLONG, &n); }); });
      if (n >= 1 && n <= 4) add(fmt("really %llu levels", n), [n](const std::string& p) { std::vector<h5::Vec> a; h5::Vec v; contents(Dims(n, 3), a, v); h5::write(p, a, v); });
    }
    add("levels stored as a short integer", [edit, D](const std::string& p) { edit(p, [D](H5::H5File& f) { auto g = f.openGroup("/pandas"); g.removeAttr("axis1_nlevels"); const int n = (int)D; g.createAttribute("axis1_nlevels", H5::PredType::NATIVE_INT, H5::DataSpace(H5S_SCALAR)).write(H5::PredType::NATIVE_INT, &n); }); }, "read");
    for (size_t k = 0; k < D; k++) {
      add(fmt("no axis %zu", k), [edit, k](const std::string& p) { edit(p, [k](H5::H5File& f) { f.unlink(fmt("/pandas/axis1_level%zu", k)); }); });
      add(fmt("a group in place of axis %zu", k), [edit, k](const std::string& p) { edit(p, [k](H5::H5File& f) { f.unlink(fmt("/pandas/axis1_level%zu", k)); f.createGroup(fmt("/pandas/axis1_level%zu", k)); }); });
      add(fmt("text in place of axis %zu", k), [edit, k, d](const std::string& p) { edit(p, [k, d](H5::H5File& f) { f.unlink(fmt("/pandas/axis1_level%zu", k)); const hsize_t n = d[k]; f.createDataSet(fmt("/pandas/axis1_level%zu", k), H5::StrType(H5::PredType::C_S1, 4), H5::DataSpace(1, &n)); }); });
    }
    add("no values", [edit](const std::string& p) { edit(p, [](H5::H5File& f) { f.unlink("/pandas/block0_values"); }); });
    add("a group in place of the values", [edit](const std::string& p) { edit(p, [](H5::H5File& f) { f.unlink("/pandas/block0_values"); f.createGroup("/pandas/block0_values"); }); });
    add("text in place of the values", [edit, d](const std::string& p) { edit(p, [d](H5::H5File& f) { f.unlink("/pandas/block0_values"); const hsize_t n = product(d); f.createDataSet("/pandas/block0_values", H5::StrType(H5::PredType::C_S1, 4), H5::DataSpace(1, &n)); }); });
    for (size_t less = 1; less <= product(d); less++)
      add(fmt("%zu values short", less), [axes, values, less](const std::string& p) { auto v = values; v.resize(v.size() - less); h5::write(p, axes, v); }, "error|read, but entries are missing");
    add("values in one column less", [edit, values](const std::string& p) { edit(p, [values](H5::H5File& f) { f.unlink("/pandas/block0_values"); const hsize_t n = values.size(); f.createDataSet("/pandas/block0_values", H5::PredType::NATIVE_DOUBLE, H5::DataSpace(1, &n)).write(values.data(), H5::PredType::NATIVE_DOUBLE); }); }, "read");
    // cut off
    good(dir + "/full.hdf5");
    const std::string all = mini::slurp(dir + "/full.hdf5");
    for (size_t n = 1; n < all.size(); n += run.thorough ? 1 : n < 600 ? 1 : 13) add(fmt("cut off after %zu bytes", n), [all, n](const std::string& p) { mini::spit(p, all.substr(0, n)); }, "error|read");
  }
  const size_t chunk = 20;
  run.cases("faults", (fs.size() + chunk - 1) / chunk, [&](size_t c) {
    for (size_t i = c * chunk; i < std::min(fs.size(), (c + 1) * chunk); i++) {
      const std::string path = dir + fmt("/fault %zu.hdf5", i);
      fs[i].make(path);
      const std::string got = attempt(fs[i].D, path, fs[i].dims);
      const std::string want = "|" + fs[i].want + "|";
      if (want.find("|" + got + "|") == std::string::npos) run.violation(fs[i].what, got + ", expected " + fs[i].want);
      if (got == "error") run.count("refused");
      run.count("files");
      run.count("transitions");
      run.count("traces_validated_against_impl");
      run.distinct("states", hash(fs[i].what));
      if (i % 211 == 0) run.sample(fs[i].what + ": " + got);
      unlink(path.c_str());
      rmdir(path.c_str());
    }
  }, [&](size_t c) { return fs[c * chunk].what + " and following"; });
  // ---- again
  // operations: give place p content c (3: delete it); read place p by its path, a relative path, or a link
  struct Op { bool write; int place, how; };
  std::vector<Op> ops;
  for (int p = 0; p < 2; p++) for (int c = 0; c < 4; c++) ops.push_back({true, p, c});
  for (int p = 0; p < 2; p++) for (int h = 0; h < 3; h++) ops.push_back({false, p, h});
  const std::vector<Dims> has{{2, 3}, {2, 3}, {3, 2}};
  auto axis = [](int c, size_t d, size_t i) { return 10.0 * c + d + i * (1.5 + c); };
  auto value = [](int c, size_t i, size_t j) { return 1000.0 * c + 30 * i + j + 0.125; };
  const size_t depth = run.thorough ? 5 : 4, no = ops.size();
  size_t sequences = 1;
  for (size_t k = 0; k < depth; k++) sequences *= no;
  const size_t group = sequences / (run.thorough ? 196 : 49);
  run.cases("again", sequences / group, [&](size_t g) {
    const std::string root = dir + fmt("/again %zu", g);
    std::filesystem::create_directories(root + "/a");
    std::filesystem::create_directories(root + "/b");
    std::array<std::string, 2> where{root + "/a/t.hdf5", root + "/b/t.hdf5"};
    (void)!symlink(where[0].c_str(), (root + "/a/link").c_str());
    (void)!symlink(where[1].c_str(), (root + "/b/link").c_str());
    std::array<std::string, 3> bytes;
    for (int c = 0; c < 3; c++) {
      std::vector<h5::Vec> a(2);
      h5::Vec v;
      for (size_t d = 0; d < 2; d++) for (size_t i = 0; i < has[c][d]; i++) a[d].push_back(axis(c, d, i));
      for (size_t i = 0; i < has[c][0]; i++) for (size_t j = 0; j < has[c][1]; j++) v.push_back(value(c, i, j));
      h5::write(root + "/x", a, v);
      bytes[c] = mini::slurp(root + "/x");
    }
    auto holds = [&](const HDF5DataSet<2>& t, int c) {
      for (size_t d = 0; d < 2; d++) {
        if (t.GetAxis(d).size() != has[c][d]) return false;
        for (size_t i = 0; i < has[c][d]; i++) if (t.GetAxis(d)[i] != axis(c, d, i)) return false;
      }
      for (size_t i = 0; i < has[c][0]; i++) for (size_t j = 0; j < has[c][1]; j++) if (t.at(i, j) != value(c, i, j)) return false;
      return true;
    };
    for (size_t s = g * group; s < (g + 1) * group; s++) {
      std::vector<Op> seq;
      for (size_t k = 0, q = s; k < depth; k++, q /= no) seq.push_back(ops[q % no]);
      if (seq.back().write) continue;
      std::array<int, 2> now{0, 1};
      for (int p = 0; p < 2; p++) mini::spit(where[p], bytes[p]);
      std::vector<std::pair<HDF5DataSet<2>, int>> read;
      std::string what;
      for (auto& o : seq) {
        what += what.empty() ? "" : ", ";
        run.count("transitions");
        if (o.write) {
          what += o.how == 3 ? fmt("delete %c", 'a' + o.place) : fmt("write content %d to %c", o.how, 'a' + o.place);
          unlink(where[o.place].c_str());
          if (o.how < 3) mini::spit(where[o.place], bytes[o.how]);
          now[o.place] = o.how;
          continue;
        }
        what += fmt("read %c by %s", 'a' + o.place, o.how == 0 ? "its path" : o.how == 1 ? "a relative path" : "a link");
        run.count("traces_validated_against_impl");
        if (chdir((root + (o.place ? "/b" : "/a")).c_str())) abort();
        bool error = false;
        try { read.push_back({HDF5DataSet<2>{o.how == 0 ? where[o.place] : o.how == 1 ? std::string("t.hdf5") : std::string("link")}, now[o.place]}); }
        catch (const std::exception&) { error = true; }
        catch (const H5::Exception&) { error = true; }
        if (error != (now[o.place] == 3)) { run.violation("again", what + (error ? ": refused" : ": a table of a file that is not there")); break; }
        bool good = true;
        for (auto& [t, c] : read) good = good && holds(t, c);
        if (!good) { run.violation("again", what + ": a table has not what its file had when it was read"); break; }
      }
      run.count("states");
      if (s % 9001 == 13) run.sample(what);
    }
    if (chdir("/")) abort();
    std::filesystem::remove_all(root);
  }, [&](size_t g) { return fmt("sequences of file operations %zu to %zu", g * group, (g + 1) * group - 1); });
  // ---- used
  // documents: the files of capture, scatter and fission of two nuclides
  struct Use { std::array<int, 6> file; };
  std::vector<Use> uses;
  for (int k = 0; k < 729; k++) { Use u; for (int i = 0, q = k; i < 6; i++, q /= 3) u.file[i] = q % 3; uses.push_back(u); }
  const size_t stride = run.thorough ? 11 : 83;
  run.cases("used", uses.size(), [&](size_t ui) {
    const std::string root = dir + fmt("/used %zu", ui);
    std::filesystem::create_directories(root + "/a");
    std::filesystem::create_directories(root + "/b");
    const std::array<std::string, 3> path{root + "/a/t.hdf5", root + "/b/t.hdf5", root + "/a/u.hdf5"};
    auto content = [](int f, int version) { return std::pow(7.0, f) * (version ? 1000 : 1); };
    auto put = [&](int f, int version) { unlink(path[f].c_str()); const double v = content(f, version); h5::write(path[f], std::vector<h5::Vec>{{1e-12, 1, 20}}, {v, 2 * v, v}); };
    auto text = [&](const Use& u) {
      auto eval = [&](int i) { return " file=\"" + path[u.file[i]] + "\" temperature=\"293.6\"/>"; };
      std::string x = "<nuclides><continuous>";
      for (int n = 0; n < 2; n++) x += fmt("<nuclide name=\"%c\" awr=\"12\"><neutron><capture", 'a' + n) + eval(3 * n) + "<scatter><xs" + eval(3 * n + 1) + "</scatter><fission><xs" + eval(3 * n + 2) + "<nubar" + eval(3 * n) + "</fission></neutron></nuclide>";
      return mini::wrap(mini::general() + x + "</continuous></nuclides><materials><material name=\"m\" aden=\"1\"><nuclide name=\"a\" afrac=\"1\"/><nuclide name=\"b\" afrac=\"1\"/></material></materials>"
        "<surfaces><sphere name=\"s\"><center x=\"0\" y=\"0\" z=\"0\"/><radius r=\"1\"/></sphere></surfaces><cells><cell name=\"c\" material=\"m\"><surface name=\"s\" sense=\"-1\"/></cell><void><surface name=\"s\" sense=\"+1\"/></void></cells>");
    };
    auto right = [&](const World& w, const Use& u, const std::array<int, 3>& version) {
      for (double E : {1e-10, 1.0, 20.0})
        for (int n = 0; n < 2; n++) {
          Particle p{Point{0, 0, 0}, Direction{1, 0, 0}, Energy{ContinuousEnergy{E}}, Particle::Type::neutron, 1};
          p.SetCell(w.FindCellContaining(Point{0, 0, 0}));
          double want = 0;
          for (int i = 0; i < 3; i++) { const int f = u.file[3 * n + i]; want += content(f, version[f]) * (E == 1.0 ? 2 : 1); }
          const double got = w.FindNuclideByName(std::string(1, (char)('a' + n)))->GetTotal(p);
          run.count("traces_validated_against_impl");
          if (!(std::fabs(got - want) <= 1e-6 * want)) return fmt("nuclide %c at %g: %g instead of %g", 'a' + n, E, got, want);
        }
      return std::string();
    };
    for (size_t next = ui % stride; next < uses.size(); next += stride)
      for (int changed = -1; changed < 3; changed++) {
        for (int f = 0; f < 3; f++) put(f, 0);
        std::array<int, 3> v0{}, v1{};
        auto first = std::make_unique<mini::Doc>(text(uses[ui]));
        auto world = std::make_unique<World>(first->root);
        std::string bad = right(*world, uses[ui], v0);
        const bool kept = (next + changed) % 2;
        if (!kept) world.reset();
        if (changed >= 0) { put(changed, 1); v1[changed] = 1; }
        mini::Doc second(text(uses[next]));
        const World after(second.root);
        if (bad.empty()) bad = right(after, uses[next], v1);
        if (bad.empty() && kept) bad = right(*world, uses[ui], v0);
        run.count("states");
        run.count("transitions", 2);
        if (!bad.empty()) {
          std::string a, b;
          for (int i = 0; i < 6; i++) { a += fmt("%d", uses[ui].file[i]); b += fmt("%d", uses[next].file[i]); }
          run.violation("used", "files " + a + ", file " + fmt("%d", changed) + " rewritten, files " + b + ": " + bad);
          std::filesystem::remove_all(root);
          return;
        }
      }
    std::filesystem::remove_all(root);
  }, [&](size_t i) { std::string a; for (int f : uses[i].file) a += fmt("%d", f); return "nuclides with files " + a; });
  return run.finish();
}
