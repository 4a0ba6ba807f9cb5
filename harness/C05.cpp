// C05: bins partition every value.  Enumerates bin specifications x a lattice of values around every boundary.
#include "Bins.hpp"
#include "Particle.hpp"
#include "mini.hpp"
#include "vh.hpp"

using namespace vh;

struct Spec {
  std::string kind, xml;          // xml of the bins element
  std::vector<double> bounds;     // boundaries the specification defines
  bool exact;                     // boundaries representable: half-open rule must hold exactly
};

static std::vector<Spec> specs(bool thorough) {
  std::vector<Spec> r;
  auto lin = [&](double lo, double hi, int n, bool exact) {
    Spec s{"linspace", "<linspace min=\"" + mini::num(lo) + "\" max=\"" + mini::num(hi) + "\" bins=\"" + std::to_string(n) + "\"/>", {}, exact};
    for (int i = 0; i <= n; i++) s.bounds.push_back(lo + (hi - lo) * i / n);
    r.push_back(s);
  };
  for (int n : {1, 2, 4, 8}) {
    lin(-1, 1, n, true); lin(0, 8, n, true); lin(-3, 1, n, true); lin(0.5, 1, n, true);
    lin(-2, -1, n, true); lin(-1, 0, n, true); lin(1024, 2048, n, true);
  }
  for (int n = 1; n <= (thorough ? 40 : 12); n++) {
    lin(-1, 1, n, false); lin(0, 1, n, false); lin(0.1, 0.7, n, false); lin(-1e-3, 20, n, false); lin(1e-11, 2e-5, n, false); lin(-7.3, -0.2, n, false);
  }
  auto logs = [&](double lo, double hi, int n, double base, bool give_base) {
    Spec s{"logspace", "<logspace min=\"" + mini::num(lo) + "\" max=\"" + mini::num(hi) + "\" bins=\"" + std::to_string(n) + "\"" + (give_base ? " base=\"" + mini::num(base) + "\"" : "") + "/>", {}, false};
    for (int i = 0; i <= n; i++) s.bounds.push_back(std::pow((long double)base, (long double)lo + ((long double)hi - lo) * i / n));
    r.push_back(s);
  };
  for (int n = 1; n <= (thorough ? 24 : 9); n++) {
    logs(-2, 2, n, 10, false); logs(0, 3, n, 10, true); logs(-11, 1.30103, n, 10, false); logs(-10.7, 2.3, n, 10, false); logs(-3, 5, n, 2, true);
    logs(-5, -1, n, 2.718281828459045, true); logs(0, 1, n, 1.5, true); logs(1, 2, n, 16, true);
  }
  auto bnd = [&](std::vector<double> v) {
    Spec s{"boundaries", "", v, true};
    std::string t;
    for (auto x : v) t += (t.empty() ? "" : " ") + mini::num(x);
    s.xml = "<boundaries>" + t + "</boundaries>";
    r.push_back(s);
  };
  // every increasing subset of a small alphabet
  const std::vector<double> alpha{-2.5, -1, -0.1, 0, 1e-9, 0.3, 1, 2e6};
  for (int m = 1; m < 256; m++) {
    std::vector<double> v;
    for (int b = 0; b < 8; b++) if (m >> b & 1) v.push_back(alpha[b]);
    bnd(v);
  }
  // many bins
  for (int n : {16, 31, 64, 100, 255, 256, 257, 1000, 4096}) { lin(-1, 1, n, (n & (n - 1)) == 0); lin(0, 20, n, false); logs(-11, 1.5, n, 10, n % 2 == 0); lin(0, n, n, true); }
  for (int n : {9, 16, 17, 33, 64, 65, 128, 200, 257, 1000, 3000}) {
    std::vector<double> even, uneven;
    for (int i = 0; i < n; i++) { even.push_back(-n / 2 + i); uneven.push_back((i % 3 ? 0.25 : 0.0) + i * 0.5 - 3 + 1e-4 * i * i); }
    bnd(even); bnd(uneven);
  }
  r.push_back({"none", "", {}, true});
  return r;
}

static std::vector<double> values_for(const Spec& s) {
  const double inf = std::numeric_limits<double>::infinity();
  std::vector<double> v{-inf, -1.7e308, -1e30, -2e6, -3, -1.0000001, -1, -0.999, -0.5, -1e-3, -1e-12, -5e-324, -0.0, 0.0, 5e-324, 1e-300,
                        1e-12, 1e-5, 0.02, 0.25, 0.5, 0.7071, 0.99, 1, 1.01, 2, 3, 10, 1e3, 2e6, 1e30, 1.7e308, inf};
  for (size_t i = 0; i < s.bounds.size(); i++) {
    const double b = s.bounds[i];
    const double w = i + 1 < s.bounds.size() ? s.bounds[i + 1] - b : (i ? b - s.bounds[i - 1] : 1);
    for (double x : {b, std::nextafter(b, inf), std::nextafter(b, -inf), b + 1e-9 * w, b - 1e-9 * w, b + 1e-6 * w, b - 1e-6 * w, b + 0.01 * w, b - 0.01 * w, b + 0.25 * w,
                     b + 0.5 * w, b + 0.75 * w, b + 0.99 * w}) v.push_back(x);
  }
  return v;
}
// allowed index range of value v
static std::pair<size_t, size_t> expected(const Spec& s, double v) {
  if (s.kind == "none") return {0, 0};
  auto at = [&](double x) { size_t i = 0; while (i < s.bounds.size() && s.bounds[i] <= x) i++; return i; };
  const size_t i = at(v);
  if (s.kind == "boundaries" || std::isinf(v)) return {i, i};
  if (s.exact) for (auto b : s.bounds) if (v == b) return {i, i};
  double tol = 0;
  for (auto b : s.bounds) tol = std::max(tol, std::fabs(b));
  if (s.kind == "linspace") tol *= 4e-15; else tol = std::fabs(v) * 1e-13 * 40;
  size_t lo = i, hi = i;
  for (size_t k = 0; k < s.bounds.size(); k++)
    if (std::fabs(v - s.bounds[k]) <= tol) { lo = std::min(lo, k); hi = std::max(hi, k + 1); }
  return {lo, hi};
}
static std::vector<double> parse_list(const std::string& t) {
  std::vector<double> r;
  std::string u = t;
  for (auto& c : u) if (c == ',') c = ' ';
  std::stringstream ss(u);
  double d;
  while (ss >> d) r.push_back(d);
  return r;
}
static Particle at(const Direction& d, const Energy& e) { return Particle{Point{0, 0, 0}, d, e, Particle::Type::neutron, 1}; }

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"evaluations", "distinct_nontrivial", "states", "transitions", "traces_validated_against_impl", "specs_rejected"});
  const auto S = specs(run.thorough);

  // 1. one axis at a time, as an energy axis of the full particle bins (continuous energy carries any value)
  run.cases("axis", S.size(), [&](size_t c) {
    const auto& s = S[c];
    mini::Doc d("<minimc><bins>" + (s.xml.empty() ? "" : "<energy>" + s.xml + "</energy>") + "</bins></minimc>");
    const ParticleBins b{d.root.child("bins")};
    const size_t want = s.kind == "none" ? 1 : s.bounds.size() + 1;
    if (b.size() != want) run.violation("axis:" + s.xml, fmt("size %zu, expected %zu", b.size(), want));
    // printed boundaries are the specification's
    const std::string txt = b.to_string();
    const auto pos = txt.rfind("energy\n------\n");
    if (s.kind != "none") {
      const auto printed = parse_list(pos == std::string::npos ? "" : txt.substr(pos + 14));
      bool ok = printed.size() == s.bounds.size();
      for (size_t i = 0; ok && i < printed.size(); i++) ok = close_to(printed[i], s.bounds[i], 1e-6, 1e-6 * std::fabs(s.bounds.back() - s.bounds.front()) * (s.kind == "linspace"));
      if (!ok) run.violation("axis-print:" + s.xml, "printed boundaries differ from the specification: " + txt);
    }
    const Direction dir{0, 0, 1};
    for (double v : values_for(s)) {
      const size_t i = b.GetIndex(at(dir, ContinuousEnergy{v}));
      const auto [lo, hi] = expected(s, v);
      run.count("evaluations");
      if (run.distinct("distinct_nontrivial", hash(v, c))) run.count("transitions");
      run.count("traces_validated_against_impl");
      if (i < lo || i > hi || i >= want)
        run.violation("axis:" + s.xml, fmt("value %.17g -> bin %zu, expected %zu..%zu of %zu", v, i, lo, hi, want));
    }
    run.count("states", want);
    if (c % 97 == 0) run.sample(s.kind + " " + s.xml);
  }, [&](size_t c) { return S[c].xml; });

  // 2. cosine axis with every reference direction of a lattice, group energies, and both axes flattened
  struct Ref { double u, v, w; };
  std::vector<Ref> refs;
  for (int u = -1; u <= 1; u++) for (int v = -1; v <= 1; v++) for (int w = -1; w <= 1; w++)
    if (u || v || w) refs.push_back({(double)u, (double)v, (double)w});
  for (double k : {2.0, 0.25, 1e-3, 50.0}) { refs.push_back({k, 0, 0}); refs.push_back({0, -k, 0}); refs.push_back({k, k, -k}); refs.push_back({k, 2 * k, 3 * k}); }
  std::vector<size_t> cos_specs, en_specs;
  for (size_t i = 0; i < S.size(); i++) {
    if (S[i].kind == "boundaries" && i % 17) continue;
    if (S[i].bounds.size() > 40 && i % 5) continue;
    if (S[i].kind == "linspace" && i % 3 && !run.thorough) continue;
    if (S[i].kind == "logspace" && i % 4 && !run.thorough) continue;
    cos_specs.push_back(i);
  }
  std::vector<Spec> E{S.back()};  // energy axis choices: none, group bins, a log axis
  for (auto& s : S) if (s.xml == "<boundaries>0 1</boundaries>" || s.xml == "<linspace min=\"0\" max=\"8\" bins=\"8\"/>" || s.xml == "<linspace min=\"0.5\" max=\"1\" bins=\"4\"/>") E.push_back(s);
  for (auto& s : S) if (s.kind == "logspace") { E.push_back(s); break; }
  Radix R{{cos_specs.size(), refs.size(), E.size()}};
  std::vector<Direction> dirs;
  for (int u = -2; u <= 2; u++) for (int v = -2; v <= 2; v++) for (int w = -2; w <= 2; w++)
    if (u || v || w) dirs.emplace_back((double)u, (double)v, (double)w);
  run.cases("cosine-energy", R.size(), [&](size_t c) {
    const auto t = R(c);
    const auto& s = S[cos_specs[t[0]]];
    const auto& ref = refs[t[1]];
    const auto& e = E[t[2]];
    std::string x = "<minimc><bins>";
    // element order is free in the schema
    const std::string ex = e.xml.empty() ? "" : "<energy>" + e.xml + "</energy>";
    const std::string cx = s.xml.empty() ? "" : fmt("<cosine u=\"%.17g\" v=\"%.17g\" w=\"%.17g\">", ref.u, ref.v, ref.w) + s.xml + "</cosine>";
    x += (c & 1) ? cx + ex : ex + cx;
    x += "</bins></minimc>";
    mini::Doc d(x);
    const ParticleBins b{d.root.child("bins")};
    const size_t ne = e.kind == "none" ? 1 : e.bounds.size() + 1, nc = s.kind == "none" ? 1 : s.bounds.size() + 1;
    if (b.size() != ne * nc) run.violation("layout:" + x, fmt("size %zu, expected %zu*%zu", b.size(), nc, ne));
    const double n = std::sqrt(ref.u * ref.u + ref.v * ref.v + ref.w * ref.w);
    std::vector<Energy> es;
    for (Group g : {1, 2, 3, 7, 8, 9, 70, 300}) es.push_back(g);
    for (double v : {1e-6, 0.3, 0.6, 0.9, 2.5, 40.0}) es.push_back(ContinuousEnergy{v});
    for (const auto& dir : dirs) {
      const double dx = dir.Dot(Point{1, 0, 0}), dy = dir.Dot(Point{0, 1, 0}), dz = dir.Dot(Point{0, 0, 1});
      const double mu = (ref.u * dx + ref.v * dy + ref.w * dz) / n;
      size_t clo = 99999, chi = 0;
      for (double m : {mu - 1e-14, mu, mu + 1e-14}) { const auto [l, h] = expected(s, m); clo = std::min(clo, l); chi = std::max(chi, h); }
      for (const auto& en : es) {
        const double ev = std::holds_alternative<Group>(en) ? (double)std::get<Group>(en) : std::get<ContinuousEnergy>(en);
        const auto [elo, ehi] = expected(e, ev);
        const size_t i = b.GetIndex(at(dir, en));
        run.count("evaluations");
        run.count("traces_validated_against_impl");
        const size_t ci = i / ne, ei = i % ne;
        if (ci < clo || ci > chi || ei < elo || ei > ehi || i >= nc * ne)
          run.violation("layout:" + x, fmt("direction (%g,%g,%g) cosine %.17g energy %g -> index %zu = (%zu,%zu), expected cosine bin %zu..%zu, energy bin %zu..%zu", dx, dy, dz, mu, ev, i, ci, ei, clo, chi, elo, ehi));
      }
    }
    run.count("states", nc * ne);
    run.count("transitions", dirs.size() * es.size());
    run.distinct("distinct_nontrivial", hash(x));
    if (c % 5003 == 0) run.sample(x);
  }, [&](size_t c) { auto t = R(c); return S[cos_specs[t[0]]].xml + fmt(" ref %zu energy %zu", t[1], t[2]); });

  // 3. specifications whose boundaries do not increase are rejected with an exception, on either axis
  std::vector<std::string> bad;
  for (double a : {-1.0, 0.0, 2.0}) for (double b : {-1.0, 0.0, 2.0}) if (b <= a) for (int n : {1, 3}) {
    bad.push_back(fmt("<linspace min=\"%g\" max=\"%g\" bins=\"%d\"/>", a, b, n));
    bad.push_back(fmt("<logspace min=\"%g\" max=\"%g\" bins=\"%d\"/>", a, b, n));
    bad.push_back(fmt("<logspace min=\"%g\" max=\"%g\" bins=\"%d\" base=\"2\"/>", a, b, n));
  }
  for (double base : {1.0, 0.5, 0.0, -2.0}) bad.push_back(fmt("<logspace min=\"0\" max=\"2\" bins=\"2\" base=\"%g\"/>", base));
  for (double a : {0.0, 1.0, 2.0}) for (double b : {0.0, 1.0, 2.0}) {
    if (b <= a) bad.push_back(fmt("<boundaries>%g %g</boundaries>", a, b));
    for (double c2 : {0.0, 1.0, 2.0}) if (b <= a || c2 <= b) bad.push_back(fmt("<boundaries>%g %g %g</boundaries>", a, b, c2));
  }
  // one fault anywhere in a longer list
  for (int n : {4, 5, 8, 20, 70}) for (int at = 1; at < n; at++) for (int kind = 0; kind < 3; kind++) {
    if (n == 70 && at % 9 && at < 68) continue;
    std::string s;
    for (int i = 0; i < n; i++) s += fmt("%g ", i == at ? (kind == 0 ? at - 1.0 : kind == 1 ? at - 1.5 : -1e3) : (double)i);
    bad.push_back("<boundaries>" + s + "</boundaries>");
  }
  // 4. a reference direction of no length has no cosine
  run.cases("zero-reference", 3, [&](size_t c) {
    const char* in[] = {"<linspace min=\"-1\" max=\"1\" bins=\"2\"/>", "<boundaries>0</boundaries>", "<logspace min=\"-2\" max=\"0\" bins=\"2\"/>"};
    mini::Doc d(std::string("<minimc><bins><cosine u=\"0\" v=\"0\" w=\"0\">") + in[c] + "</cosine></bins></minimc>");
    bool thrown = false;
    try { const ParticleBins b{d.root.child("bins")}; } catch (const std::exception&) { thrown = true; }
    run.count("evaluations");
    if (thrown) run.count("specs_rejected"); else run.violation("zero-reference", "a zero reference direction is accepted");
  }, [&](size_t c) { return fmt("zero reference %zu", c); });
  run.cases("rejected", bad.size() * 2, [&](size_t c) {
    const std::string inner = bad[c / 2];
    const std::string x = "<minimc><bins>" + (c % 2 ? "<energy>" + inner + "</energy>" : "<cosine u=\"1\" v=\"0\" w=\"0\">" + inner + "</cosine>") + "</bins></minimc>";
    mini::Doc d(x);
    bool thrown = false;
    try { const ParticleBins b{d.root.child("bins")}; } catch (const std::exception&) { thrown = true; }
    run.count("evaluations");
    if (thrown) run.count("specs_rejected");
    else run.violation("rejected:" + inner, "unusable bins accepted");
    run.distinct("distinct_nontrivial", hash(x));
  }, [&](size_t c) { return bad[c / 2]; });
  return run.finish();
}
