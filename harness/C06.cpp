// A current tally counts each crossing of its surface exactly once.
//  rays:    nothing collides, so every tally must equal the number of times the ray crosses the surface as boundary of
//           the region it is in, until it enters void; over a lattice of geometries, scales, offsets and directions.
//  choices: absorption, scattering and fission, every choice sequence, against the reference model.
#include "cont.hpp"
#include "explore.hpp"
#include "problems.hpp"
#include <algorithm>
using namespace vh;
using namespace prob;

namespace {
struct Trace { std::vector<int> counts; bool ok = true; };
// crossings per tally bin of the straight line from pos along dir; ok = false if something about it is degenerate
Trace straight(const Problem& p, double scale) {
  Trace t;
  std::vector<size_t> off;
  size_t n = 0;
  for (auto& ta : p.tallies) { off.push_back(n); n += ref::bins_of(ta); }
  t.counts.assign(n, 0);
  const V d = ref::unit(p.dir);
  struct Root { long double s; size_t k; };
  std::vector<Root> roots;
  for (size_t k = 0; k < p.surfaces.size(); k++) {
    auto r = p.surfaces[k].roots(p.pos, d);
    const long double f0 = p.surfaces[k].f(p.pos);
    (void)f0;
    for (auto s : r) { if (fabsl(s) < 1e-5L * scale) t.ok = false; if (s > 0) roots.push_back({s, k}); }
    if (p.surfaces[k].kind != 'p') {
      // distance of closest approach close to the radius: tangency, or a very short chord
      if (r.size() == 2 && r[1] - r[0] < 1e-3L * scale) t.ok = false;
      V o = p.pos - (p.surfaces[k].kind == 's' ? p.surfaces[k].c : V{});
      V dd = d;
      if (p.surfaces[k].kind == 'c') { o.x = 0; dd.x = 0; }
      const double a = ref::dot(dd, dd);
      if (a > 0) {
        if (a < 1e-20) t.ok = false;
        const double b = ref::dot(o, dd) / a;
        const V q = o - b * dd;
        if (std::fabs(std::sqrt(ref::dot(q, q)) - p.surfaces[k].r) < 1e-7 * p.surfaces[k].r) t.ok = false;
      } else if (std::fabs(std::sqrt(ref::dot(o, o)) - p.surfaces[k].r) < 1e-7 * p.surfaces[k].r) t.ok = false;
    } else if (d.x != 0 && std::fabs(d.x) < 1e-9) t.ok = false;
  }
  std::sort(roots.begin(), roots.end(), [](auto& a, auto& b) { return a.s < b.s; });
  for (size_t i = 0; i + 1 < roots.size(); i++) if (roots[i + 1].s - roots[i].s < 1e-5L * scale) t.ok = false;
  auto cell_at = [&](long double s) {
    for (size_t i = 0; i < p.cells.size(); i++) {
      bool in = true;
      for (auto& [nm, sense] : p.cells[i].s) {
        const auto& sf = p.surf(nm);
        bool neg = sf.f(p.pos) < 0;
        // parity of crossings of this surface before s
        for (auto& r : roots) if (&p.surfaces[r.k] == &sf && r.s < s) neg = !neg;
        in = in && (neg == (sense < 0));
      }
      if (in) return (int)i;
    }
    return -1;
  };
  int c = cell_at(0);
  if (c < 0 || p.cells[c].material.empty()) { t.ok = false; return t; }
  for (size_t i = 0; i < roots.size(); i++) {
    const auto& sf = p.surfaces[roots[i].k];
    bool boundary = false;
    for (auto& [nm, sense] : p.cells[c].s) boundary = boundary || nm == sf.name;
    if (!boundary) continue;
    for (size_t k = 0; k < p.tallies.size(); k++)
      if (p.tallies[k].surface == sf.name) {
        for (double b : p.tallies[k].cosb) if (std::fabs(ref::dot(ref::unit(p.tallies[k].ref), d) - b) < 1e-9) t.ok = false;
        t.counts[off[k] + ref::bin_of(p.tallies[k], d, p.group)]++;
      }
    c = cell_at(i + 1 < roots.size() ? (roots[i].s + roots[i + 1].s) / 2 : roots[i].s * 2 + 1);
    if (c < 0) { t.ok = false; return t; }
    if (p.cells[c].material.empty()) return t;
  }
  t.ok = false;  // never reaches void
  return t;
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  explore::declare(run);
  run.declare({"balances", "rays", "rays_degenerate", "crossings", "distinct_nontrivial"});
  // ---- rays
  struct Geo { std::string what; Problem p; double scale; std::vector<V> from; };
  std::vector<Geo> geos;
  const std::vector<double> scales = run.thorough ? std::vector<double>{1e-6, 1e-3, 1, 37, 1e3, 1e5, 1e7} : std::vector<double>{1e-4, 1, 1e3, 1e6};
  const std::vector<V> offs = run.thorough ? std::vector<V>{{0, 0, 0}, {1e3, 0, 0}, {-1e4, 5e3, 0}, {1e6, 1e6, -1e6}, {0, 0, 1e5}, {3e7, 0, 0}} : std::vector<V>{{0, 0, 0}, {-1e4, 5e3, 0}, {1e6, 0, 1e6}};
  for (double k : scales) {
    auto pts = [&](V o, double r) {
      std::vector<V> f;
      for (double a : {-0.83, -0.41, 0.017, 0.37, 0.91}) for (double b : {-0.55, 0.013, 0.62}) for (double c : {-0.2, 0.031}) f.push_back(o + r * V{a, b, c});
      return f;
    };
    for (V o : offs) {
      if (o.x * o.x + o.y * o.y + o.z * o.z > 0 && k < 1e-3 * std::sqrt(ref::dot(o, o)) * 1e-6) continue;
      const double mag = std::sqrt(ref::dot(o, o));
      if (mag * 1e-9 > k * 1e-3) continue;  // the geometry itself is lost in rounding
      geos.push_back({fmt("shells scale %g at (%g,%g,%g)", k, o.x, o.y, o.z), shells({0.5 * k, 0.7 * k, k}, {"m0", "m1"}, o), k, pts(o, k)});
      geos.push_back({fmt("slab scale %g at %g", k, o.x), slab({o.x - k, o.x - 0.2 * k, o.x + 0.3 * k, o.x + k}, {"m0", "m1"}), k, pts(o, k)});
    }
    geos.push_back({fmt("can scale %g", k), can(0.6 * k, {0.05 * k, 0.1 * k, -0.1 * k}, 0.9 * k, -k, 1.1 * k, "m0", "m1"), k, pts({}, k)});
    geos.push_back({fmt("long can scale %g", k), can(0.6 * k, {0.05 * k, 0.1 * k, -0.1 * k}, 0.9 * k, -1000 * k, 3000 * k, "m0", "m1"), k, pts({900 * k, 0, 0}, k)});
    // one surface shared by many regions, and a surface which is no boundary of the region it runs through
    {
      Problem p = shells({0.8 * k, k}, {"m0", "m1"});
      Surface cut; cut.name = "cut"; cut.kind = 'p'; cut.c = {0.1 * k, 0, 0};
      p.surfaces.push_back(cut);
      p.cells.clear();
      p.cells.push_back({"left", "m0", {{"cut", -1}, {"s0", -1}}, ""});
      p.cells.push_back({"right", "m1", {{"s0", -1}, {"cut", 1}}, ""});
      p.cells.push_back({"shell", "m0", {{"s0", 1}, {"s1", -1}}, ""});
      p.cells.push_back({"", "", {{"s1", 1}}, ""});
      geos.push_back({fmt("cut ball scale %g", k), p, k, pts({}, k)});
    }
  }
  std::vector<V> dirs;
  for (int a = -2; a <= 2; a++) for (int b = -2; b <= 2; b++) for (int c = -2; c <= 2; c++)
    if (a || b || c) if (run.thorough || (a * 3 + b * 5 + c) % 2 == 0) dirs.push_back({a + 0.01 * b, (double)b, c - 0.02 * a});
  for (double e : {1e-2, 1e-4, 1e-6, 1e-7}) { dirs.push_back({e, 1, 0.3}); dirs.push_back({-e, 0.2, 1}); dirs.push_back({1, e, 0}); dirs.push_back({-1, e, -e}); dirs.push_back({e, 0, -1}); }
  for (V d : {V{1, 0, 0}, V{-1, 0, 0}, V{0, 1, 0}, V{0, 0, -1}}) dirs.push_back(d);
  run.cases("rays", geos.size() * 2, [&](size_t c) {
    const Geo& g = geos[c / 2];
    for (V from : g.from)
      for (size_t di = 0; di < dirs.size(); di++) {
        Problem p = g.p;
        use(p, nothing());
        tally_all(p, true, di % 3 == 0 ? V{1, 0, 0} : di % 3 == 1 ? V{0, 2, 0} : V{1, -1, 1});
        p.pos = from;
        p.dir = dirs[di];
        p.tracking = c % 2 ? "cell delta" : "";
        p = ref::rename(p, (int)((di + c) % ref::kSchemes), di / 9 % 12);
        const Trace t = straight(p, g.scale);
        if (!t.ok) { run.count("rays_degenerate"); continue; }
        mini::Doc d(ref::xml(p));
        FixedSource fs{d.root};
        const auto got = explore::counts_of(fs.Solve(), p);
        run.count("rays");
        run.count("traces_validated_against_impl");
        int n = 0;
        for (int x : t.counts) n += x;
        run.count("crossings", n);
        if (run.distinct("distinct_nontrivial", hash(ref::show(t.counts), c))) {}
        if (got != t.counts)
          run.violation("rays:" + g.what, fmt("from (%.17g,%.17g,%.17g) along (%.17g,%.17g,%.17g)%s: tallies %s, crossings %s", from.x, from.y, from.z, p.dir.x, p.dir.y, p.dir.z, p.tracking.c_str(), ref::show(got).c_str(), ref::show(t.counts).c_str()));
      }
    if (c % 13 == 0) run.sample("rays: " + g.what);
  }, [&](size_t c) { return geos[c / 2].what; }, 100);

  // ---- choices
  struct Case { Problem p; std::string what; int K; };
  std::vector<Case> cs;
  std::vector<std::pair<std::string, Problem>> gs{{"slab", slab({0, 1.3, 2.9}, {"m0", "m1"})}, {"slab3", slab({-1, 0.37, 1.3, 2.9}, {"m1", "m0"})},
                                                  {"shells", shells({1.1, 2.3}, {"m0", "m1"}, {0.2, 0.1, -0.3})}, {"can", can(0.8, {0.3, 0.1, 0.2}, 1.9, -1.7, 2.1, "m0", "m1")}};
  for (auto& [gn, g] : gs)
    for (int data = 0; data < 3; data++)
      for (int d = 0; d < 5; d++)
        for (const char* tr : {"", "cell delta"})
          for (V ref : {V{1, 0, 0}, V{0, 0, 1}, V{-1, 2, 0.5}}) {
            Problem p = g;
            const int K = data == 0 ? 8 : data == 1 ? 4 : 2;
            use(p, data == 0 ? absorber(K) : data == 1 ? scatterer(K) : fissile(2, 1, 0.5));
            tally_all(p, true, ref);
            p.pos = {0.31, 0.07, 0.11};
            const V ds[] = {{1, 0.1, -0.2}, {-2, 1, 0.5}, {0.1, -1, 0.3}, {0.3, 0.2, 1}};
            if (d == 4) p.dirkind = "isotropic"; else p.dir = ds[d];
            p.tracking = tr;
            p.group = data == 1 && d == 1 ? 2 : 1;
            cs.push_back({ref::rename(p, (int)(cs.size() % ref::kSchemes), cs.size() / 9 % 12), fmt("%s data %d direction %d %s ref (%g,%g,%g)", gn.c_str(), data, d, tr, ref.x, ref.y, ref.z), K});
          }
  const uint64_t cap = run.thorough ? 3000000 : 60000;
  run.cases("choices", cs.size(), [&](size_t c) {
    if (explore::compare(run, cs[c].p, cs[c].what, cs[c].K, 30, cap) && c % 41 == 0) run.sample(cs[c].what);
  }, [&](size_t c) { return cs[c].what; }, run.thorough ? 600 : 120);

  // ---- balance: continuous energy, delta tracking with virtual collisions, temperatures that vary. Nothing is absorbed
  // in the scattering media, so for every choice sequence and every region what enters also leaves; with absorption no
  // region can have given out more than it got. A particle enters void at most once.
  struct Bal { int geo, T, capture; std::string tr; double E; int d; };
  std::vector<Bal> bs;
  for (int geo = 0; geo < 3; geo++)
    for (int T = 0; T < 4; T++)
      for (int capture = 0; capture < 2; capture++)
        for (const char* tr : {"surface", "cell delta"})
          for (double E : {3e-9, 1e-7, 1e-4})
            for (int d = 0; d < 2; d++) {
              if (T >= 2 && std::string(tr) == "surface") continue;
              bs.push_back({geo, T, capture, tr, E, d});
            }
  auto bd = [&](size_t i) { return fmt("balance geometry %d temperature %d capture %d %s energy %g direction %d", bs[i].geo, bs[i].T, bs[i].capture, bs[i].tr.c_str(), bs[i].E, bs[i].d); };
  run.cases("balance", bs.size(), [&](size_t i) {
    const Bal& b = bs[i];
    Problem p = b.geo == 0 ? slab({0, 1.3, 2.9}, {"m0", "m1"}) : b.geo == 1 ? slab({-1, 0.37, 0.6, 1.3, 2.9}, {"m1", "m0"}) : slab({-2, 0.2, 0.33, 5}, {"m0", "m0"});
    cont::Nuclide h, x;
    h.name = "h"; h.awr = 1; h.scatter = cont::flat(1, b.T % 2 ? 5000 : 293.6);
    x.name = "x"; x.awr = 12; x.scatter = {{1e-12, 1e-7, 20}, {3, 1.5, 1}, 600};
    if (b.capture) { h.capture = cont::flat(0.05); x.capture = cont::flat(0.2); x.total = cont::flat(4, 1000); }
    p.nuclides_text = cont::xml(run.scratch, fmt("b%zu", i), {h, x});
    p.materials = {{"m0", 1.1, {{"h", 1}}}, {"m1", 0.6, {{"x", 1}, {"h", 1}}}};
    p.temperature_text = b.T < 2 ? "<temperature><constant c=\"300\"/></temperature>" : "<temperature><linear><bounds lower=\"1\" upper=\"6000\"/><intercept b=\"300\"/><gradient x=\"40\" y=\"0\" z=\"0\"/></linear></temperature>";
    if (b.T == 1 || b.T == 3) p.cells[0].temperature = "20";
    p.energy_text = mini::num(b.E);
    p.tracking = b.tr;
    p.tallies.clear();
    for (auto& s : p.surfaces) { Tally t; t.name = "at " + s.name; t.surface = s.name; t.cosb = {0}; p.tallies.push_back(t); }
    p.pos = {0.31, 0.07, 0.11};
    p.dir = b.d ? V{-1, 0.2, 0.1} : V{1, 0.1, -0.3};
    mini::Doc doc(ref::xml(p));
    FixedSource fs{doc.root};
    int home = -1;  // the region of the source lies between planes home and home + 1
    for (size_t k = 0; k + 1 < p.surfaces.size(); k++) if (p.surfaces[k].c.x < p.pos.x && p.pos.x < p.surfaces[k + 1].c.x) home = (int)k;
    choice::Tree t;
    t.K = 3;
    t.limit = run.thorough ? 9 : 7;
    int shown = 0;
    do {
      t.start();
      size_t k = 0;
      verif::serve() = [&](std::minstd_rand&) { k++; return k <= t.limit ? t.draw() : ((mix(k * 7919 + i) >> 11) + 0.5) * 0x1p-53; };
      const auto c = explore::counts_of(fs.Solve(), p);
      verif::serve() = nullptr;
      const int n = (int)p.surfaces.size();
      std::string err;
      for (int q = 0; q < n; q++) if (c[2 * q] < 0 || c[2 * q + 1] < 0) err = "negative count";
      if (c[1] || c[2 * (n - 1)]) err = "something came out of the void";
      const int out = c[0] + c[2 * (n - 1) + 1];
      if (b.capture ? out > 1 : out != 1) err = fmt("%d particles leaked of one", out);
      for (int q = 0; q + 1 < n; q++) {
        const int in = c[2 * q + 1] + c[2 * (q + 1)] + (q == home), away = c[2 * q] + c[2 * (q + 1) + 1];
        if (b.capture ? (away > in || away < in - 1) : away != in) err = fmt("%d entered the region between planes %d and %d and %d left it", in, q, q + 1, away);
      }
      if (!err.empty() && shown++ < 2) run.violation(bd(i), "draws " + t.str() + ": " + err + ", tallies " + ref::show(c));
      run.count("balances");
      run.count("transitions", k);
      run.count("traces_validated_against_impl");
    } while (t.next());
    if (i % 37 == 0) run.sample(bd(i));
  }, bd, 120);
  return run.finish();
}
