// Movement of particles. Single tracks are followed through every choice sequence to a depth (K extreme and middle
// values per draw, then a fixed tail); the particle is observed at every draw it makes and at the end, and every observed
// step must be one the geometry allows.
#include "choice.hpp"
#include "cont.hpp"
#include "inline_threads.hpp"
#include "probe.hpp"
#include "problems.hpp"
#include "vh.hpp"
using namespace vh;
using namespace prob;

namespace {
struct Snap { V pos, dir; double e; Particle::Event ev; const ::Cell* cell; std::string surf; };
Snap snap(const Particle& p) {
  const ::Cell* c = nullptr;
  try { c = &p.GetCell(); } catch (const std::exception&) {}
  return {vec(p.GetPosition()), vec(p.GetDirection()), energy_of(p), p.event, c, p.current_surface ? p.current_surface->name : ""};
}
enum class Kind { mixed, absorb, scatter, fission };
struct Case { Problem p; std::string what; Kind kind; std::vector<V> starts, dirs; std::vector<double> energies; double scale; bool many = false; };
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "paths", "problems", "traces_validated_against_impl", "crossings", "collisions", "ends_leak", "ends_capture", "ends_fission", "truncated"});
  silence();
  std::vector<Case> cs;
  const std::string dir = run.scratch;
  auto data = [&](int k) {
    Data d{"", 2, {}, {}, 2};
    Reacts a, b;
    if (k == 0) { a.capture = {1, 2}; a.scatter = {1, 0, 1, 2}; b.capture = {0.5, 1}; b.scatter = {0, 1, 1, 1}; b.fxs = {0.5, 1}; b.nubar = {2.5, 1}; b.chi = {1, 1, 1, 1}; }
    if (k == 1) { a.capture = {1, 2}; b.capture = {3, 0.5}; }
    if (k == 2) { a.scatter = {1, 1, 1, 2}; b.scatter = {0, 2, 2, 1}; }
    if (k == 3) { a.fxs = {1, 2}; a.nubar = {2, 0.3}; a.chi = {1, 1, 1, 1}; b.fxs = {0.5, 1}; b.nubar = {1, 1}; b.chi = {1, 0, 0, 1}; }
    d.nuclides = {nuclide("a", a), nuclide("b", b)};
    d.materials = {{"m0", 0.5, {{"a", 0.4}, {"b", 1.2}}}, {"m1", 0.2, {{"b", 1}}}};
    return d;
  };
  for (double scale : {1.0, 1e5, 1e-4}) {
    const double k = scale;
    std::vector<std::pair<std::string, Problem>> geos;
    geos.push_back({"slab", slab({0, 1.3 * k, 2.9 * k, 3.1 * k}, {"m0", "m1"})});
    geos.push_back({"shells", shells({1.1 * k, 2.3 * k, 2.5 * k}, {"m0", "m1"}, {0.2 * k, 0.1 * k, -0.3 * k})});
    geos.push_back({"can", can(0.8 * k, {0.3 * k, 0.1 * k, 0.2 * k}, 1.9 * k, -1.7 * k, 2.1 * k, "m0", "m1")});
    {
      // a void ball inside material; a region in two disconnected halves
      Problem p = can(0.8 * k, {0.3 * k, 0.1 * k, 0.2 * k}, 1.9 * k, -1.7 * k, 2.1 * k, "m0", "m1");
      p.cells[0].material = "";
      p.cells[0].name = "";
      geos.push_back({"can with void ball", p});
    }
    for (auto& [gn, g] : geos)
      for (int kd = 0; kd < 4; kd++)
        for (const char* tr : {"", "cell delta"}) {
          if (!run.thorough && scale != 1 && (kd == 1 || kd == 3)) continue;
          Case c{g, gn, (Kind)kd, {}, {}, {1, 2}, scale};
          use(c.p, data(kd));
          for (auto& m : c.p.materials) m.aden /= k;
          c.p.tracking = tr;
          c.p.tallies.clear();
          c.what = fmt("%s scale %g data %d %s", gn.c_str(), scale, kd, tr);
          c.starts = {V{0.31 * k, 0.07 * k, 0.11 * k}, V{1.35 * k, 1.02 * k, -0.6 * k}};
          if (gn == "can with void ball") c.starts[0] = {-1.2 * k, 0.3 * k, -0.8 * k};
          c.dirs = {{1, 0.1, -0.2}, {-2, 1, 0.5}, {1e-3, -1, 0.3}, {-1, 0, 0}};
          cs.push_back(c);
        }
  }
  // many regions
  for (int geo = 0; geo < 2; geo++)
    for (int kd : {0, 2})
      for (const char* tr : {"", "cell delta"}) {
        std::vector<double> at;
        for (int k = 0; k <= (geo ? 70 : 140); k++) at.push_back(0.03 * k + 0.007 * (k % 3 == 1) + geo * 0.05);
        Case c{geo ? shells(at, {"m0", "m1"}, {0.2, 0.1, -0.3}) : slab(at, {"m0", "m1"}), "", (Kind)kd, {}, {}, {1}, 1, true};
        use(c.p, data(kd));
        c.p.tracking = tr;
        c.p.tallies.clear();
        c.what = fmt("many %s data %d %s", geo ? "shells" : "layers", kd, tr);
        c.starts = {V{0.31, 0.07, 0.11}, V{1.35, 1.02, -0.6}};
        c.dirs = {{1, 0.1, -0.2}, {-2, 1, 0.5}};
        cs.push_back(c);
      }
  // continuous energy, temperature that varies with position: virtual collisions
  for (int kd : {0, 2})
    for (const char* tr : {"", "cell delta"})
      for (int geo = 0; geo < 2; geo++) {
        Case c{geo ? slab({0, 1.3, 2.9}, {"m0", "m1"}) : can(0.8, {0.3, 0.1, 0.2}, 1.9, -1.7, 2.1, "m0", "m1"), "", (Kind)kd, {}, {}, {1e-9, 3e-8, 1e-6}, 1};
        cont::Nuclide h, u;
        h.name = "a"; h.awr = 1; h.scatter = {{1e-12, 1e-8, 1}, {8, 4, 2}, 293.6};
        u.name = "b"; u.awr = 5; u.scatter = {{1e-12, 1e-7, 1}, {3, 2, 4}, 600};
        if (kd == 0) { h.capture = {{1e-12, 1}, {1, 0.5}, 293.6}; u.fission = cont::flat(1); u.nubar = cont::flat(2.5); }
        c.p.nuclides_text = cont::xml(dir, fmt("c%d%s%d", kd, *tr ? "d" : "s", geo), {h, u});
        c.p.materials = {{"m0", 0.15, {{"a", 0.4}, {"b", 1.2}}}, {"m1", 0.1, {{"a", 1}}}};
        if (*tr) c.p.temperature_text = "<temperature><linear><bounds lower=\"10\" upper=\"2500\"/><intercept b=\"1000\"/><gradient x=\"150\" y=\"-100\" z=\"50\"/></linear></temperature>";
        c.p.tracking = tr;
        c.what = fmt("continuous energy geometry %d data %d %s", geo, kd, tr);
        c.starts = {V{0.31, 0.07, 0.11}, V{1.35, 1.02, -0.6}};
        c.dirs = {{1, 0.1, -0.2}, {-2, 1, 0.5}, {1e-3, -1, 0.3}};
        cs.push_back(c);
      }
  // two value sets per draw: middle, and extreme
  const std::vector<std::vector<double>> values{{0.15, 0.5, 0.85}, {1e-9, 0.31, 0.6, 1 - 1e-9}};
  const size_t depth[2] = {(size_t)(run.thorough ? 11 : 8), (size_t)(run.thorough ? 9 : 6)};
  struct Sub { size_t c, s, d, e, v; };
  std::vector<Sub> subs;
  for (size_t c = 0; c < cs.size(); c++)
    for (size_t s = 0; s < cs[c].starts.size(); s++)
      for (size_t d = 0; d < cs[c].dirs.size(); d++)
        for (size_t e = 0; e < cs[c].energies.size(); e++)
          for (size_t v = 0; v < 2; v++) subs.push_back({c, s, d, e, v});

  auto describe = [&](size_t i) { const Sub& s = subs[i]; return fmt("%s start %zu direction %zu energy %g values %zu", cs[s.c].what.c_str(), s.s, s.d, cs[s.c].energies[s.e], s.v); };
  run.cases("tracks", subs.size(), [&](size_t i) {
    const Sub sub = subs[i];
    const Case& c = cs[sub.c];
    const Problem& p = c.p;
    mini::Doc doc(ref::xml(p));
    Probe probe{doc.root};
    const World& w = probe.world;
    const bool contin = !p.nuclides_text.empty();
    const std::string what = describe(i);
    const double tol = 1e-9 * c.scale;
    choice::Tree t;
    t.K = (int)values[sub.v].size();
    t.limit = depth[sub.v] - (c.many ? run.thorough ? 4 : 3 : 0);
    size_t tail = 0;
    const auto index_of = [&](const ::Cell* q) { for (size_t k = 0; k < w.cells.size(); k++) if (q == &w.cells.at(k)) return (int)k; return -1; };
    run.count("problems");
    do {
      t.start();
      tail = 0;
      bool bad = false;
      auto fail = [&](const std::string& s) { if (!bad) run.violation(what, "draws " + t.str() + ": " + s); bad = true; };
      Particle part{point(c.starts[sub.s]), direction(c.dirs[sub.d]), contin ? Energy{ContinuousEnergy{c.energies[sub.e]}} : Energy{Group{(Group)c.energies[sub.e]}}, Particle::Type::neutron, 1};
      Snap prev = snap(part);
      bool first = true;
      int collisions = 0;
      auto show = [&](const V& v) { return fmt("(%.12g,%.12g,%.12g)", v.x, v.y, v.z); };
      auto check = [&](bool end) {
        const Snap now = snap(part);
        if (first) { prev.cell = now.cell; if (!end) first = false; }
        run.count("states");
        if (std::fabs(ref::dot(now.dir, now.dir) - 1) > 1e-12) fail("direction " + show(now.dir) + " is not a unit vector");
        if (!now.cell) return fail("the particle has no cell");
        // the assigned cell contains the position
        const ::Cell* loc = nullptr;
        try { loc = &w.FindCellContaining(part.GetPosition()); } catch (const std::exception& e) { return fail("position " + show(now.pos) + " is in no cell"); }
        // while a particle is about to be assigned a new cell it may be observed in between; only boundaries do that
        if (loc != now.cell) return fail(fmt("assigned cell %d but is in %d at ", index_of(now.cell), index_of(loc)) + show(now.pos));
        if (!end) {
          if (!now.cell->material) fail("a live particle is in void at " + show(now.pos));
          if (now.ev == Particle::Event::capture || now.ev == Particle::Event::fission || now.ev == Particle::Event::leak) {
            // secondaries and such are sampled after the event is recorded; it must not move on
            if (!same(now.pos, prev.pos) && prev.ev == now.ev) fail("moved after its end");
          } else if (prev.ev == Particle::Event::capture || prev.ev == Particle::Event::fission || prev.ev == Particle::Event::leak) fail("lives on after its end");
        }
        const bool moved = !same(now.pos, prev.pos), crossed = now.cell != prev.cell;
        if (moved || crossed) {
          const V delta = now.pos - prev.pos;
          const double step = ref::dot(delta, prev.dir);
          const V off = delta - step * prev.dir;
          const double size = 1e-13 * (c.scale + std::sqrt(ref::dot(now.pos, now.pos)));
          if (step < -size || std::sqrt(ref::dot(off, off)) > 10 * size + 1e-13 * step) fail("moved from " + show(prev.pos) + " to " + show(now.pos) + " along " + show(prev.dir));
          // nearest boundary of the cell it was in
          const int k = index_of(prev.cell);
          long double near = INFINITY;
          std::string name;
          bool at_start = false;
          for (auto& [n, s] : p.cells[k].s)
            for (long double r : p.surf(n).roots(prev.pos, prev.dir)) {
              if (fabsl(r) <= tol) { at_start = true; continue; }
              if (r > 0 && r < near) { near = r; name = n; }
            }
          if (crossed) {
            run.count("crossings");
            const bool shortstep = at_start && step < 2 * tol;
            if (now.surf.empty()) fail("changed cell without a crossing");
            else if (!shortstep && now.surf != name) fail("crossed " + now.surf + ", nearest was " + name + " from " + show(prev.pos) + " along " + show(prev.dir));
            else if (!shortstep && fabsl(step - near) > tol + 1e-8L * near) fail(fmt("crossed %s after %.12g, it was %.12Lg ahead", now.surf.c_str(), step, near));
            if (!same(now.dir, prev.dir) || now.e != prev.e) fail("a crossing changed direction or energy");
            const auto ev = now.ev;
            if (now.cell->material ? ev != Particle::Event::surface_cross : ev != Particle::Event::leak) fail(fmt("crossing recorded as event %d", (int)ev));
            // the cell behind the boundary
            const V q = now.pos + 1e-7 * c.scale * prev.dir;
            int want = -1;
            for (size_t m = 0; m < p.cells.size() && want < 0; m++) { bool in = true; for (auto& [n, s] : p.cells[m].s) in = in && ((p.surf(n).f(q) < 0) == (s < 0)); if (in) want = (int)m; }
            if (want != index_of(now.cell) && !shortstep) fail(fmt("entered cell %d, expected %d", index_of(now.cell), want));
          } else {
            run.count("collisions");
            collisions++;
            if (step > near + tol) fail(fmt("moved %.12g past %s which was %.12Lg ahead, without a crossing", step, name.c_str(), near));
          }
          run.count("transitions");
        }
        prev = now;
      };
      verif::on_draw() = [&](std::minstd_rand& g) { if (&g == &part.rng) check(false); };
      verif::serve() = [&](std::minstd_rand&) {
        if (t.pos >= t.limit) {
          if (++tail > 20000) { fail("the track does not end"); part.event = Particle::Event::capture; }
          t.truncated = true;
          return (vh::mix(tail + 77) >> 11) * 0x1p-53;  // fixed and aperiodic
        }
        const double u = t.draw();
        return values[sub.v][(size_t)(u * t.K)];
      };
      auto proxy = probe.init_estimator_set.GetProxy();
      part.SetPerturbations(probe.perturbations);
      part.Transport(proxy, w);
      verif::on_draw() = nullptr;
      verif::serve() = nullptr;
      if (!bad) check(true);
      if (!bad) {
        const bool isvoid = !part.GetCell().material;
        using E = Particle::Event;
        if (part.event == E::leak) { run.count("ends_leak"); if (!isvoid) fail("ended in material without an interaction"); }
        else if (part.event == E::capture) { run.count("ends_capture"); if (isvoid || c.kind == Kind::scatter || c.kind == Kind::fission) fail("captured where that is impossible"); }
        else if (part.event == E::fission) { run.count("ends_fission"); if (isvoid || c.kind == Kind::scatter || c.kind == Kind::absorb) fail("caused fission where that is impossible"); }
        else fail(fmt("the track ended with event %d", (int)part.event));
        if ((c.kind == Kind::absorb || c.kind == Kind::fission) && !same(vec(part.GetDirection()), ref::unit(c.dirs[sub.d])) &&
            ref::dot(vec(part.GetDirection()), ref::unit(c.dirs[sub.d])) < 1 - 1e-12) fail("turned although nothing scatters");
      }
      run.count("paths");
      run.count("traces_validated_against_impl");
      if (t.truncated) run.count("truncated");
      if (bad) break;
    } while (t.next());
    if (i % 251 == 0) run.sample(what);
  }, describe, 200);
  run.note("paths longer than the explored depth continue with a fixed sequence of draws; they are counted as truncated");
  return run.finish();
}
