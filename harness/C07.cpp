// Sense and distance of every surface on a lattice of surfaces, points and directions, against long double geometry.
#include "CSGSurface.hpp"
#include "Point.hpp"
#include "refmc.hpp"
#include "vh.hpp"
using namespace vh;
using ref::V;

namespace {
std::string xml_of(const ref::Surface& s) {
  ref::Problem p;
  p.surfaces = {s};
  return "<minimc>" + ref::cells_xml(p) + "</minimc>";
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "traces_validated_against_impl", "distinct_nontrivial", "sense_checks", "hits", "misses", "exact_cases", "near_starts", "far_hits", "far_misses"});
  std::vector<ref::Surface> S;
  const std::vector<double> radii = run.thorough ? std::vector<double>{1e-6, 1e-3, 0.1, 0.5, 1, 1.7, 2, 3, 10, 1e3, 1e6} : std::vector<double>{1e-4, 0.5, 1, 1.7, 3, 1e3};
  std::vector<V> centers{{0, 0, 0}, {1, 2, 3}, {-0.3, 0.2, 0.7}, {100, -50, 25}, {-1e5, 3, 1e4}};
  if (run.thorough) for (double a : {-2., 0.7}) for (double b : {-1., 0.3}) for (double c : {0.9, 5.}) centers.push_back({a, b, c});
  for (double r : radii) {
    for (V c : centers) S.push_back({"s", 's', c, r});
    S.push_back({"s", 'c', {}, r});
  }
  for (double x : {0.0, 1.0, -1.0, 0.3, -250.0, 1e-5, 1e6}) S.push_back({"s", 'p', {x, 0, 0}, 0});
  std::vector<V> rel;
  {
    std::vector<double> g{-3.1, -1.013, -0.71, -0.2, 0, 0.11, 0.59, 0.97, 1.09, 2.3};
    if (run.thorough) for (double v : {-40., -1.4, -0.999, -0.4, 0.3, 0.77, 1.003, 17.}) g.push_back(v);
    for (double a : g) for (double b : g) for (double c : g) rel.push_back({a, b, c});
  }
  std::vector<V> dirs;
  for (int a = -2; a <= 2; a++) for (int b = -2; b <= 2; b++) for (int c = -2; c <= 2; c++)
    if (a || b || c) dirs.push_back({(double)a, (double)b, (double)c});
  for (double e : {1e-1, 1e-3, 1e-6}) for (int s : {-1, 1}) { dirs.push_back({s * e, 1, 0}); dirs.push_back({1, s * e, e}); dirs.push_back({-1, e, s * e}); dirs.push_back({e, -0.4, s * 1.0}); }
  for (double e : {1e-7, 1e-8, 3e-9, 1e-10, 1e-11}) for (int s : {-1, 1}) { dirs.push_back({s * 1.0, e, 0}); dirs.push_back({s * 1.0, -0.6 * e, 0.8 * e}); dirs.push_back({s * e, 0.6, -0.8}); }
  // one ray against long double geometry; false if it is too close to a tangent to tell
  auto ray = [&](const ref::Surface& s, const CSGSurface& surf, const V& p, const V& dv, double& got, long double& want, long double& tol, std::vector<long double>& roots) -> bool {
    const V o = s.kind == 'p' ? V{s.c.x, 0, 0} : s.c;
    const Direction dir{dv.x, dv.y, dv.z};
    const V u{dir.Dot(Point{1, 0, 0}), dir.Dot(Point{0, 1, 0}), dir.Dot(Point{0, 0, 1})};
    for (auto r : s.roots(p, u)) roots.push_back(r);
    want = INFINITY;
    bool skip = false;
    // conditioning of the quadratic: an error of a few ulp in its coefficients
    V oc = p - o; V pd = u;
    if (s.kind == 'c') { oc.x = 0; pd.x = 0; }
    const long double a = ref::dot(pd, pd), b = ref::dot(oc, pd), cmag = ref::dot(oc, oc) + s.r * s.r + (s.kind == 's' ? 2 * std::sqrt(ref::dot(o, o) * ref::dot(oc, oc)) : 0);
    if (s.kind == 'p') {
      if (u.x != 0 && std::fabs(u.x) < 1e-12) skip = true;
      tol = 1e-14L * (std::fabs(p.x) + std::fabs(s.c.x)) / std::max(1e-12, std::fabs(u.x));
    } else {
      // the square of the part of a direction across an axis may have been found by taking away the part along it
      const long double ea = s.kind == 'c' ? 6e-16L : 0;
      if (a > 0 && a < 10 * ea) return false;
      const long double derr = 4e-15L * (b * b + a * cmag) + ea * cmag;
      const long double disc = b * b - a * ((long double)ref::dot(oc, oc) - (long double)s.r * s.r);
      if (a > 0 && fabsl(disc) < 2 * derr) skip = true;
      tol = a > 0 ? derr / sqrtl(std::max(disc, 2 * derr)) / a + 1e-14L * fabsl(b) / a + ea / a * (fabsl(b) + sqrtl(std::max(disc, 0.0L))) / a : 0;
    }
    if (skip) return false;
    for (auto r : roots) {
      if (fabsl(r) <= 4 * tol) skip = true;
      if (r > 0 && r < want) want = r;
    }
    if (skip) return false;
    got = surf.Distance(Point{p.x, p.y, p.z}, dir);
    run.count("transitions");
    run.count("traces_validated_against_impl");
    run.count(std::isinf((double)want) ? "misses" : "hits");
    const bool ok = std::isinf((double)want) ? (std::isinf(got) && got > 0) : (std::isfinite(got) && fabsl(got - want) <= tol + 1e-13L * want);
    if (!ok)
      run.violation(fmt("distance %c r=%g c=(%g,%g,%g)", s.kind, s.r, s.c.x, s.c.y, s.c.z), fmt("from (%.17g,%.17g,%.17g) along (%g,%g,%g): %.17g, expected %.17Lg +- %.2Lg", p.x, p.y, p.z, dv.x, dv.y, dv.z, got, want, tol));
    return true;
  };
  run.cases("lattice", S.size(), [&](size_t k) {
    const ref::Surface& s = S[k];
    mini::Doc d(xml_of(s));
    const auto surf = CSGSurface::Create(d.root, "s");
    if (surf->name != "s") run.violation("name", "surface has another name");
    const double R = s.kind == 'p' ? std::max(1.0, std::fabs(s.c.x)) : s.r;
    const V o = s.kind == 'p' ? V{s.c.x, 0, 0} : s.c;
    // one more set of origins: far along the axis of a cylinder
    for (int far = 0; far < (s.kind == 'c' ? 3 : 1); far++)
      for (const V& q : rel) {
        V p = o + R * q;
        if (far) p.x += far == 1 ? 1e5 * R : -3e7 * R;
        run.count("states");
        const long double f = s.f(p);
        const double mag = s.kind == 'p' ? std::fabs(p.x) + std::fabs(s.c.x) : s.kind == 's' ? ref::dot(p - o, p - o) + s.r * s.r + 1e-3 * (std::sqrt(ref::dot(o, o)) * R) : p.y * p.y + p.z * p.z + s.r * s.r;
        if (fabsl(f) > 1e-12L * mag) {
          run.count("sense_checks");
          if (surf->Contains(Point{p.x, p.y, p.z}) != (f < 0))
            run.violation(fmt("sense %c r=%g c=(%g,%g,%g)", s.kind, s.r, s.c.x, s.c.y, s.c.z), fmt("Contains(%.17g,%.17g,%.17g) is %d, signed function %.9Lg", p.x, p.y, p.z, !(f < 0), f));
        }
        for (const V& dv : dirs) {
          double got;
          long double want, tol;
          std::vector<long double> roots;
          if (!ray(s, *surf, p, dv, got, want, tol, roots)) continue;
          const Direction dir{dv.x, dv.y, dv.z};
          const V u{dir.Dot(Point{1, 0, 0}), dir.Dot(Point{0, 1, 0}), dir.Dot(Point{0, 0, 1})};
          // the sense along the ray
          if (std::isfinite(got) && std::isfinite((double)want)) {
            const Point P{p.x, p.y, p.z};
            const bool before = surf->Contains(P);
            const double margin = 1e-6 * got + (double)(4 * tol);
            double gap = got;
            for (auto r : roots) if (r > want) gap = std::min<double>(gap, r - want);
            const double ulp = 1e-15 * (std::fabs(p.x) + std::fabs(p.y) + std::fabs(p.z) + got);
            if (gap > 8 * margin && margin > 100 * ulp) {
              for (double fr : {0.25, 0.5, 0.9}) if (fabsl(s.f(p + (fr * got) * u)) > 1e-11L * mag && surf->Contains(P + dir * (fr * got)) != before)
                run.violation(fmt("sense-before %c r=%g", s.kind, s.r), fmt("the sense changes before the distance %.17g from (%.17g,%.17g,%.17g) along (%g,%g,%g)", got, p.x, p.y, p.z, dv.x, dv.y, dv.z));
              const V q = p + (got + 2 * margin) * u;
              if (fabsl(s.f(q)) > 1e-11L * mag && surf->Contains(P + dir * (got + 2 * margin)) == before)
                run.violation(fmt("sense-across %c r=%g", s.kind, s.r), fmt("the sense does not flip across the distance %.17g from (%.17g,%.17g,%.17g) along (%g,%g,%g)", got, p.x, p.y, p.z, dv.x, dv.y, dv.z));
            }
          }
        }
      }
    run.distinct("distinct_nontrivial", hash(xml_of(s)));
    if (k % 9 == 0) run.sample(fmt("%c radius %g centre (%g,%g,%g)", s.kind, s.r, s.c.x, s.c.y, s.c.z));
  }, [&](size_t k) { return fmt("%c r=%g c=(%g,%g,%g)", S[k].kind, S[k].r, S[k].c.x, S[k].c.y, S[k].c.z); });

  // ---- far: rays from many radii away which hit, graze or miss
  std::vector<ref::Surface> F;
  for (auto& s : S) if (s.kind != 'p') F.push_back(s);
  run.cases("far", F.size(), [&](size_t k) {
    const ref::Surface& s = F[k];
    mini::Doc d(xml_of(s));
    const auto surf = CSGSurface::Create(d.root, "s");
    std::vector<V> from;
    for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) for (int c = -1; c <= 1; c++) if (s.kind == 's' ? a || b || c : b || c) from.push_back({a + 0.01 * b, b + 0.02 * c, c - 0.03 * a});
    for (double far = 3; far < 2e7; far *= run.thorough ? 2 : 5)
      for (auto& f : from) {
        const V p = s.c + (far * s.r) * f;
        for (double h : {0.0, 0.3, -0.8, 0.97, 1.04, 1.3})
          for (auto& n : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}, V{0.6, 0.48, -0.64}}) {
            const V w = ref::unit(f), side = n - ref::dot(n, w) * w;
            if (ref::dot(side, side) < 0.1) continue;
            const V dv = s.c + (h * s.r) * ref::unit(side) - p;
            double got;
            long double want, tol;
            std::vector<long double> roots;
            run.count("states");
            if (ray(s, *surf, p, dv, got, want, tol, roots)) run.count(std::isinf((double)want) ? "far_misses" : "far_hits");
          }
      }
  }, [&](size_t k) { return fmt("far %c r=%g c=(%g,%g,%g)", F[k].kind, F[k].r, F[k].c.x, F[k].c.y, F[k].c.z); });

  // exactly representable: on the surface, tangency, strictness
  struct Ex { ref::Surface s; V p; V d; double want; int contains; };
  std::vector<Ex> ex;
  for (double x : {0.0, 2.0, -4096.0}) {
    const ref::Surface s{"s", 'p', {x, 0, 0}, 0};
    for (V d : {V{1, 0, 0}, V{-1, 0, 0}, V{0, 1, 0}, V{0, 0, -1}, V{-0.0, 1, 0}}) ex.push_back({s, {x, 3, 1}, d, INFINITY, 0});
    for (V d : {V{0, 1, 0}, V{-0.0, 0, 1}, V{0, -1, -0.0}}) { ex.push_back({s, {x + 1, 0, 0}, d, INFINITY, 0}); ex.push_back({s, {x - 1, 0, 0}, d, INFINITY, 1}); }
    ex.push_back({s, {x - 1, 0, 0}, {1, 0, 0}, 1, 1});
    ex.push_back({s, {x + 1, 0, 0}, {1, 0, 0}, INFINITY, 0});
    ex.push_back({s, {x + 1, 0, 0}, {-1, 0, 0}, 1, 0});
  }
  for (double k : {1.0, 0.125, 64.0})
    for (V c : {V{0, 0, 0}, V{8, -16, 4}}) {
      const ref::Surface s{"s", 's', c, 5 * k};
      for (V e : {V{5, 0, 0}, V{3, 4, 0}, V{0, -3, 4}, V{-4, 0, -3}, V{0, 0, -5}}) {
        const V p = c + k * e;
        ex.push_back({s, p, e, INFINITY, 0});                    // outwards from the surface
        ex.push_back({s, p, V{} - e, 10 * k, 0});                // inwards through the whole ball
        // a tangent at the point, started some way back
        const V t = e.x == 0 && e.y == 0 ? V{1, 0, 0} : e.z == 0 ? V{0, 0, 1} : e.x == 0 ? V{1, 0, 0} : V{0, 1, 0};
        ex.push_back({s, p - (2 * k) * t, t, INFINITY, 0});
        ex.push_back({s, p, t, INFINITY, 0});
      }
      ex.push_back({s, c, {0, 1, 0}, 5 * k, 1});
      ex.push_back({s, c + V{3 * k, 0, 0}, {0, 0, 1}, 4 * k, 1});
      ex.push_back({s, c + V{3 * k, 0, -8 * k}, {0, 0, 1}, 4 * k, 0});
      ex.push_back({s, c + V{3 * k, 0, 8 * k}, {0, 0, 1}, INFINITY, 0});
    }
  for (double k : {1.0, 0.25, 32.0}) {
    const ref::Surface s{"s", 'c', {}, 5 * k};
    for (double x : {0.0, 1024.0, -1.5}) {
      for (V e : {V{0, 5, 0}, V{0, 3, 4}, V{0, -4, 3}, V{0, 0, -5}}) {
        const V p = V{x, 0, 0} + k * e;
        ex.push_back({s, p, e, INFINITY, 0});
        ex.push_back({s, p, V{} - e, 10 * k, 0});
        ex.push_back({s, p, {1, 0, 0}, INFINITY, 0});
        ex.push_back({s, p, {-1, 0, 0}, INFINITY, 0});
      }
      ex.push_back({s, {x, 0, 0}, {1, 0, 0}, INFINITY, 1});
      ex.push_back({s, {x, 3 * k, 0}, {0, 0, 1}, 4 * k, 1});
      ex.push_back({s, {x, 3 * k, -8 * k}, {0, 0, 1}, 4 * k, 0});
      ex.push_back({s, {x, 5 * k, -8 * k}, {0, 0, 1}, INFINITY, 0});
      ex.push_back({s, {x, 6 * k, -8 * k}, {0, 0, 1}, INFINITY, 0});
      ex.push_back({s, {x, 7 * k, 0}, {-1, 0, 0}, INFINITY, 0});
    }
  }
  run.cases("exact", ex.size(), [&](size_t i) {
    const Ex& e = ex[i];
    mini::Doc d(xml_of(e.s));
    const auto surf = CSGSurface::Create(d.root, "s");
    const double got = surf->Distance(Point{e.p.x, e.p.y, e.p.z}, Direction{e.d.x, e.d.y, e.d.z});
    const bool in = surf->Contains(Point{e.p.x, e.p.y, e.p.z});
    run.count("exact_cases");
    const std::string key = fmt("exact %c r=%g from (%g,%g,%g) along (%g,%g,%g)", e.s.kind, e.s.r, e.p.x, e.p.y, e.p.z, e.d.x, e.d.y, e.d.z);
    if (!(std::isinf(e.want) ? std::isinf(got) && got > 0 : close_to(got, e.want, 1e-12, 0))) run.violation(key, fmt("distance %.17g, expected %.17g", got, e.want));
    if (in != (e.contains == 1)) run.violation(key, fmt("Contains is %d, expected %d", in, e.contains));
  }, [&](size_t i) { return fmt("exact %zu", i); });

  // ---- near: starts just inside and just outside a surface, much closer than its size; the distance to it, small as it
  // is, and to the far side. The offsets are powers of two so that the start is exact on planes, and what the
  // offset really is comes from long double geometry.
  struct Near { ref::Surface s; V on, normal; };  // a point on the surface, normal pointing outwards (plane: to positive x)
  std::vector<Near> nn;
  for (double x : {0.0, 1.0, -0.375, 1024.0}) nn.push_back({{"s", 'p', {x, 0, 0}, 0}, {x, 0.3, -2}, {1, 0, 0}});
  for (double r : {0.0009765625, 0.5, 1.0, 3.0, 512.0})
    for (V n : {V{1, 0, 0}, V{0, -1, 0}, V{0, 0.6, 0.8}, V{0, -0.8, 0.6}, V{0.6, 0.64, -0.48}}) {
      for (V c : {V{0, 0, 0}, V{0.25, -1, 2}}) nn.push_back({{"s", 's', c, r}, c + r * n, n});
      if (n.x == 0) nn.push_back({{"s", 'c', {}, r}, V{0.7, 0, 0} + r * n, n});
    }
  const int deepest = run.thorough ? -46 : -44;
  run.cases("near", nn.size(), [&](size_t i) {
    const Near& q = nn[i];
    mini::Doc d(xml_of(q.s));
    const auto surf = CSGSurface::Create(d.root, "s");
    const double size = q.s.kind == 'p' ? 1 : q.s.r;
    const V side = q.normal.x == 1 || q.normal.x == -1 ? V{0, 1, 0} : V{1, 0, 0};
    std::vector<V> dirs2;
    for (double t : {0.0, 0.1, 0.7, 2.0, 8.0}) for (int sg : {-1, 1}) { dirs2.push_back(ref::unit(sg * q.normal + t * side)); if (t) dirs2.push_back(ref::unit(sg * q.normal + -t * side + 0.3 * t * V{q.normal.y * side.z - q.normal.z * side.y, q.normal.z * side.x - q.normal.x * side.z, q.normal.x * side.y - q.normal.y * side.x})); }
    for (int ex = -3; ex >= deepest; ex--)
      for (int sg : {-1, 1})
        for (const V& dv : dirs2) {
          const V p = q.on + (sg * size * std::ldexp(1.0, ex)) * q.normal;
          const Direction dir{dv.x, dv.y, dv.z};
          const V u{dir.Dot(Point{1, 0, 0}), dir.Dot(Point{0, 1, 0}), dir.Dot(Point{0, 0, 1})};
          const auto roots = q.s.roots(p, u);
          long double want = INFINITY, nearest = INFINITY;
          for (auto r : roots) { if (r > 0 && r < want) want = r; nearest = std::min(nearest, fabsl(r)); }
          // a few ulp in the coefficients move a root by
          const double ulps = 4e-16 * (std::sqrt(ref::dot(p, p)) + size) * (std::sqrt(ref::dot(q.s.kind == 'p' ? V{} : q.s.c, q.s.kind == 'p' ? V{} : q.s.c)) / size + 4);
          const double slope = std::fabs(ref::dot(u, q.normal));
          const double tol = 4 * ulps / slope;
          if (nearest < 8 * tol) continue;  // which side of the surface the start lies is lost in rounding
          const double got = surf->Distance(Point{p.x, p.y, p.z}, dir);
          run.count("near_starts");
          run.count("transitions");
          run.count("traces_validated_against_impl");
          const bool ok = std::isinf((double)want) ? (std::isinf(got) && got > 0) : (std::isfinite(got) && fabsl(got - want) <= tol + 1e-13L * want);
          if (!ok)
            run.violation(fmt("near %c r=%g c=(%g,%g,%g)", q.s.kind, q.s.r, q.s.c.x, q.s.c.y, q.s.c.z), fmt("%s by 2^%d sizes, from (%.17g,%.17g,%.17g) along (%g,%g,%g): distance %.17g, expected %.17Lg +- %.2g", sg > 0 ? "outside" : "inside", ex, p.x, p.y, p.z, dv.x, dv.y, dv.z, got, want, tol));
          if (surf->Contains(Point{p.x, p.y, p.z}) != (sg < 0)) run.violation(fmt("near sense %c r=%g", q.s.kind, q.s.r), fmt("wrong side at (%.17g,%.17g,%.17g)", p.x, p.y, p.z));
        }
    if (i % 9 == 0) run.sample(fmt("near %c r=%g c=(%g,%g,%g) normal (%g,%g,%g)", q.s.kind, q.s.r, q.s.c.x, q.s.c.y, q.s.c.z, q.normal.x, q.normal.y, q.normal.z));
  }, [&](size_t i) { return fmt("near %zu", i); });
  return run.finish();
}
