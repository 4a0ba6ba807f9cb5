// Point location and nearest boundary: every sequence of cells over every combination of surface senses, in two sets of
// surfaces, at points in every region of space and along a lattice of rays, against first-match and nearest-root models.
#include "CSGSurface.hpp"
#include "Material.hpp"
#include "World.hpp"
#include "refmc.hpp"
#include "vh.hpp"
#include <algorithm>
#include <iostream>
using namespace vh;
using ref::V;

struct Set { std::string name; std::vector<ref::Surface> s; };

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "documents", "lookups", "rays", "errors_expected", "traces_validated_against_impl"});
  std::cout.rdbuf(nullptr);
  std::vector<Set> sets;
  sets.push_back({"ball, plane, pipe", {{"a", 's', {0.5, 0.2, -0.1}, 2}, {"b", 'p', {0.3, 0, 0}, 0}, {"c", 'c', {}, 1.3}}});
  sets.push_back({"pipe, ball, plane", {{"a", 'c', {}, 1.7}, {"b", 's', {-0.4, 0.9, 0.3}, 1.6}, {"c", 'p', {-0.6, 0, 0}, 0}}});
  sets.push_back({"balls and plane", {{"zz", 's', {0, 0, 0}, 1.5}, {"Z", 's', {1, 0.3, 0}, 1.8}, {"10", 'p', {0.7, 0, 0}, 0}}});
  sets.push_back({"planes and pipe", {{"p 2", 'p', {1, 0, 0}, 0}, {"p 10", 'p', {-1, 0, 0}, 0}, {"p 1", 'c', {}, 1.1}}});
  // a lattice of points off all surfaces
  std::vector<V> pts, dirs;
  for (double x : {-3.1, -0.9, 0.05, 0.45, 1.37, 4.2})
    for (double y : {-2.4, -0.31, 0.74, 1.9})
      for (double z : {-0.83, 0.16, 2.6}) pts.push_back({x, y, z});
  for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) dirs.push_back(ref::unit({x + 0.0, y + 0.0, z + 0.0}));
  dirs.push_back(ref::unit({1, 1e-5, 0}));
  dirs.push_back(ref::unit({1e-5, -1, 0.02}));
  dirs.push_back(ref::unit({-0.3, 0.7, 0.1}));
  // senses per surface: 0 absent, 1 negative, 2 positive
  struct Doc { int set; std::vector<std::array<int, 4>> cells; };  // three senses and the material 0: void, 1, 2
  std::vector<Doc> docs;
  std::vector<std::array<int, 3>> full, two;
  for (int i = 1; i < 27; i++) { std::array<int, 3> v{i % 3, i / 3 % 3, i / 9}; full.push_back(v); if (!v[2]) two.push_back(v); }
  for (int set = 0; set < (int)sets.size(); set++) {
    for (auto& f : full) for (int m = 0; m < 3; m++) docs.push_back({set, {{f[0], f[1], f[2], m}}});
    for (auto& f : full) for (auto& g : full) for (int m = 0; m < 9; m++) {
      if (!run.thorough && m % 4 != (int)(docs.size() % 4)) continue;
      docs.push_back({set, {{f[0], f[1], f[2], m % 3}, {g[0], g[1], g[2], m / 3}}});
    }
    for (auto& f : run.thorough ? full : two) for (auto& g : run.thorough ? full : two) for (auto& h : run.thorough ? full : two)
      docs.push_back({set, {{f[0], f[1], f[2], (int)(docs.size() % 3)}, {g[0], g[1], g[2], (int)(docs.size() / 3 % 3)}, {h[0], h[1], h[2], (int)(docs.size() / 9 % 3)}}});
    for (auto& f : two) for (auto& g : two) for (auto& h : two) for (auto& k : two) {
      if (!run.thorough && (f[0] + g[1] + h[0] + k[1]) % 3) continue;
      docs.push_back({set, {{f[0], f[1], 0, 1}, {g[0], g[1], 0, 2}, {h[0], h[1], 0, 0}, {k[0], k[1], 0, 1}}});
    }
  }
  // voids which name a surface more than once (3, 4: both senses; 5: one sense twice), before and after a cell
  for (int set = 0; set < (int)sets.size(); set++)
    for (int i = 0; i < 216; i++) {
      const std::array<int, 3> v{i % 6, i / 6 % 6, i / 36};
      if (*std::max_element(v.begin(), v.end()) < 3 || (!run.thorough && (i + set) % 3)) continue;
      for (auto& f : two) {
        docs.push_back({set, {{v[0], v[1], v[2], 0}, {f[0], f[1], f[2], 1}}});
        docs.push_back({set, {{f[0], f[1], f[2], 2}, {v[0], v[1], v[2], 0}}});
      }
    }
  auto problem = [&](size_t k) {
    const Doc& d = docs[k];
    ref::Problem p;
    p.surfaces = sets[d.set].s;
    ref::Reacts r; r.capture = {1};
    for (const char* n : {"n1", "n2"}) { ref::Nuclide x; x.name = n; x.by["neutron"] = r; p.nuclides.push_back(x); }
    p.materials = {{"one", 0.5, {{"n1", 1}}}, {"spare", 7, {{"n1", 1}}}, {"two", 0.25, {{"n2", 1}}}};
    for (size_t i = 0; i < d.cells.size(); i++) {
      auto& c = d.cells[i];
      ref::Cell cell;
      cell.name = c[3] ? "cell " + std::to_string(i) : "";
      cell.material = c[3] == 0 ? "" : c[3] == 1 ? "one" : "two";
      for (int k = 0; k < 3; k++) {
        const int s = (k + (int)i) % 3;  // surfaces listed in different orders
        if (c[s]) cell.s.push_back({p.surfaces[s].name, c[s] == 1 || c[s] == 3 || c[s] == 5 ? -1 : 1});
        if (c[s] >= 3) cell.s.push_back({p.surfaces[s].name, c[s] == 4 || c[s] == 5 ? -1 : 1});
      }
      p.cells.push_back(cell);
    }
    // every fourth document with names that are easily taken for each other
    return mix(k) % 4 ? p : ref::rename(p, 1 + (int)(mix(k) / 4 % (ref::kSchemes - 1)), mix(k) / 64 % 12);
  };
  // one document: cells, points, rays
  auto verify = [&](const ref::Problem& p, const std::string& title, size_t di) {
    mini::Doc doc(mini::wrap(mini::general() + ref::nuclides_xml(p) + ref::materials_xml(p) + ref::cells_xml(p)));
    const std::string what = title + " " + ref::cells_xml(p).substr(ref::cells_xml(p).find("<cells>"));
    try {
      const World w{doc.root};
      run.count("documents");
      if (w.cells.size() != p.cells.size()) { run.violation(what, fmt("%zu cells were made", w.cells.size())); return; }
      for (size_t i = 0; i < p.cells.size(); i++) {
        run.count("states");
        const auto& cell = w.cells.at(i);
        if (p.cells[i].material.empty() != (cell.material == nullptr)) run.violation(what, fmt("cell %zu: void has a material or cell has none", i));
        else if (cell.material && (cell.material->name != p.cells[i].material || cell.material->number_density != p.mat(p.cells[i].material).aden))
          run.violation(what, fmt("cell %zu has material %s (%g)", i, cell.material->name.c_str(), cell.material->number_density));
        if (!p.cells[i].material.empty() && cell.name != p.cells[i].name) run.violation(what, "cell " + p.cells[i].name + " is called " + cell.name);
      }
      for (size_t pi = 0; pi < pts.size(); pi++) {
        const V q = pts[pi];
        int want = -1;
        for (size_t i = 0; i < p.cells.size() && want < 0; i++) {
          bool in = true;
          for (auto& [n, s] : p.cells[i].s) in = in && ((p.surf(n).f(q) < 0) == (s < 0));
          if (in) want = (int)i;
          if (w.cells.at(i).Contains(Point{q.x, q.y, q.z}) != in) run.violation(what, fmt("Contains of cell %zu at (%g,%g,%g) is %d", i, q.x, q.y, q.z, !in));
        }
        int got = -1;
        try {
          const Cell& f = w.FindCellContaining(Point{q.x, q.y, q.z});
          got = -2;
          for (size_t i = 0; i < p.cells.size(); i++) if (f == w.cells.at(i)) got = (int)i;
        } catch (const std::exception&) {}
        run.count("lookups");
        run.count("transitions");
        run.count("traces_validated_against_impl");
        if (want < 0) run.count("errors_expected");
        if (got != want) run.violation(what, fmt("(%g,%g,%g) is in cell %d, expected %d (-1: error)", q.x, q.y, q.z, got, want));
        if (p.cells.size() > 2 && (pi + di) % 7) continue;
        for (size_t i = 0; i < p.cells.size(); i++)
          for (size_t dk = (pi + di) % 3; dk < dirs.size(); dk += run.thorough ? 1 : 3) {
            const V d = dirs[dk];
            std::map<std::string, double> dist;
            double best = INFINITY, second = INFINITY;
            for (auto& [n, s] : p.cells[i].s) {
              double m = INFINITY;
              for (long double r : p.surf(n).roots(q, d)) if (r > 0 && r < m) m = (double)r;
              dist[n] = m;
              if (m < best) { second = best; best = m; } else if (m < second) second = m;
            }
            std::string name;
            double got_d = NAN;
            try {
              const auto [s, x] = w.cells.at(i).NearestSurface(Point{q.x, q.y, q.z}, Direction{d.x, d.y, d.z});
              name = s->name;
              got_d = x;
            } catch (const std::exception& e) { run.violation(what, fmt("NearestSurface of cell %zu failed: ", i) + e.what()); continue; }
            run.count("rays");
            run.count("transitions");
            run.count("traces_validated_against_impl");
            const std::string at = fmt("cell %zu from (%g,%g,%g) along (%g,%g,%g): ", i, q.x, q.y, q.z, d.x, d.y, d.z);
            if (!dist.count(name)) run.violation(what, at + "surface " + name + " is not of the cell");
            else if (!close_to(got_d, best, 1e-9, 0)) run.violation(what, at + fmt("distance %.12g to %s, expected %.12g", got_d, name.c_str(), best));
            else if (!std::isinf(best) && !close_to(dist[name], best, 1e-9, 0)) run.violation(what, at + "surface " + name + " is not the nearest");
          }
      }
      if (di % 6007 == 0) run.sample(what);
    } catch (const std::exception& e) { run.violation(what, std::string("rejected: ") + e.what()); }
  };
  const size_t chunk = 64;
  run.cases("cells", (docs.size() + chunk - 1) / chunk, [&](size_t c) {
    for (size_t di = c * chunk; di < std::min(docs.size(), (c + 1) * chunk); di++) {
      verify(problem(di), sets[docs[di].set].name, di);
      if (run.failed_case()) return;
    }
  }, [&](size_t c) { return fmt("documents %zu to %zu", c * chunk, (c + 1) * chunk - 1); }, 120);

  // ---- many: cells of many surfaces, and many cells. n surfaces; the cells are the regions between them, each bounded by
  // all n, in several orders; nested shells and rows of slabs.
  struct Many { int kind, n, order, materials; };
  std::vector<Many> many;
  for (int kind = 0; kind < 4; kind++)
    for (int n : kind < 2 ? std::vector<int>{3, 4, 5, 6, 7} : std::vector<int>{4, 7, 9, 10, 12, 17, 33, 65, 130})
      for (int order = 0; order < 4; order++) for (int m : {1, 2, 13}) { if (kind < 2 && n > 5 && !run.thorough && m != 13) continue; many.push_back({kind, n, order, m}); }
  // kind 4: a cell is inside one sphere and outside all spheres before it; the last cell is outside all of them
  for (int n : {7, 9, 12, 17, 33, 65}) for (int order = 0; order < 4; order++) many.push_back({4, n, order, 2});
  auto built = [&](size_t i) {
    const Many& q = many[i];
    ref::Problem p;
    for (int k = 0; k < q.n; k++) {
      const std::string nm = "s" + std::to_string(k);
      if (q.kind == 4) {
        const V& at = pts[(size_t)(k * 37 + q.order * 11) % pts.size()];
        p.surfaces.push_back({nm, 's', {at.x + 0.013 * k, at.y - 0.021 * k, at.z + 0.017}, 0.5 + 0.011 * k});
      } else if (q.kind == 2) p.surfaces.push_back({nm, 's', {0.1, 0.05, -0.02}, 0.4 + 0.3 * k * (10.0 / q.n)});
      else if (q.kind == 3) p.surfaces.push_back({nm, 'p', {-3 + 7.0 * (k + 0.3) / q.n, 0, 0}, 0});
      else if ((k + q.kind) % 3 == 0) p.surfaces.push_back({nm, 's', {-0.4 * k, 0.3 * k, 0.1 * k}, 1.3 + 0.31 * k});
      else if ((k + q.kind) % 3 == 1) p.surfaces.push_back({nm, 'p', {-1.6 + 0.73 * k, 0, 0}, 0});
      else p.surfaces.push_back({nm, 'c', {}, 0.7 + 0.42 * k});
    }
    ref::Reacts r; r.capture = {1};
    for (int m = 0; m < q.materials; m++) {
      ref::Nuclide x; x.name = "n" + std::to_string(m); x.by["neutron"] = r; p.nuclides.push_back(x);
      p.materials.push_back({"m" + std::to_string(m), 0.25 + m, {{x.name, 1}}});
    }
    const size_t cells = q.kind < 2 ? 1u << q.n : q.n + 1;
    for (size_t j = 0; j < cells; j++) {
      size_t k = q.order == 0 ? j : q.order == 1 ? cells - 1 - j : q.order == 2 ? (j * 5 + 3) % cells : (j % 2 ? cells - 1 - j / 2 : j / 2);
      if (q.order == 2 && cells % 5 == 0) k = (j + cells / 2) % cells;
      ref::Cell c;
      const bool is_void = k % 7 == 5;
      c.name = is_void ? "" : "cell " + std::to_string(k);
      c.material = is_void ? "" : "m" + std::to_string(k % q.materials);
      if (q.kind < 2) for (int s = 0; s < q.n; s++) { const int at = (s + (int)k) % q.n; c.s.push_back({p.surfaces[at].name, k >> at & 1 ? 1 : -1}); }
      else if (q.kind == 4) {
        for (size_t s = 0; s < k; s++) c.s.push_back({p.surfaces[s].name, 1});
        if (k < (size_t)q.n) c.s.push_back({p.surfaces[k].name, -1});
        if (!c.s.empty()) std::rotate(c.s.begin(), c.s.begin() + j % c.s.size(), c.s.end());
      } else { if (k < (size_t)q.n) c.s.push_back({p.surfaces[k].name, -1}); if (k > 0) c.s.push_back({p.surfaces[k - 1].name, 1}); if (j % 2) std::reverse(c.s.begin(), c.s.end()); }
      p.cells.push_back(c);
    }
    return p;
  };
  auto md = [&](size_t i) { return fmt("many: kind %d, %d surfaces, order %d, %d materials", many[i].kind, many[i].n, many[i].order, many[i].materials); };
  run.cases("many", many.size(), [&](size_t i) {
    const ref::Problem p = built(i);
    verify(i % 3 == 2 ? ref::rename(p, 1 + (int)(i / 3 % (ref::kSchemes - 1)), i % 12) : p, md(i), i);
  }, md, 120);
  return run.finish();
}
