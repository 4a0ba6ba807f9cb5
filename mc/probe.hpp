// A driver whose parts the harness may use, made in the way every driver is made.
#pragma once
#include "CSGSurface.hpp"
#include "Cell.hpp"
#include "Driver.hpp"
#include "Estimator.hpp"
#include "Material.hpp"
#include "Nuclide.hpp"
#include "Particle.hpp"
#include "Perturbation.hpp"
#include "ScalarField.hpp"
#include "World.hpp"
#include "mini.hpp"
#include "refmc.hpp"

struct Probe : public Driver {
  explicit Probe(const pugi::xml_node& root) : Driver{root} {}
  EstimatorSet Solve() override { return init_estimator_set; }
  using Driver::init_estimator_set;
  using Driver::perturbations;
  using Driver::transport_method;
  using Driver::world;
};
inline ref::V vec(const Point& p) {
  static const Point x{1, 0, 0}, y{0, 1, 0}, z{0, 0, 1};
  return {p.Dot(x), p.Dot(y), p.Dot(z)};
}
inline Point point(ref::V v) { return Point{v.x, v.y, v.z}; }
inline Direction direction(ref::V v) { return Direction{v.x, v.y, v.z}; }
inline double energy_of(const Particle& p) {
  return std::holds_alternative<Group>(p.GetEnergy()) ? (double)std::get<Group>(p.GetEnergy()) : std::get<ContinuousEnergy>(p.GetEnergy());
}
inline bool same(ref::V a, ref::V b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
