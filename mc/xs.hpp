// Microscopic cross sections of a continuous-energy nuclide as the data and the temperature define them.
#pragma once
#include "cont.hpp"
#include "tsl.hpp"
#include <cmath>

namespace xs {
constexpr double kB = 8.617333262145e-11;
inline bool near(double T, double eval) { return std::fabs(T - eval) / eval < 0.01; }
inline double factor(double awr, double E, double T) {
  if (T == 0) return 1;
  const double a = awr * E / (kB * T);
  return (1 + 1 / (2 * a)) * std::erf(std::sqrt(a)) + std::exp(-a) / std::sqrt(M_PI * a);
}
struct Nuclide : cont::Nuclide {
  const tsl::Data* law = nullptr;
  bool thermal(double E) const { return law && E < law->E.back(); }
  double scat(double E, double T) const {
    if (scatter.e.empty()) return 0;
    if (thermal(E)) return law->total(E, T);
    const double s = scatter.at(E);
    if (near(T, scatter.T)) return s;
    if (type == "neutron" && (awr <= 1 || E < 500 * kB * T / awr)) return s * factor(awr, E, T) / factor(awr, E, scatter.T);
    return s;
  }
  double sum(double E, double T) const { return (capture.e.empty() ? 0 : capture.at(E)) + (fission.e.empty() ? 0 : fission.at(E)) + scat(E, T); }
  double tot(double E, double T) const {
    if (!total.e.empty() && !thermal(E) && near(T, total.T)) return total.at(E);
    return sum(E, T);
  }
};
inline std::string xml(const std::string& dir, const std::string& prefix, const std::vector<Nuclide>& ns) {
  std::vector<cont::Nuclide> v;
  for (auto& n : ns) {
    v.push_back(n);
    if (n.law) v.back().tsl = tsl::xml(dir, prefix + "-" + n.name, *n.law);
  }
  return cont::xml(dir, prefix, v);
}
}  // namespace xs
