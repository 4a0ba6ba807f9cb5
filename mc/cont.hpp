// Continuous-energy nuclides for harnesses: tables are written to the scratch directory.
#pragma once
#include "h5.hpp"
#include "mini.hpp"
#include <algorithm>
#include <string>

namespace cont {
using h5::Vec;
// evaluation of a reaction: energies, values, temperature
struct Eval {
  Vec e, v;
  double T = 293.6;
  double at(double x) const {
    if (x >= e.back()) return v.back();
    if (x < e.front()) return v.front();
    const size_t i = std::upper_bound(e.begin(), e.end(), x) - e.begin() - 1;
    return v[i] + (v[i + 1] - v[i]) / (e[i + 1] - e[i]) * (x - e[i]);
  }
};
struct Nuclide {
  std::string name;
  double awr = 10;
  std::string type = "neutron";
  Eval total, capture, scatter, fission, nubar;  // empty energies: absent
  std::string tsl;                               // element inside <scatter>
  std::string others;                            // further particle types
};
inline std::string attrs(const std::string& dir, const std::string& n, const Eval& e) {
  return " file=\"" + h5::table(dir, n, e.e, e.v) + "\" temperature=\"" + mini::num(e.T) + "\"/>";
}
inline std::string xml(const std::string& dir, const std::string& prefix, const std::vector<Nuclide>& ns) {
  std::string x = "<nuclides><continuous>";
  for (auto& n : ns) {
    const std::string b = prefix + "-" + n.name;
    x += "<nuclide name=\"" + n.name + "\" awr=\"" + mini::num(n.awr) + "\"><" + n.type + ">";
    if (!n.total.e.empty()) x += "<total" + attrs(dir, b + "-total", n.total);
    if (!n.capture.e.empty()) x += "<capture" + attrs(dir, b + "-capture", n.capture);
    if (!n.scatter.e.empty()) x += "<scatter><xs" + attrs(dir, b + "-scatter", n.scatter) + n.tsl + "</scatter>";
    if (!n.fission.e.empty()) x += "<fission><xs" + attrs(dir, b + "-fission", n.fission) + "<nubar" + attrs(dir, b + "-nubar", n.nubar) + "</fission>";
    x += "</" + n.type + ">" + n.others + "</nuclide>";
  }
  return x + "</continuous></nuclides>";
}
inline Eval flat(double v, double T = 293.6) { return {{1e-14, 20}, {v, v}, T}; }
}  // namespace cont
