// Thermal scattering data for harnesses: the tables as they are meant, the files they are written to, and what follows
// from them (computed here from the meaning, not with the code under test).
#pragma once
#include "h5.hpp"
#include "mini.hpp"
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

namespace tsl {
using h5::Vec;
constexpr double kB = 8.617333262145e-11;
struct Grid {          // one partition: first axis (energy or beta), cumulative probabilities, value[f][x][t]
  Vec x, F;
  std::vector<std::vector<Vec>> v;
  Vec T;               // its own temperatures, or none if those of the other tables
};
struct Data {
  Vec T;                              // tabulated temperatures (all tables)
  Vec E;                              // energies of the cross section; the last is the cutoff
  std::vector<Vec> xs;                // xs[e][t]
  Vec majE, majV;
  std::vector<Grid> beta, alpha;
  double beta_cutoff = 20, alpha_cutoff = 1000;
  // position of a temperature in the tables, clamped
  void at_T(double t, size_t& i, double& r) const { at_T(T, t, i, r); }
  static void at_T(const Vec& T, double t, size_t& i, double& r) {
    if (T.size() == 1 || t <= T.front()) { i = 0; r = 0; return; }
    if (t >= T.back()) { i = T.size() - 2; r = 1; return; }
    i = 0;
    while (T[i + 1] <= t) i++;
    r = (t - T[i]) / (T[i + 1] - T[i]);
  }
  double lin(const Vec& v, double t) const { return lin(T, v, t); }
  double lin(const Grid& g, size_t f, size_t x, double t) const { return lin(g.T.empty() ? T : g.T, g.v[f][x], t); }
  static double lin(const Vec& T, const Vec& v, double t) {
    size_t i; double r;
    at_T(T, t, i, r);
    return T.size() == 1 ? v[0] : v[i] + r * (v[i + 1] - v[i]);
  }
  double total(double e, double t) const {
    if (e < E.front()) return lin(xs.front(), t);
    size_t i = 0;
    while (i + 2 < E.size() && E[i + 1] <= e) i++;
    const double a = lin(xs[i], t), b = lin(xs[i + 1], t);
    return a + (b - a) * (e - E[i]) / (E[i + 1] - E[i]);
  }
  double Tc(double t) const { return std::min(std::max(t, T.front()), T.back()); }
};
// Decomposition of table[f][x*..] as sum over orders of S(o) C(f,o) M(rest,o): one order per row f (scaled), plus one
// more order that is added to every row and taken from the others.
inline void decompose(const std::string& dir, const std::string& n, const Grid& g, const Vec& common, const char* third, std::string& attrs) {
  const Vec& T = g.T.empty() ? common : g.T;
  const size_t nf = g.F.size(), no = nf + 1;
  Vec orders, S;
  for (size_t o = 0; o < no; o++) { orders.push_back(o); S.push_back(o == nf ? 0.5 : 3.0 / (o + 1)); }
  Vec C(nf * no, 0.0);
  for (size_t f = 0; f < nf; f++) { C[f * no + f] = 0.25 * (f + 2); C[f * no + nf] = 0.125 * (1 + f % 3); }
  Vec M(g.x.size() * T.size() * no);
  for (size_t x = 0; x < g.x.size(); x++)
    for (size_t t = 0; t < T.size(); t++) {
      const double extra = 0.375 * (1 + x % 2) - 0.25 * (t % 3);
      M[(x * T.size() + t) * no + nf] = extra;
      for (size_t f = 0; f < nf; f++) M[(x * T.size() + t) * no + f] = (g.v[f][x][t] - S[nf] * C[f * no + nf] * extra) / (S[f] * C[f * no + f]);
    }
  attrs = "<partition CDF=\"" + h5::table(dir, n + "-cdf", {g.F, orders}, C) + "\" S=\"" + h5::table(dir, n + "-s", orders, S) + "\" " + third + "=\"" +
          h5::table(dir, n + "-m", {g.x, T, orders}, M) + "\"/>";
}
inline std::string xml(const std::string& dir, const std::string& n, const Data& d) {
  Vec orders, S;
  for (size_t o = 0; o < d.T.size(); o++) { orders.push_back(o); S.push_back(2.0 / (o + 1)); }
  Vec tt(d.T.size() * d.T.size(), 0.0), te;
  for (size_t t = 0; t < d.T.size(); t++) tt[t * d.T.size() + t] = 4;
  for (auto& row : d.xs) for (size_t t = 0; t < d.T.size(); t++) te.push_back(row[t] / (S[t] * 4));
  std::string x = "<tsl majorant=\"" + h5::table(dir, n + "-maj", d.majE, d.majV) + "\" total_E=\"" + h5::table(dir, n + "-te", {d.E, orders}, te) + "\" total_T=\"" +
                  h5::table(dir, n + "-tt", {d.T, orders}, tt) + "\" total_S=\"" + h5::table(dir, n + "-ts", orders, S) + "\" beta_cutoff=\"" + mini::num(d.beta_cutoff) +
                  "\" alpha_cutoff=\"" + mini::num(d.alpha_cutoff) + "\"><beta_partitions>";
  for (size_t i = 0; i < d.beta.size(); i++) { std::string a; decompose(dir, n + "-b" + std::to_string(i), d.beta[i], d.T, "E_T", a); x += a; }
  x += "</beta_partitions><alpha_partitions>";
  for (size_t i = 0; i < d.alpha.size(); i++) { std::string a; decompose(dir, n + "-a" + std::to_string(i), d.alpha[i], d.T, "beta_T", a); x += a; }
  return x + "</alpha_partitions></tsl>";
}
// a physically plausible set: awr of the target, temperatures, energies up to the cutoff, and grid sizes; optionally every
// partition has probabilities and temperatures of its own; steep: neighbouring temperatures, energies and energy transfers
// have very different tables
inline Data plausible(double awr, Vec T, Vec E, int nf, std::vector<int> beta_parts, std::vector<int> alpha_parts, double tilt = 0.0, bool own = false, bool steep = false) {
  Data d;
  d.T = T;
  d.E = E;
  d.beta_cutoff = 24;
  for (size_t e = 0; e < E.size(); e++) {
    Vec row;
    double m = 0;
    for (size_t t = 0; t < T.size(); t++) { row.push_back(20 + 30.0 / (1 + e) + 4.0 * t * (1 + (e % 2)) + tilt * t); m = std::max(m, row.back()); }
    d.xs.push_back(row);
    d.majE.push_back(E[e]);
    d.majV.push_back(m * 1.25);
  }
  // energies of the beta tables: between and around those of the cross section, the last above the cutoff
  Vec be;
  int n = 0;
  for (int k : beta_parts) n += k;
  for (int i = 0; i < n; i++) be.push_back(E.front() * 0.5 * std::pow(E.back() * 1.5 / (E.front() * 0.5), n == 1 ? 1.0 : (double)i / (n - 1)));
  const int nf0 = nf;
  const Vec T0 = T;
  auto others = [&](Grid& g, size_t j) {  // of partition j
    if (!own) return;
    nf = nf0 + (int)(j % 3);
    T = T0;
    if (j % 3 == 1) for (size_t i = T.size() - 1; i-- > 0;) T.insert(T.begin() + i + 1, 0.3 * T[i] + 0.7 * T[i + 1]);
    if (j % 3 == 2 && T.size() > 2) T.erase(T.begin() + 1);
    g.T = T;
  };
  auto bend = [&](double F, size_t j) { return own ? std::pow(F, 1 + 0.4 * j) : F; };
  auto fac = [&](double t, size_t k) {  // rises and falls between neighbours
    if (!steep) return 1.0;
    const size_t i = std::find(T0.begin(), T0.end(), t) - T0.begin();
    return (i % 2 ? 2.5 : 0.05) * (k % 2 ? 1.0 : 0.3);
  };
  size_t at = 0;
  for (int k : beta_parts) {
    Grid g;
    for (int i = 0; i < k; i++) g.x.push_back(be[at++]);
    others(g, d.beta.size());
    for (int f = 0; f < nf; f++) g.F.push_back(bend((f + 1.0) / (nf + 1), d.beta.size()));
    for (int f = 0; f < nf; f++) {
      std::vector<Vec> rows;
      for (double e : g.x) {
        Vec r;
        for (double t : T) {
          const double lo = -e / (kB * t), x = g.F[f];
          // from 60 % of the lowest possible value upwards to about 8
          const double v = 0.6 * std::max(lo, -4.0) * std::pow(1 - x, 2) + 6 * x * x + 0.002 * t * x * (1 - x);
          r.push_back(v > 0 ? v * fac(t, std::find(be.begin(), be.end(), e) - be.begin()) : v);
        }
        rows.push_back(r);
      }
      g.v.push_back(rows);
    }
    d.beta.push_back(g);
  }
  n = 0;
  for (int k : alpha_parts) n += k;
  int idx = 0;
  for (int k : alpha_parts) {
    Grid g;
    for (int i = 0; i < k; i++, idx++) g.x.push_back(0.05 * std::pow(n == 1 ? 1.0 : 200.0, n == 1 ? 0.0 : (double)idx / (n - 1)));  // 0.05 ... 10
    others(g, d.alpha.size() + 1);
    for (int f = 0; f < nf; f++) g.F.push_back(bend((f + 0.7) / (nf + 0.5), d.alpha.size()));
    for (int f = 0; f < nf; f++) {
      std::vector<Vec> rows;
      for (double b : g.x) {
        Vec r;
        for (double t : T) r.push_back(((0.2 + b) * std::pow(g.F[f], 2) * 4 / awr * (1 + 0.001 * t) + 0.01 * f + 1e-3) * fac(t, (size_t)std::lround(std::log(b * 20) * 3)));
        rows.push_back(r);
      }
      g.v.push_back(rows);
    }
    d.alpha.push_back(g);
  }
  return d;
}
}  // namespace tsl
