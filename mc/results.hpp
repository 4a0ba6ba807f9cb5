// The printed results of a calculation, taken apart.
#pragma once
#include <cmath>
#include <cstdlib>
#include <sstream>
#include <string>
#include <vector>

namespace results {
struct Block { std::string name, bins; std::vector<double> mean, dev; };
inline std::vector<double> numbers(const std::string& line) {
  std::vector<double> r;
  for (const char* c = line.c_str(); *c;) {
    char* e;
    const double v = std::strtod(c, &e);
    if (e == c) break;
    r.push_back(v);
    c = e;
    while (*c == ',' || *c == ' ') c++;
  }
  return r;
}
// every estimator and sensitivity in the order printed: a name underlined with '=', anything about bins, mean, std dev
inline std::vector<Block> parse(const std::string& text) {
  std::vector<std::string> l;
  std::stringstream s(text);
  for (std::string x; std::getline(s, x);) l.push_back(x);
  std::vector<Block> r;
  auto rule = [](const std::string& x, char c) { return !x.empty() && x.find_first_not_of(c) == std::string::npos; };
  for (size_t i = 0; i < l.size(); i++) {
    if (i + 1 < l.size() && rule(l[i + 1], '=') && l[i + 1].size() == l[i].size()) { r.push_back({}); r.back().name = l[i]; i++; continue; }
    if (r.empty()) continue;
    if (l[i] == "mean" && i + 2 < l.size() && rule(l[i + 1], '-')) { r.back().mean = numbers(l[i + 2]); i += 2; continue; }
    if (l[i] == "std dev" && i + 2 < l.size() && rule(l[i + 1], '-')) { r.back().dev = numbers(l[i + 2]); i += 2; continue; }
    if (!l[i].empty()) r.back().bins += l[i] + "\n";
  }
  return r;
}
// all numbers in a text, whatever stands between them
inline std::vector<double> numbers_in(const std::string& t) {
  std::vector<double> r;
  for (const char* c = t.c_str(); *c;) {
    char* e;
    const double v = std::strtod(c, &e);
    if (e == c) { c++; continue; }
    r.push_back(v);
    c = e;
  }
  return r;
}
// the same words in the same order; of numbers, only that both are
inline std::string same_words(const std::string& got, const std::string& want) {
  std::stringstream g(got), w(want);
  auto number = [](const std::string& x) { char* e; std::strtod(x.c_str(), &e); return e != x.c_str() && (*e == 0 || (*e == ',' && e[1] == 0)); };
  for (std::string a, b;;) {
    const bool ga = bool(g >> a), gb = bool(w >> b);
    if (!ga && !gb) return "";
    if (!ga) return "the output ends before '" + b.substr(0, 40) + "'";
    if (!gb) return "the output goes on with '" + a.substr(0, 40) + "'";
    if (a != b && !(number(a) && number(b))) return "'" + a.substr(0, 40) + "' in the output instead of '" + b.substr(0, 40) + "'";
  }
}
inline const Block* find(const std::vector<Block>& b, const std::string& n) { for (auto& x : b) if (x.name == n) return &x; return nullptr; }
// printed with seven significant digits
inline bool close(double printed, double want, double scale) { return std::fabs(printed - want) <= 1e-6 * std::fabs(want) + 1e-12 * scale + 1e-300; }
// mean and standard deviation of per-history totals (sum, sum of squares) against the printed ones
inline bool moments(double mean, double dev, long double s1, long double s2, double N) {
  if (!close(mean, s1 / N, std::sqrt((double)s2) / N)) return false;
  const long double var = s2 - s1 * s1 / N;
  const double want = var > 0 ? std::sqrt((double)var) / N : 0;
  // cancellation: an absolute error of the variance of the order of rounding of the sums
  const double slack = std::sqrt((double)s2 * 4e-15 * (1 + N)) / N;
  return std::fabs(dev - want) <= 1e-6 * want + slack;
}
}  // namespace results
