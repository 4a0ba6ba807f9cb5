// Explorer of choice sequences: each uniform draw takes every one of K stratum midpoints (i + 1/2) / K.
#pragma once
#include <cstdint>
#include <functional>
#include <random>
#include <vector>

namespace choice {
// A tree of draws, walked depth first. next() moves to the following path and is false when all were taken.
struct Tree {
  int K = 4;
  size_t limit = 64;           // draws per path that branch; later ones are arbitrary and mark the path truncated
  bool truncated = false;
  std::vector<int> seq;
  size_t pos = 0, fixed = 0;   // fixed: length of the prefix which next() does not change
  std::function<int(size_t)> strata;  // optional: number of strata of the n-th draw
  int k_at(size_t n) const { return strata ? strata(n) : K; }
  void start() { pos = 0; truncated = false; }
  double draw() {
    if (pos >= limit) {  // an aperiodic tail, so that no history goes round in circles
      truncated = true;
      uint64_t z = (uint64_t)++pos * 0x9e3779b97f4a7c15ull;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      return ((z >> 31) % 999983 + 0.5) / 999983;
    }
    if (pos == seq.size()) seq.push_back(0);
    const int k = k_at(pos);
    const double u = (seq[pos] + 0.5) / k;
    pos++;
    return u;
  }
  double weight() const {
    double w = 1;
    for (size_t i = 0; i < std::min(pos, limit); i++) w /= k_at(i);
    return w;
  }
  bool next() {
    seq.resize(std::min(pos, seq.size()));
    while (seq.size() > fixed && seq.back() == k_at(seq.size() - 1) - 1) seq.pop_back();
    if (seq.size() <= fixed) return false;
    seq.back()++;
    return true;
  }
  std::string str() const { std::string s; for (size_t i = 0; i < std::min(pos, seq.size()); i++) s += (i ? "," : "") + std::to_string(seq[i]) + "/" + std::to_string(k_at(i)); return s; }
};
}  // namespace choice

namespace verif {
// the tree that serves draws; none: real random numbers
inline choice::Tree*& tree() { static choice::Tree* t = nullptr; return t; }
// called before each draw is served
inline std::function<void(std::minstd_rand&)>& on_draw() { static std::function<void(std::minstd_rand&)> f; return f; }
// when set it serves the draws
inline std::function<double(std::minstd_rand&)>& serve() { static std::function<double(std::minstd_rand&)> f; return f; }
inline uint64_t& draws() { static uint64_t n = 0; return n; }
struct Plain {
  std::minstd_rand& g;
  using result_type = std::minstd_rand::result_type;
  static constexpr result_type min() { return std::minstd_rand::min(); }
  static constexpr result_type max() { return std::minstd_rand::max(); }
  result_type operator()() { return g(); }
};
inline double real(std::minstd_rand& g) { Plain p{g}; return std::generate_canonical<double, 53>(p); }
double canonical(std::minstd_rand& g) {
  draws()++;
  if (on_draw()) on_draw()(g);
  if (serve()) { g.discard(2); return serve()(g); }
  if (!tree()) return real(g);
  g.discard(2);
  return tree()->draw();
}
}  // namespace verif
