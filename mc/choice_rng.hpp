// Included before everything else (-include) in the "choice" variant: every uniform real number that the code under
// test draws from its generator becomes a choice point of the explorer in choice.hpp. The generator's state still
// advances as usual, and integers drawn from it (seeds) are untouched.
#pragma once
#include <random>
namespace verif {
double canonical(std::minstd_rand& g);
}
namespace std {
template <>
inline double generate_canonical<double, 53UL, minstd_rand>(minstd_rand& g) { return verif::canonical(g); }
}
