// Force-included (-include) into every translation unit of the simulated build,
// the repository's own sources and the simulator alike.  It puts the one source
// of randomness the library has (the conversion of its Mersenne twister into a
// uniform number) behind a seam the simulator owns.  Left alone, the seam
// computes what the standard library computes.
#ifndef MYTHICAL_SIM_PRELUDE_HPP
#define MYTHICAL_SIM_PRELUDE_HPP
#ifdef __cplusplus
#include <random>
namespace std {
template <>
double generate_canonical<double, 53, mt19937>(mt19937& g);
}
#endif
#endif
