// Stand-in for the UGLY graph library (submodule not available offline).
#ifndef UGLYSTUB_PAIR_HASH_HPP
#define UGLYSTUB_PAIR_HASH_HPP
#include <cstddef>
#include <functional>
#include <utility>
namespace hash_functions {
struct hash {
  template <typename A, typename B>
  std::size_t operator()(const std::pair<A, B>& p) const {
    return std::hash<A>()(p.first) * 1000003u ^ std::hash<B>()(p.second);
  }
};
}
#endif
