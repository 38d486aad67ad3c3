#ifndef UGLYSTUB_GV_SMALLEST_HPP
#define UGLYSTUB_GV_SMALLEST_HPP
#include "../edge_directed_weighted.hpp"
namespace ugly {
class GraphVisitorSmallestKnownValue {};
}
#endif
