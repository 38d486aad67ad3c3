#ifndef UGLYSTUB_GRAPH_ALGORITHMS_HPP
#define UGLYSTUB_GRAPH_ALGORITHMS_HPP
#include <limits>
#include "graph.hpp"
#include "pair_hash.hpp"
namespace ugly {
namespace graphalgorithms {
// For every ordered pair of vertices of the graph: the length of the shortest
// directed path between them that uses only vertices of the graph (infinity
// when there is none).
template <typename... Ts>
std::unordered_map<std::pair<int, int>, double, ::hash_functions::hash>
maxMinimumDistanceBetweenEveryVertex(const Graph<Ts...>& graph) {
  const double inf = std::numeric_limits<double>::infinity();
  std::vector<int> v = graph.stubVertices();
  std::map<std::pair<int, int>, double> d;
  for (int a : v)
    for (int b : v) d[{a, b}] = a == b ? 0.0 : inf;
  for (auto& weak : graph.stubEdges()) {
    auto e = weak.lock();
    if (!e) throw std::runtime_error("edge expired");
    auto it = d.find({e->getVertex1(), e->getVertex2()});
    if (it != d.end() && e->getWeight() < it->second) it->second = e->getWeight();
  }
  for (int k : v)
    for (int i : v)
      for (int j : v) {
        double w = d[{i, k}] + d[{k, j}];
        if (w < d[{i, j}]) d[{i, j}] = w;
      }
  std::unordered_map<std::pair<int, int>, double, ::hash_functions::hash> out;
  for (auto& kv : d)
    if (kv.first.first != kv.first.second) out[kv.first] = kv.second;
  return out;
}
}
}
#endif
