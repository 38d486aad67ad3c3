#ifndef UGLYSTUB_GRAPH_HPP
#define UGLYSTUB_GRAPH_HPP
#include "edge_directed_weighted.hpp"
#include "graph_node.hpp"
namespace ugly {
template <typename... Ts>
class Graph {
 public:
  Graph(std::list<std::weak_ptr<Edge>> edges,
        std::unordered_map<int, std::weak_ptr<GraphNode<Ts...>>> nodes)
      : edges_(edges), nodes_(nodes) {}
  const std::list<std::weak_ptr<Edge>>& stubEdges() const { return edges_; }
  std::vector<int> stubVertices() const {
    std::set<int> ids;
    for (auto& n : nodes_) ids.insert(n.first);
    return std::vector<int>(ids.begin(), ids.end());
  }
 private:
  std::list<std::weak_ptr<Edge>> edges_;
  std::unordered_map<int, std::weak_ptr<GraphNode<Ts...>>> nodes_;
};
}
#endif
