#ifndef UGLYSTUB_GV_LARGEST_HPP
#define UGLYSTUB_GV_LARGEST_HPP
#include <algorithm>
#include "../edge_directed_weighted.hpp"
namespace ugly {
// Explores a graph edge by edge, always taking the known edge of the largest
// weight first (ties: the one that was added first). A vertex is explored when
// an edge leading to it has been explored.
class GraphVisitorLargestKnownValue {
 public:
  GraphVisitorLargestKnownValue() : start_set_(false) {}
  void setStartingVertex(int v) {
    start_set_ = true;
    explored_.push_back(v);
  }
  bool edgeCanBeAdded(std::weak_ptr<Edge> weak) const {
    auto e = weak.lock();
    if (!e || !start_set_) return false;
    return isExplored_(e->getVertex1()) && !isExplored_(e->getVertex2());
  }
  void addEdge(std::weak_ptr<Edge> weak) {
    if (!edgeCanBeAdded(weak))
      throw std::invalid_argument("edge cannot be added");
    open_.push_back(weak);
  }
  bool allEdgesExplored() const {
    for (auto& w : open_)
      if (edgeCanBeAdded(w)) return false;
    return true;
  }
  template <typename E>
  std::weak_ptr<E> getNextEdge() {
    std::shared_ptr<Edge> best;
    for (auto& w : open_) {
      if (!edgeCanBeAdded(w)) continue;
      auto e = w.lock();
      if (!best || e->getWeight() > best->getWeight()) best = e;
    }
    if (!best) throw std::runtime_error("no edges left to explore");
    return std::dynamic_pointer_cast<E>(best);
  }
  int chooseTerminalVertex(std::weak_ptr<Edge> weak) const {
    auto e = weak.lock();
    if (!e) throw std::runtime_error("edge expired");
    return isExplored_(e->getVertex1()) ? e->getVertex2() : e->getVertex1();
  }
  void exploreEdge(std::weak_ptr<Edge> weak) {
    explored_.push_back(chooseTerminalVertex(weak));
  }
  std::size_t countExploredVertices() const { return explored_.size(); }
  std::vector<int> getExploredVertices() const { return explored_; }
 private:
  bool isExplored_(int v) const {
    return std::find(explored_.begin(), explored_.end(), v) != explored_.end();
  }
  bool start_set_;
  std::vector<int> explored_;
  std::vector<std::weak_ptr<Edge>> open_;
};
}
#endif
