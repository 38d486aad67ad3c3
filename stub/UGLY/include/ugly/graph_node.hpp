#ifndef UGLYSTUB_GRAPH_NODE_HPP
#define UGLYSTUB_GRAPH_NODE_HPP
#include <string>
namespace ugly {
template <typename... Ts>
class GraphNode {
 public:
  GraphNode() {}
  explicit GraphNode(std::string label) : label_(label) {}
  GraphNode(const char* label) : label_(label) {}
  std::string getLabel() const { return label_; }
 private:
  std::string label_;
};
}
#endif
