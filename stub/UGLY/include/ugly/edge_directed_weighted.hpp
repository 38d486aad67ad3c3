#ifndef UGLYSTUB_EDGE_DIRECTED_WEIGHTED_HPP
#define UGLYSTUB_EDGE_DIRECTED_WEIGHTED_HPP
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
namespace ugly {
class Edge {
 public:
  Edge() : v1_(0), v2_(0) {}
  Edge(int v1, int v2) : v1_(v1), v2_(v2) {}
  virtual ~Edge() {}
  int getVertex1() const { return v1_; }
  int getVertex2() const { return v2_; }
  bool containsVertex(int v) const { return v == v1_ || v == v2_; }
  int getOtherVertex(int v) const {
    if (v == v1_) return v2_;
    if (v == v2_) return v1_;
    throw std::invalid_argument("vertex is not part of the edge");
  }
  virtual double getWeight() const { return 1.0; }
  virtual bool directional() const { return false; }
 protected:
  int v1_, v2_;
};
class EdgeDirectedWeighted : public Edge {
 public:
  EdgeDirectedWeighted(int v1, int v2, double w = 1.0) : Edge(v1, v2), w_(w) {}
  double getWeight() const override { return w_; }
  bool directional() const override { return true; }
 private:
  double w_;
};
}
#endif
