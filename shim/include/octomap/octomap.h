#pragma once
// Stand-in for octomap: an occupancy map keyed by leaf voxel, with octomap's pruned-inner-node depth semantics
// (a search at depth d<16 returns the inner node of the enclosing block, whose log-odds is the maximum of its known leaves).
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <string>
#include <tuple>
namespace octomap {
typedef uint16_t key_type;
class point3d { public: float d[3]; point3d(float x = 0, float y = 0, float z = 0) : d{x, y, z} {} float x() const { return d[0]; } float y() const { return d[1]; } float z() const { return d[2]; } };
inline double probability(double lo) { return 1. - (1. / (1. + std::exp(lo))); }
inline float logodds(double p) { return (float)std::log(p / (1 - p)); }
class OcTreeNode {
 public:
  float v = 0;
  double getOccupancy() const { return probability(v); }
  float getLogOdds() const { return v; }
  float getValue() const { return v; }
  void setLogOdds(float l) { v = l; }
};
class AbstractOcTree {
 public:
  virtual ~AbstractOcTree() {}
  virtual double getResolution() const = 0;
  virtual std::string getTreeType() const = 0;
};
class AbstractOccupancyOcTree : public AbstractOcTree {};
class OcTree : public AbstractOccupancyOcTree {
 public:
  static int live;  // number of live trees, for leak/double-free accounting
  explicit OcTree(double res) : res_(res) { ++live; }
  OcTree(const OcTree& o) : res_(o.res_) { ++live; for (int i = 0; i < 17; i++) lv_[i] = o.lv_[i]; }
  ~OcTree() override { --live; }
  double getResolution() const override { return res_; }
  std::string getTreeType() const override { return "OcTree"; }
  bool coordToKeyChecked(double c, int& k) const { k = (int)std::floor(c / res_) + 32768; return k >= 0 && k < 65536; }
  void setNodeLogOdds(double x, double y, double z, float lo) {
    int a, b, c;
    if (!coordToKeyChecked(x, a) || !coordToKeyChecked(y, b) || !coordToKeyChecked(z, c)) return;
    for (int d = 0; d <= 16; d++) {
      auto k = std::make_tuple(a >> (16 - d), b >> (16 - d), c >> (16 - d));
      auto it = lv_[d].find(k);
      if (d == 16) { lv_[d][k].v = lo; }
      else if (it == lv_[d].end()) lv_[d][k].v = lo;
      else if (it->second.v < lo) it->second.v = lo;
    }
  }
  OcTreeNode* search(double x, double y, double z, unsigned int depth = 0) const {
    int a, b, c;
    if (depth == 0) depth = 16;
    if (depth > 16) depth = 16;
    if (!coordToKeyChecked(x, a) || !coordToKeyChecked(y, b) || !coordToKeyChecked(z, c)) return nullptr;
    auto it = lv_[depth].find(std::make_tuple(a >> (16 - depth), b >> (16 - depth), c >> (16 - depth)));
    return it == lv_[depth].end() ? nullptr : const_cast<OcTreeNode*>(&it->second);
  }
  OcTreeNode* search(const point3d& p, unsigned int depth = 0) const { return search(p.x(), p.y(), p.z(), depth); }
  bool isNodeOccupied(const OcTreeNode* n) const { return n->v >= 0; }
  bool isNodeOccupied(const OcTreeNode& n) const { return n.v >= 0; }
  size_t memoryUsage() const { return lv_[16].size() * 16; }
  size_t size() const { return lv_[16].size(); }
 private:
  double res_;
  std::map<std::tuple<int, int, int>, OcTreeNode> lv_[17];
};
class ColorOcTree : public AbstractOccupancyOcTree {  // another tree type a message may decode to
 public:
  explicit ColorOcTree(double res) : res_(res) {}
  double getResolution() const override { return res_; }
  std::string getTreeType() const override { return "ColorOcTree"; }
 private:
  double res_;
};
}
