#pragma once
#include <Eigen/StdVector>
#include <boost/shared_ptr.hpp>
#include <cstdint>
#include <stdexcept>
#include <string>
#include <vector>
#include <pcl/point_types.h>
namespace pcl {
struct PCLHeader { uint32_t seq = 0; uint64_t stamp = 0; std::string frame_id; };
template <class T>
class PointCloud {
 public:
  typedef T PointType;
  typedef std::vector<T, Eigen::aligned_allocator<T>> VectorType;
  typedef boost::shared_ptr<PointCloud<T>> Ptr;
  typedef boost::shared_ptr<const PointCloud<T>> ConstPtr;
  typedef typename VectorType::iterator iterator;
  typedef typename VectorType::const_iterator const_iterator;
  typedef T value_type;
  PCLHeader header;
  VectorType points;
  uint32_t width = 0, height = 0;
  bool is_dense = true;
  Eigen::Vector4f sensor_origin_ = Eigen::Vector4f::Zero();
  PointCloud() {}
  PointCloud(uint32_t w, uint32_t h, const T& v = T()) : points(w * h, v), width(w), height(h) {}
  PointCloud& operator+=(const PointCloud& r) {
    if (r.header.stamp > header.stamp) header.stamp = r.header.stamp;
    points.insert(points.end(), r.points.begin(), r.points.end());
    width = (uint32_t)points.size(); height = 1; is_dense = is_dense && r.is_dense; return *this;
  }
  PointCloud operator+(const PointCloud& r) const { PointCloud c(*this); c += r; return c; }
  const T& at(size_t n) const { return points.at(n); }
  T& at(size_t n) { return points.at(n); }
  const T& at(int c, int r) const { if (height > 1) return points.at(r * width + c); throw std::runtime_error("Can't use 2D indexing with an unorganized point cloud"); }
  T& operator[](size_t n) { return points[n]; }
  const T& operator[](size_t n) const { return points[n]; }
  bool isOrganized() const { return height > 1; }
  iterator begin() { return points.begin(); }
  iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); }
  const_iterator end() const { return points.end(); }
  size_t size() const { return points.size(); }
  void reserve(size_t n) { points.reserve(n); }
  bool empty() const { return points.empty(); }
  void resize(size_t n) { points.resize(n); if (width * height != n) { width = (uint32_t)n; height = 1; } }
  T& front() { return points.front(); }
  T& back() { return points.back(); }
  const T& front() const { return points.front(); }
  const T& back() const { return points.back(); }
  void push_back(const T& p) { points.push_back(p); width = (uint32_t)points.size(); height = 1; }
  template <class... A> void emplace_back(A&&... a) { points.emplace_back(std::forward<A>(a)...); width = (uint32_t)points.size(); height = 1; }
  iterator insert(iterator pos, const T& p) { auto i = points.insert(pos, p); width = (uint32_t)points.size(); height = 1; return i; }
  template <class It> void insert(iterator pos, It f, It l) { points.insert(pos, f, l); width = (uint32_t)points.size(); height = 1; }
  iterator erase(iterator pos) { auto i = points.erase(pos); width = (uint32_t)points.size(); height = 1; return i; }
  iterator erase(iterator f, iterator l) { auto i = points.erase(f, l); width = (uint32_t)points.size(); height = 1; return i; }
  void swap(PointCloud& r) { std::swap(header, r.header); points.swap(r.points); std::swap(width, r.width); std::swap(height, r.height); std::swap(is_dense, r.is_dense); }
  void clear() { points.clear(); width = 0; height = 0; }
  Ptr makeShared() const { return Ptr(new PointCloud<T>(*this)); }
};
}
