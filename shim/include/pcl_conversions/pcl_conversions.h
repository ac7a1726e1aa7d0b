#pragma once
#include <pcl/point_cloud.h>
#include <sensor_msgs/PointCloud2.h>
#include <std_msgs/Header.h>
#include <cstring>
namespace pcl_conversions {
inline void fromPCL(const uint64_t& s, ros::Time& t) { t.fromNSec(s * 1000ull); }
inline ros::Time fromPCL(const uint64_t& s) { ros::Time t; fromPCL(s, t); return t; }
inline void toPCL(const ros::Time& t, uint64_t& s) { s = t.toNSec() / 1000ull; }
inline uint64_t toPCL(const ros::Time& t) { return t.toNSec() / 1000ull; }
inline void fromPCL(const pcl::PCLHeader& p, std_msgs::Header& h) { fromPCL(p.stamp, h.stamp); h.seq = p.seq; h.frame_id = p.frame_id; }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& p) { std_msgs::Header h; fromPCL(p, h); return h; }
inline void toPCL(const std_msgs::Header& h, pcl::PCLHeader& p) { toPCL(h.stamp, p.stamp); p.seq = h.seq; p.frame_id = h.frame_id; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader p; toPCL(h, p); return p; }
}
namespace pcl {
namespace shim_detail {
inline int off(const sensor_msgs::PointCloud2& m, const char* n) { for (auto& f : m.fields) if (f.name == n && f.datatype == sensor_msgs::PointField::FLOAT32) return (int)f.offset; return -1; }
inline float get(const sensor_msgs::PointCloud2& m, size_t i, int o) { float v; std::memcpy(&v, &m.data[i * m.point_step + o], 4); return v; }
inline void put(sensor_msgs::PointCloud2& m, size_t i, int o, float v) { std::memcpy(&m.data[i * m.point_step + o], &v, 4); }
inline void seti(PointXYZ&, float) {}
inline void seti(PointXYZI& p, float v) { p.intensity = v; }
inline float geti(const PointXYZ&) { return 0; }
inline float geti(const PointXYZI& p) { return p.intensity; }
inline bool hasi(const PointXYZ*) { return false; }
inline bool hasi(const PointXYZI*) { return true; }
}
template <class T>
void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<T>& c) {
  pcl_conversions::toPCL(m.header, c.header);
  c.width = m.width; c.height = m.height; c.is_dense = m.is_dense;
  size_t n = (size_t)m.width * m.height;
  c.points.assign(n, T());
  int ox = shim_detail::off(m, "x"), oy = shim_detail::off(m, "y"), oz = shim_detail::off(m, "z"), oi = shim_detail::off(m, "intensity");
  for (size_t i = 0; i < n; i++) {
    if (ox >= 0) c.points[i].x = shim_detail::get(m, i, ox);
    if (oy >= 0) c.points[i].y = shim_detail::get(m, i, oy);
    if (oz >= 0) c.points[i].z = shim_detail::get(m, i, oz);
    if (oi >= 0) shim_detail::seti(c.points[i], shim_detail::get(m, i, oi));
  }
}
template <class T>
void toROSMsg(const PointCloud<T>& c, sensor_msgs::PointCloud2& m) {
  m = sensor_msgs::PointCloud2();
  pcl_conversions::fromPCL(c.header, m.header);
  if (c.width == 0 && c.height == 0) { m.width = (uint32_t)c.points.size(); m.height = 1; } else { m.width = c.width; m.height = c.height; }
  bool hi = shim_detail::hasi((const T*)nullptr);
  const char* names[] = {"x", "y", "z", "intensity"};
  for (int i = 0; i < (hi ? 4 : 3); i++) { sensor_msgs::PointField f; f.name = names[i]; f.offset = (i == 3) ? 16 : 4 * i; f.datatype = sensor_msgs::PointField::FLOAT32; f.count = 1; m.fields.push_back(f); }
  m.point_step = hi ? 32 : 16; m.row_step = m.point_step * m.width; m.is_dense = c.is_dense;
  m.data.assign((size_t)m.point_step * c.points.size(), 0);
  for (size_t i = 0; i < c.points.size(); i++) { shim_detail::put(m, i, 0, c.points[i].x); shim_detail::put(m, i, 4, c.points[i].y); shim_detail::put(m, i, 8, c.points[i].z); if (hi) shim_detail::put(m, i, 16, shim_detail::geti(c.points[i])); }
}
}
