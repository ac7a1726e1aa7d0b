#pragma once
#include <pcl/point_cloud.h>
namespace pcl {
template <class T>
void removeNaNFromPointCloud(const PointCloud<T>& in, PointCloud<T>& out, std::vector<int>& index) {
  if (&in != &out) { out.header = in.header; out.points.resize(in.points.size()); }
  index.resize(in.points.size());
  size_t j = 0;
  if (in.is_dense) { if (&in != &out) out = in; for (j = 0; j < out.points.size(); ++j) index[j] = (int)j; return; }
  for (size_t i = 0; i < in.points.size(); ++i) {
    if (!std::isfinite(in.points[i].x) || !std::isfinite(in.points[i].y) || !std::isfinite(in.points[i].z)) continue;
    out.points[j] = in.points[i]; index[j] = (int)i; j++;
  }
  if (j != in.points.size()) { out.points.resize(j); index.resize(j); }
  out.height = 1; out.width = (uint32_t)j; out.is_dense = true;
}
}
