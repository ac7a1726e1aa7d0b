#pragma once
#include <pcl_ros/point_cloud.h>
#include <tf/transform_listener.h>
namespace pcl_ros {
template <class T>
void transformPointCloud(const pcl::PointCloud<T>& in, pcl::PointCloud<T>& out, const tf::Transform& t) {
  // pcl_ros goes through Eigen floats: quaternion (w,x,y,z) and origin are cast to float
  tf::Quaternion q = t.getRotation();
  Eigen::Quaternionf r((float)q.w(), (float)q.x(), (float)q.y(), (float)q.z());
  tf::Vector3 v = t.getOrigin();
  Eigen::Vector3f o((float)v.x(), (float)v.y(), (float)v.z());
  Eigen::Matrix3f R = r.toRotationMatrix();
  if (&in != &out) out = in;
  for (auto& p : out.points) {
    if (!in.is_dense && (!std::isfinite(p.x) || !std::isfinite(p.y) || !std::isfinite(p.z))) continue;
    Eigen::Vector3f x(p.x, p.y, p.z); x = R * x + o; p.x = x.x(); p.y = x.y(); p.z = x.z();
  }
}
template <class T>
bool transformPointCloud(const std::string& target, const pcl::PointCloud<T>& in, pcl::PointCloud<T>& out, const tf::TransformListener& l) {
  if (in.header.frame_id == target) { out = in; return true; }
  tf::StampedTransform t;
  try { l.lookupTransform(target, in.header.frame_id, pcl_conversions::fromPCL(in.header).stamp, t); } catch (tf::TransformException&) { return false; }
  transformPointCloud(in, out, t);
  out.header.frame_id = target;
  return true;
}
inline void transformPointCloud(const std::string& target, const tf::Transform& t, const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out) {
  pcl::PointCloud<pcl::PointXYZ> c, d; pcl::fromROSMsg(in, c); c.is_dense = false; transformPointCloud(c, d, t); d.header.frame_id = target; pcl::toROSMsg(d, out); out.header = in.header; out.header.frame_id = target;
}
}
