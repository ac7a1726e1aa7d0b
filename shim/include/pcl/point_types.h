#pragma once
#include <Eigen/Core>
#include <cmath>
#include <ostream>
namespace pcl {
struct alignas(16) PointXYZ {
  union { float data[4]; struct { float x, y, z; }; };
  PointXYZ() : PointXYZ(0.f, 0.f, 0.f) {}
  PointXYZ(float X, float Y, float Z) { x = X; y = Y; z = Z; data[3] = 1.f; }
  Eigen::Map<Eigen::Vector3f> getVector3fMap() { return Eigen::Map<Eigen::Vector3f>(data); }
  Eigen::Map<const Eigen::Vector3f> getVector3fMap() const { return Eigen::Map<const Eigen::Vector3f>(data); }
  float* getFields() { return data; }
};
struct alignas(16) PointXYZI {
  union { float data[4]; struct { float x, y, z; }; };
  union { float intensity; float data_c[4]; };
  PointXYZI() : PointXYZI(0.f, 0.f, 0.f, 0.f) {}
  PointXYZI(float i) : PointXYZI(0.f, 0.f, 0.f, i) {}
  PointXYZI(float X, float Y, float Z, float i = 0.f) { x = X; y = Y; z = Z; data[3] = 1.f; data_c[1] = data_c[2] = data_c[3] = 0.f; intensity = i; }
  Eigen::Map<Eigen::Vector3f> getVector3fMap() { return Eigen::Map<Eigen::Vector3f>(data); }
  Eigen::Map<const Eigen::Vector3f> getVector3fMap() const { return Eigen::Map<const Eigen::Vector3f>(data); }
};
template <class P> bool isFinite(const P& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
inline std::ostream& operator<<(std::ostream& o, const PointXYZ& p) { return o << "(" << p.x << "," << p.y << "," << p.z << ")"; }
inline std::ostream& operator<<(std::ostream& o, const PointXYZI& p) { return o << "(" << p.x << "," << p.y << "," << p.z << " - " << p.intensity << ")"; }
}
