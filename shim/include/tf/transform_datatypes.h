#pragma once
// Stand-in for tf's datatypes: same double-precision maths as tf's LinearMath.
#include <geometry_msgs/Point.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/Pose.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/Transform.h>
#include <geometry_msgs/TransformStamped.h>
#include <geometry_msgs/Vector3.h>
#include <ros/time.h>
#include <cmath>
#include <string>
typedef double tfScalar;
#define TFSIMD_PI 3.1415926535897932384626433832795029
#define TFSIMD_EPSILON 2.2204460492503131e-16
namespace tf {
inline tfScalar tfAcos(tfScalar x) { if (x < -1) x = -1; if (x > 1) x = 1; return std::acos(x); }
inline tfScalar tfAsin(tfScalar x) { if (x < -1) x = -1; if (x > 1) x = 1; return std::asin(x); }
class Vector3 {
 public:
  tfScalar m_floats[4];
  Vector3() : m_floats{0, 0, 0, 0} {}
  Vector3(const tfScalar& x, const tfScalar& y, const tfScalar& z) : m_floats{x, y, z, 0} {}
  tfScalar dot(const Vector3& v) const { return m_floats[0] * v.m_floats[0] + m_floats[1] * v.m_floats[1] + m_floats[2] * v.m_floats[2]; }
  tfScalar length2() const { return dot(*this); }
  tfScalar length() const { return std::sqrt(length2()); }
  tfScalar distance2(const Vector3& v) const;
  tfScalar distance(const Vector3& v) const;
  Vector3& operator+=(const Vector3& v) { for (int i = 0; i < 3; i++) m_floats[i] += v.m_floats[i]; return *this; }
  Vector3& operator-=(const Vector3& v) { for (int i = 0; i < 3; i++) m_floats[i] -= v.m_floats[i]; return *this; }
  Vector3& operator*=(const tfScalar& s) { for (int i = 0; i < 3; i++) m_floats[i] *= s; return *this; }
  Vector3& operator/=(const tfScalar& s) { return *this *= 1.0 / s; }
  Vector3& normalize() { return *this /= length(); }
  Vector3 normalized() const { Vector3 r(*this); return r.normalize(); }
  Vector3 cross(const Vector3& v) const { return Vector3(m_floats[1] * v.m_floats[2] - m_floats[2] * v.m_floats[1], m_floats[2] * v.m_floats[0] - m_floats[0] * v.m_floats[2], m_floats[0] * v.m_floats[1] - m_floats[1] * v.m_floats[0]); }
  tfScalar angle(const Vector3& v) const { return tfAcos(dot(v) / std::sqrt(length2() * v.length2())); }
  Vector3 lerp(const Vector3& v, const tfScalar& t) const { return Vector3(m_floats[0] + (v.m_floats[0] - m_floats[0]) * t, m_floats[1] + (v.m_floats[1] - m_floats[1]) * t, m_floats[2] + (v.m_floats[2] - m_floats[2]) * t); }
  const tfScalar& getX() const { return m_floats[0]; }
  const tfScalar& getY() const { return m_floats[1]; }
  const tfScalar& getZ() const { return m_floats[2]; }
  const tfScalar& x() const { return m_floats[0]; }
  const tfScalar& y() const { return m_floats[1]; }
  const tfScalar& z() const { return m_floats[2]; }
  void setX(tfScalar v) { m_floats[0] = v; }
  void setY(tfScalar v) { m_floats[1] = v; }
  void setZ(tfScalar v) { m_floats[2] = v; }
  void setValue(tfScalar x, tfScalar y, tfScalar z) { m_floats[0] = x; m_floats[1] = y; m_floats[2] = z; m_floats[3] = 0; }
  operator tfScalar*() { return m_floats; }
  operator const tfScalar*() const { return m_floats; }
  bool operator==(const Vector3& o) const { return m_floats[0] == o.m_floats[0] && m_floats[1] == o.m_floats[1] && m_floats[2] == o.m_floats[2]; }
  bool operator!=(const Vector3& o) const { return !(*this == o); }
  void setZero() { setValue(0, 0, 0); }
};
inline Vector3 operator+(const Vector3& a, const Vector3& b) { Vector3 r(a); return r += b; }
inline Vector3 operator-(const Vector3& a, const Vector3& b) { Vector3 r(a); return r -= b; }
inline Vector3 operator-(const Vector3& a) { return Vector3(-a.m_floats[0], -a.m_floats[1], -a.m_floats[2]); }
inline Vector3 operator*(const Vector3& a, const tfScalar& s) { Vector3 r(a); return r *= s; }
inline Vector3 operator*(const tfScalar& s, const Vector3& a) { return a * s; }
inline Vector3 operator*(const Vector3& a, const Vector3& b) { return Vector3(a.x() * b.x(), a.y() * b.y(), a.z() * b.z()); }
inline Vector3 operator/(const Vector3& a, const tfScalar& s) { return a * (1.0 / s); }
inline tfScalar Vector3::distance2(const Vector3& v) const { return (v - *this).length2(); }
inline tfScalar Vector3::distance(const Vector3& v) const { return (v - *this).length(); }
inline Vector3 lerp(const Vector3& a, const Vector3& b, const tfScalar& t) { return a.lerp(b, t); }
typedef Vector3 Point;
class Quaternion {
 public:
  tfScalar m_floats[4];
  Quaternion() : m_floats{0, 0, 0, 0} {}
  Quaternion(const tfScalar& x, const tfScalar& y, const tfScalar& z, const tfScalar& w) : m_floats{x, y, z, w} {}
  Quaternion(const Vector3& axis, const tfScalar& angle) { setRotation(axis, angle); }
  void setRotation(const Vector3& axis, const tfScalar& angle) { tfScalar d = axis.length(); tfScalar s = std::sin(angle * 0.5) / d; setValue(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(angle * 0.5)); }
  void setValue(tfScalar x, tfScalar y, tfScalar z, tfScalar w) { m_floats[0] = x; m_floats[1] = y; m_floats[2] = z; m_floats[3] = w; }
  void setRPY(const tfScalar& roll, const tfScalar& pitch, const tfScalar& yaw) {
    tfScalar hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    tfScalar cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  Quaternion& operator*=(const Quaternion& q) {
    tfScalar x_ = m_floats[3] * q.x() + m_floats[0] * q.m_floats[3] + m_floats[1] * q.z() - m_floats[2] * q.y();
    tfScalar y_ = m_floats[3] * q.y() + m_floats[1] * q.m_floats[3] + m_floats[2] * q.x() - m_floats[0] * q.z();
    tfScalar z_ = m_floats[3] * q.z() + m_floats[2] * q.m_floats[3] + m_floats[0] * q.y() - m_floats[1] * q.x();
    tfScalar w_ = m_floats[3] * q.m_floats[3] - m_floats[0] * q.x() - m_floats[1] * q.y() - m_floats[2] * q.z();
    setValue(x_, y_, z_, w_); return *this;
  }
  tfScalar dot(const Quaternion& q) const { return m_floats[0] * q.x() + m_floats[1] * q.y() + m_floats[2] * q.z() + m_floats[3] * q.m_floats[3]; }
  tfScalar length2() const { return dot(*this); }
  tfScalar length() const { return std::sqrt(length2()); }
  Quaternion& normalize() { tfScalar l = length(); for (int i = 0; i < 4; i++) m_floats[i] /= l; return *this; }
  Quaternion normalized() const { Quaternion r(*this); return r.normalize(); }
  Quaternion inverse() const { return Quaternion(-m_floats[0], -m_floats[1], -m_floats[2], m_floats[3]); }
  tfScalar getAngle() const { return 2.0 * tfAcos(m_floats[3]); }
  tfScalar angleShortestPath(const Quaternion& q) const { tfScalar s = std::sqrt(length2() * q.length2()); if (dot(q) < 0) return tfAcos(-dot(q) / s) * 2.0; return tfAcos(dot(q) / s) * 2.0; }
  Quaternion slerp(const Quaternion& q, const tfScalar& t) const {
    tfScalar theta = angleShortestPath(q) / 2.0;
    if (theta != 0.0) {
      tfScalar d = 1.0 / std::sin(theta);
      tfScalar s0 = std::sin((1.0 - t) * theta), s1 = std::sin(t * theta);
      tfScalar sgn = dot(q) < 0 ? -1.0 : 1.0;
      return Quaternion((m_floats[0] * s0 + sgn * q.x() * s1) * d, (m_floats[1] * s0 + sgn * q.y() * s1) * d, (m_floats[2] * s0 + sgn * q.z() * s1) * d, (m_floats[3] * s0 + sgn * q.m_floats[3] * s1) * d);
    }
    return *this;
  }
  const tfScalar& x() const { return m_floats[0]; }
  const tfScalar& y() const { return m_floats[1]; }
  const tfScalar& z() const { return m_floats[2]; }
  const tfScalar& w() const { return m_floats[3]; }
  const tfScalar& getX() const { return m_floats[0]; }
  const tfScalar& getY() const { return m_floats[1]; }
  const tfScalar& getZ() const { return m_floats[2]; }
  const tfScalar& getW() const { return m_floats[3]; }
  static const Quaternion& getIdentity() { static const Quaternion q(0, 0, 0, 1); return q; }
  bool operator==(const Quaternion& o) const { return x() == o.x() && y() == o.y() && z() == o.z() && w() == o.w(); }
};
inline Quaternion operator*(const Quaternion& a, const Quaternion& b) { Quaternion r(a); r *= b; return r; }
inline Quaternion operator-(const Quaternion& a) { return Quaternion(-a.x(), -a.y(), -a.z(), -a.w()); }
inline Quaternion slerp(const Quaternion& a, const Quaternion& b, const tfScalar& t) { return a.slerp(b, t); }
class Matrix3x3 {
 public:
  Vector3 m_el[3];
  Matrix3x3() { setIdentity(); }
  explicit Matrix3x3(const Quaternion& q) { setRotation(q); }
  Matrix3x3(tfScalar xx, tfScalar xy, tfScalar xz, tfScalar yx, tfScalar yy, tfScalar yz, tfScalar zx, tfScalar zy, tfScalar zz) { m_el[0].setValue(xx, xy, xz); m_el[1].setValue(yx, yy, yz); m_el[2].setValue(zx, zy, zz); }
  void setIdentity() { m_el[0].setValue(1, 0, 0); m_el[1].setValue(0, 1, 0); m_el[2].setValue(0, 0, 1); }
  void setRotation(const Quaternion& q) {
    tfScalar d = q.length2();
    tfScalar s = 2.0 / d;
    tfScalar xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    tfScalar wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs, xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    m_el[0].setValue(1.0 - (yy + zz), xy - wz, xz + wy);
    m_el[1].setValue(xy + wz, 1.0 - (xx + zz), yz - wx);
    m_el[2].setValue(xz - wy, yz + wx, 1.0 - (xx + yy));
  }
  void setRPY(tfScalar roll, tfScalar pitch, tfScalar yaw) { Quaternion q; q.setRPY(roll, pitch, yaw); setRotation(q); }
  Vector3& operator[](int i) { return m_el[i]; }
  const Vector3& operator[](int i) const { return m_el[i]; }
  void getEulerYPR(tfScalar& yaw, tfScalar& pitch, tfScalar& roll, unsigned int sol = 1) const {
    tfScalar y1, p1, r1, y2, p2, r2;
    if (std::fabs(m_el[2].x()) >= 1) {
      y1 = y2 = 0;
      if (m_el[2].x() < 0) { tfScalar delta = std::atan2(m_el[0].y(), m_el[0].z()); p1 = p2 = TFSIMD_PI / 2.0; r1 = r2 = delta; }
      else { tfScalar delta = std::atan2(-m_el[0].y(), -m_el[0].z()); p1 = p2 = -TFSIMD_PI / 2.0; r1 = r2 = delta; }
    } else {
      p1 = -tfAsin(m_el[2].x()); p2 = TFSIMD_PI - p1;
      r1 = std::atan2(m_el[2].y() / std::cos(p1), m_el[2].z() / std::cos(p1));
      r2 = std::atan2(m_el[2].y() / std::cos(p2), m_el[2].z() / std::cos(p2));
      y1 = std::atan2(m_el[1].x() / std::cos(p1), m_el[0].x() / std::cos(p1));
      y2 = std::atan2(m_el[1].x() / std::cos(p2), m_el[0].x() / std::cos(p2));
    }
    if (sol == 1) { yaw = y1; pitch = p1; roll = r1; } else { yaw = y2; pitch = p2; roll = r2; }
  }
  void getRPY(tfScalar& roll, tfScalar& pitch, tfScalar& yaw, unsigned int sol = 1) const { getEulerYPR(yaw, pitch, roll, sol); }
  void getRotation(Quaternion& q) const {
    tfScalar trace = m_el[0].x() + m_el[1].y() + m_el[2].z(); tfScalar t[4];
    if (trace > 0.0) {
      tfScalar s = std::sqrt(trace + 1.0); t[3] = s * 0.5; s = 0.5 / s;
      t[0] = (m_el[2].y() - m_el[1].z()) * s; t[1] = (m_el[0].z() - m_el[2].x()) * s; t[2] = (m_el[1].x() - m_el[0].y()) * s;
    } else {
      int i = m_el[0].x() < m_el[1].y() ? (m_el[1].y() < m_el[2].z() ? 2 : 1) : (m_el[0].x() < m_el[2].z() ? 2 : 0);
      int j = (i + 1) % 3, k = (i + 2) % 3;
      tfScalar s = std::sqrt(m_el[i].m_floats[i] - m_el[j].m_floats[j] - m_el[k].m_floats[k] + 1.0);
      t[i] = s * 0.5; s = 0.5 / s;
      t[3] = (m_el[k].m_floats[j] - m_el[j].m_floats[k]) * s;
      t[j] = (m_el[j].m_floats[i] + m_el[i].m_floats[j]) * s;
      t[k] = (m_el[k].m_floats[i] + m_el[i].m_floats[k]) * s;
    }
    q.setValue(t[0], t[1], t[2], t[3]);
  }
  Matrix3x3 transpose() const { return Matrix3x3(m_el[0].x(), m_el[1].x(), m_el[2].x(), m_el[0].y(), m_el[1].y(), m_el[2].y(), m_el[0].z(), m_el[1].z(), m_el[2].z()); }
  Matrix3x3 inverse() const { return transpose(); }
};
inline Vector3 operator*(const Matrix3x3& m, const Vector3& v) { return Vector3(m[0].dot(v), m[1].dot(v), m[2].dot(v)); }
inline Matrix3x3 operator*(const Matrix3x3& a, const Matrix3x3& b) { Matrix3x3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { tfScalar s = 0; for (int k = 0; k < 3; k++) s += a[i].m_floats[k] * b[k].m_floats[j]; r[i].m_floats[j] = s; } return r; }
class Transform {
 public:
  Matrix3x3 m_basis; Vector3 m_origin;
  Transform() {}
  explicit Transform(const Quaternion& q, const Vector3& c = Vector3(0, 0, 0)) : m_basis(q), m_origin(c) {}
  explicit Transform(const Matrix3x3& b, const Vector3& c = Vector3(0, 0, 0)) : m_basis(b), m_origin(c) {}
  Vector3 operator()(const Vector3& x) const { return m_basis * x + m_origin; }
  Vector3 operator*(const Vector3& x) const { return (*this)(x); }
  Transform operator*(const Transform& t) const { return Transform(m_basis * t.m_basis, (*this)(t.m_origin)); }
  Quaternion operator*(const Quaternion& q) const { return getRotation() * q; }
  Transform inverse() const { Matrix3x3 i = m_basis.transpose(); return Transform(i, i * -m_origin); }
  Vector3& getOrigin() { return m_origin; }
  const Vector3& getOrigin() const { return m_origin; }
  Matrix3x3& getBasis() { return m_basis; }
  const Matrix3x3& getBasis() const { return m_basis; }
  Quaternion getRotation() const { Quaternion q; m_basis.getRotation(q); return q; }
  void setOrigin(const Vector3& o) { m_origin = o; }
  void setRotation(const Quaternion& q) { m_basis.setRotation(q); }
  void setBasis(const Matrix3x3& b) { m_basis = b; }
  void setIdentity() { m_basis.setIdentity(); m_origin.setZero(); }
  static const Transform& getIdentity() { static const Transform t; return t; }
};
typedef Transform Pose;
class StampedTransform : public Transform {
 public:
  ros::Time stamp_; std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
  void setData(const Transform& t) { *static_cast<Transform*>(this) = t; }
};
inline bool operator==(const StampedTransform& a, const StampedTransform& b) {
  for (int i = 0; i < 3; i++) if (a.m_basis[i] != b.m_basis[i]) return false;
  return a.m_origin == b.m_origin && a.stamp_ == b.stamp_ && a.frame_id_ == b.frame_id_ && a.child_frame_id_ == b.child_frame_id_;
}
template <class T> class Stamped : public T { public: ros::Time stamp_; std::string frame_id_; Stamped() {} Stamped(const T& t, const ros::Time& s, const std::string& f) : T(t), stamp_(s), frame_id_(f) {} };
inline double getYaw(const Quaternion& q) { double y, p, r; Matrix3x3(q).getEulerYPR(y, p, r); return y; }
inline void quaternionMsgToTF(const geometry_msgs::Quaternion& m, Quaternion& q) { q = Quaternion(m.x, m.y, m.z, m.w); if (std::fabs(q.length2() - 1) > 0.1) q.normalize(); }
inline void quaternionTFToMsg(const Quaternion& q, geometry_msgs::Quaternion& m) { Quaternion n = q; if (std::fabs(q.length2() - 1) > 0.1) n.normalize(); m.x = n.x(); m.y = n.y(); m.z = n.z(); m.w = n.w(); }
inline double getYaw(const geometry_msgs::Quaternion& m) { Quaternion q; quaternionMsgToTF(m, q); return getYaw(q); }
inline Quaternion createQuaternionFromRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); return q; }
inline Quaternion createQuaternionFromYaw(double y) { Quaternion q; q.setRPY(0, 0, y); return q; }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double y) { geometry_msgs::Quaternion m; quaternionTFToMsg(createQuaternionFromYaw(y), m); return m; }
inline geometry_msgs::Quaternion createQuaternionMsgFromRollPitchYaw(double r, double p, double y) { geometry_msgs::Quaternion m; quaternionTFToMsg(createQuaternionFromRPY(r, p, y), m); return m; }
inline void pointMsgToTF(const geometry_msgs::Point& m, Vector3& v) { v = Vector3(m.x, m.y, m.z); }
inline void pointTFToMsg(const Vector3& v, geometry_msgs::Point& m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void vector3MsgToTF(const geometry_msgs::Vector3& m, Vector3& v) { v = Vector3(m.x, m.y, m.z); }
inline void vector3TFToMsg(const Vector3& v, geometry_msgs::Vector3& m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void poseMsgToTF(const geometry_msgs::Pose& m, Transform& t) { Quaternion q; quaternionMsgToTF(m.orientation, q); t = Transform(q, Vector3(m.position.x, m.position.y, m.position.z)); }
}
