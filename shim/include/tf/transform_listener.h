#pragma once
#include <tf/transform_datatypes.h>
#include <ros/ros.h>
#include <geometry_msgs/Vector3Stamped.h>
#include <geometry_msgs/PointStamped.h>
#include <functional>
#include <stdexcept>
namespace tf {
class TransformException : public std::runtime_error { public: TransformException(const std::string& s) : std::runtime_error(s) {} };
class LookupException : public TransformException { public: LookupException(const std::string& s) : TransformException(s) {} };
class ExtrapolationException : public TransformException { public: ExtrapolationException(const std::string& s) : TransformException(s) {} };
class ConnectivityException : public TransformException { public: ConnectivityException(const std::string& s) : TransformException(s) {} };
}
namespace shim {
// The harness supplies the transform tree: returns true and fills t if target<-source is available at the time.
extern std::function<bool(const std::string& target, const std::string& source, const ros::Time& time, tf::StampedTransform& t)> tf_lookup;
}
namespace tf {
class Transformer {
 public:
  static const unsigned int MAX_GRAPH_DEPTH = 100;
  static constexpr double DEFAULT_CACHE_TIME = 10.0;
  Transformer(bool = true, ros::Duration = ros::Duration(10.0)) {}
  virtual ~Transformer() {}
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& t, std::string* err = nullptr) const {
    (void)err; StampedTransform s; return shim::tf_lookup && shim::tf_lookup(target, source, t, s);
  }
  bool waitForTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration& timeout, const ros::Duration& = ros::Duration(0.01), std::string* err = nullptr) const {
    if (canTransform(target, source, t, err)) return true;
    if (!shim::threads) { timeout.sleep(); return canTransform(target, source, t, err); }
    for (double w = 0; w < timeout.toSec(); w += 0.01) { ros::Duration(0.01).sleep(); if (canTransform(target, source, t, err)) return true; }
    return false;
  }
  void lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, StampedTransform& out) const {
    if (!shim::tf_lookup || !shim::tf_lookup(target, source, t, out)) throw LookupException("no transform from " + source + " to " + target);
    out.frame_id_ = target; out.child_frame_id_ = source;
  }
  void transformVector(const std::string& target, const geometry_msgs::Vector3Stamped& in, geometry_msgs::Vector3Stamped& out) const {
    StampedTransform t; lookupTransform(target, in.header.frame_id, in.header.stamp, t);
    Vector3 v(in.vector.x, in.vector.y, in.vector.z), o = t.getBasis() * v;
    out.header = in.header; out.header.frame_id = target; out.vector.x = o.x(); out.vector.y = o.y(); out.vector.z = o.z();
  }
  void transformPoint(const std::string& target, const geometry_msgs::PointStamped& in, geometry_msgs::PointStamped& out) const {
    StampedTransform t; lookupTransform(target, in.header.frame_id, in.header.stamp, t);
    Vector3 o = t * Vector3(in.point.x, in.point.y, in.point.z);
    out.header = in.header; out.header.frame_id = target; out.point.x = o.x(); out.point.y = o.y(); out.point.z = o.z();
  }
  void transformVector(const std::string& target, const ros::Time& tt, const geometry_msgs::Vector3Stamped& in, const std::string&, geometry_msgs::Vector3Stamped& out) const {
    geometry_msgs::Vector3Stamped i2 = in; i2.header.stamp = tt; transformVector(target, i2, out);
  }
  bool frameExists(const std::string&) const { return true; }
  void clear() {}
};
class TransformListener : public Transformer {
 public:
  TransformListener(ros::Duration = ros::Duration(10.0), bool = true) {}
  TransformListener(const ros::NodeHandle&, ros::Duration = ros::Duration(10.0), bool = true) {}
};
}
