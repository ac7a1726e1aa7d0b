#pragma once
#include <ros/ros.h>
namespace nodelet {
typedef std::vector<std::string> V_string;
typedef std::map<std::string, std::string> M_string;
class Nodelet {
 public:
  Nodelet() {}
  virtual ~Nodelet() {}
  const std::string& getName() const { return name_; }
  ros::NodeHandle& getNodeHandle() const { return nh_; }
  ros::NodeHandle& getPrivateNodeHandle() const { return pnh_; }
  ros::NodeHandle& getMTNodeHandle() const { return nh_; }
  ros::NodeHandle& getMTPrivateNodeHandle() const { return pnh_; }
  const V_string& getMyArgv() const { return argv_; }
  void init(const std::string& name = "nodelet", const M_string& = M_string(), const V_string& = V_string()) { name_ = name; onInit(); }
 protected:
  virtual void onInit() = 0;
  std::string name_ = "nodelet";
  mutable ros::NodeHandle nh_, pnh_;
  V_string argv_;
};
}
#define NODELET_INFO ROS_INFO
#define NODELET_WARN ROS_WARN
#define NODELET_ERROR ROS_ERROR
#define NODELET_DEBUG ROS_DEBUG
