#pragma once
#include <boost/thread/recursive_mutex.hpp>
#include <ros/ros.h>
namespace dynamic_reconfigure {
template <class C>
class Server {
 public:
  typedef boost::function<void(C&, uint32_t)> CallbackType;
  Server(const ros::NodeHandle& = ros::NodeHandle()) : m_(own_) {}
  Server(boost::recursive_mutex& m, const ros::NodeHandle& = ros::NodeHandle()) : m_(m) {}
  // As the real server: the callback is invoked immediately with the current (default) configuration, under the mutex.
  void setCallback(const CallbackType& f) { boost::recursive_mutex::scoped_lock l(m_); cb_ = f; C c = cfg_; cb_(c, ~0u); cfg_ = c; }
  void clearCallback() { boost::recursive_mutex::scoped_lock l(m_); cb_.clear(); }
  void updateConfig(const C& c) { boost::recursive_mutex::scoped_lock l(m_); cfg_ = c; }
  void shim_reconfigure(const C& c0, uint32_t level = ~0u) { boost::recursive_mutex::scoped_lock l(m_); C c = c0; if (cb_) cb_(c, level); cfg_ = c; }
  void getConfigDefault(C& c) { c = C::__getDefault__(); }
  C cfg_ = C::__getDefault__();
  CallbackType cb_;
  boost::recursive_mutex own_;
  boost::recursive_mutex& m_;
};
}
