// C02: companion status, hover request and heartbeat as functions of sensor-data age; all histories of the three nodes.
#pragma once
#include "vc.h"
#include <avoidance/avoidance_node.h>
using namespace avoidance;
typedef mavros_msgs::CompanionProcessStatus Status;
static const int64_t MS = 1000000;
static std::vector<Status> beats;
static std::vector<int> trajs;
static void watch() {
  auto& b = shim::bus();
  b.record = false;
  b.on_publish = [](const shim::Pub& p) {
    if (p.topic.find("companion_process/status") != std::string::npos) beats.push_back(*(const Status*)p.msg.get());
    if (p.topic.find("trajectory/generated") != std::string::npos) trajs.push_back(1);
  };
}
static int ref(int64_t cloud_ns, int64_t start_ns, bool& hover, int prev, int64_t T = 15000 * MS, int64_t C = 500 * MS, int64_t S = 5000 * MS) {
  if (cloud_ns > T && start_ns > T) return (int)MAV_STATE::MAV_STATE_FLIGHT_TERMINATION;
  if (cloud_ns > C && start_ns > S) { hover = true; return (int)MAV_STATE::MAV_STATE_CRITICAL; }
  return hover ? prev : (int)MAV_STATE::MAV_STATE_ACTIVE;
}
static ros::Duration dur(int64_t ns) { ros::Duration d; d.fromNSec(ns); return d; }

struct Ev { int dt; bool plan; int polls; };  // ms before the tick, planning cycle finished before it, 0.1 s polls until the pose arrives
static std::vector<Ev> alphabet() {
  std::vector<Ev> r;
  for (int dt : {100, 400, 501, 6000, 15001}) for (bool p : {true, false}) for (int n : {0, 4, 160}) r.push_back({dt, p, n});
  return r;
}
static std::string show(const std::vector<Ev>& h) {
  std::string s;
  char b[96];
  for (auto& e : h) { snprintf(b, sizeof b, "[+%d ms%s, pose after %d polls] ", e.dt, e.plan ? ", plan done" : "", e.polls); s += b; }
  return s;
}
