// C09: trajectory messages, for every combination of setpoint components on fresh and reused messages.
#include "vc.h"
#include <avoidance/common.h>
using namespace avoidance;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
static bool eq(double a, double b) { return vc::near(a, b, 1e-5); }
static mavros_msgs::Trajectory dirty(int k) {
  mavros_msgs::Trajectory t = {};
  if (!k) return t;
  float v = 1000.f * k;
  for (auto* p : {&t.point_1, &t.point_2, &t.point_3, &t.point_4, &t.point_5}) { p->position.x = v; p->position.y = v + 1; p->position.z = v + 2; p->velocity.x = v + 3; p->velocity.y = v + 4; p->velocity.z = v + 5; p->acceleration_or_force.x = v + 6; p->acceleration_or_force.y = v + 7; p->acceleration_or_force.z = v + 8; p->yaw = v + 9; p->yaw_rate = v + 10; }
  for (int i = 0; i < 5; i++) { t.point_valid[i] = k % 2; t.time_horizon[i] = v; }
  t.type = 7;
  return t;
}
static bool unsetp(const mavros_msgs::PositionTarget& p) {
  return std::isnan(p.position.x) && std::isnan(p.position.y) && std::isnan(p.position.z) && std::isnan(p.velocity.x) && std::isnan(p.velocity.y) && std::isnan(p.velocity.z) &&
         std::isnan(p.acceleration_or_force.x) && std::isnan(p.acceleration_or_force.y) && std::isnan(p.acceleration_or_force.z) && std::isnan(p.yaw) && std::isnan(p.yaw_rate);
}
// a number in a field the message does not use: unset and zero (never written) carry no information
static bool stale(const mavros_msgs::PositionTarget& p) { for (double v : {p.velocity.x, p.velocity.y, p.velocity.z, p.acceleration_or_force.x, p.acceleration_or_force.y, p.acceleration_or_force.z, (double)p.yaw_rate}) if (!std::isnan(v) && v != 0) return true; return false; }
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  const double V[] = {0, 1.5, -7.25, NAN}, R[] = {0, 0.4, -1.1, NAN};
  for (int pi = 0; pi < 64; pi++) { if (!vc::mine(item++)) continue;
    for (int vi = 0; vi < 64; vi++) for (int yi = -12; yi <= 12; yi++) for (int ri = 0; ri < 4; ri++) for (int k = 0; k < 3; k++) {
      double yaw = yi * M_PI / 12, tilt = (yi % 3) * 0.2;
      geometry_msgs::PoseStamped p; geometry_msgs::Twist t;
      p.pose.position.x = V[pi % 4]; p.pose.position.y = V[pi / 4 % 4] * 2; p.pose.position.z = V[pi / 16] * 3;
      t.linear.x = V[vi % 4] + 0.5; t.linear.y = V[vi / 4 % 4] - 0.25; t.linear.z = V[vi / 16] * 0.5; t.angular.x = 3; t.angular.y = 4; t.angular.z = R[ri];
      Eigen::Quaterniond q = Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(tilt, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(-tilt, Eigen::Vector3d::UnitX());
      p.pose.orientation.x = q.x(); p.pose.orientation.y = q.y(); p.pose.orientation.z = q.z(); p.pose.orientation.w = q.w();
      shim::clock_ns = 5000000000LL + (pi * 64 + vi) * 1000003LL;
      char w[300]; snprintf(w, sizeof w, "position (%g %g %g) velocity (%g %g %g) yaw %g rate %g on message %d", p.pose.position.x, p.pose.position.y, p.pose.position.z, t.linear.x, t.linear.y, t.linear.z, yaw, t.angular.z, k);
      vc::cur("%s", w);
      mavros_msgs::Trajectory m = dirty(k);
      transformToTrajectory(m, p, t);
      auto& a = m.point_1;
      c.states++; c.transitions++;
      CK(eq(a.position.x, p.pose.position.x) && eq(a.position.y, p.pose.position.y) && eq(a.position.z, p.pose.position.z), "position", "%s: carries position (%g %g %g)", w, a.position.x, a.position.y, a.position.z);
      CK(eq(a.velocity.x, t.linear.x) && eq(a.velocity.y, t.linear.y) && eq(a.velocity.z, t.linear.z), "velocity", "%s: carries velocity (%g %g %g)", w, a.velocity.x, a.velocity.y, a.velocity.z);
      CK(std::fabs(std::remainder(a.yaw - yaw, 2 * M_PI)) < 1e-4, "yaw", "%s: carries yaw %g", w, a.yaw);
      CK(eq(a.yaw_rate, -t.angular.z), "yaw-rate", "%s: carries yaw rate %g", w, a.yaw_rate);
      CK(std::isnan(a.acceleration_or_force.x) && std::isnan(a.acceleration_or_force.y) && std::isnan(a.acceleration_or_force.z), "accel", "%s: carries an acceleration", w);
      CK(m.point_valid[0] && !m.point_valid[1] && !m.point_valid[2] && !m.point_valid[3] && !m.point_valid[4], "valid", "%s: validity flags %d%d%d%d%d", w, m.point_valid[0], m.point_valid[1], m.point_valid[2], m.point_valid[3], m.point_valid[4]);
      CK(unsetp(m.point_2) && unsetp(m.point_3) && unsetp(m.point_4) && unsetp(m.point_5), "unused", "%s: an unused point carries numbers", w);
      bool hz = true; for (int i = 0; i < 5; i++) hz &= std::isnan(m.time_horizon[i]);
      CK(hz, "horizon", "%s: a time horizon is set", w);
      CK(m.type == 0, "type", "%s: type %d", w, m.type);
      CK(m.header.stamp.toNSec() == (uint64_t)shim::clock_ns, "stamp", "%s: stamp is not the current time", w);
      vc::outcome(vc::mix(vc::hashf(std::round(100 * a.yaw)), pi * 64 + vi));
    } }
  for (int yi = -24; yi <= 24; yi++) for (int px = 0; px < 64; px++) { if (!vc::mine(item++)) continue;
    for (int k = 0; k < 3; k++) for (double dur : {0.0, 0.5, 4.0}) for (int sh = 0; sh < 3; sh++) {
      const double P[] = {0, 2.5, -11, 300};
      std::array<Eigen::Vector4d, 5> cp;
      for (int i = 0; i < 5; i++) cp[i] = Eigen::Vector4d(P[(px + i * sh) % 4] + i, P[(px / 4 + i) % 4] - i, P[(px / 16 + 2 * i) % 4] + 0.5 * i, (yi + sh * i) * M_PI / 24);
      char w[200]; snprintf(w, sizeof w, "control point 0 (%g %g %g yaw %g), duration %g on message %d", cp[0][0], cp[0][1], cp[0][2], cp[0][3], dur, k);
      vc::cur("%s", w);
      mavros_msgs::Trajectory m = dirty(k);
      shim::clock_ns = 7000000000LL + px;
      transformToBezier(m, cp, dur);
      c.states++; c.transitions++;
      mavros_msgs::PositionTarget* q[] = {&m.point_1, &m.point_2, &m.point_3, &m.point_4, &m.point_5};
      for (int i = 0; i < 5; i++) {
        CK(eq(q[i]->position.x, cp[i][1]) && eq(q[i]->position.y, cp[i][0]) && eq(q[i]->position.z, -cp[i][2]), "bez-position", "%s: point %d at (%g %g %g)", w, i, q[i]->position.x, q[i]->position.y, q[i]->position.z);
        CK(std::fabs(std::remainder(q[i]->yaw - (M_PI / 2 - cp[i][3]), 2 * M_PI)) < 1e-4, "bez-yaw", "%s: point %d has yaw %g", w, i, q[i]->yaw);
        CK(!stale(*q[i]), "bez-stale", "%s: control point %d keeps stale numbers", w, i);
        CK(m.point_valid[i], "bez-valid", "%s: point %d not valid", w, i);
      }
      CK(std::isnan(m.time_horizon[0]) && std::isnan(m.time_horizon[1]) && std::isnan(m.time_horizon[2]) && std::isnan(m.time_horizon[3]) && eq(m.time_horizon[4], dur), "bez-horizon", "%s: time horizon (%g .. %g)", w, m.time_horizon[0], m.time_horizon[4]);
      CK(m.type == 1 && m.header.stamp.toNSec() == (uint64_t)shim::clock_ns, "bez-type", "%s: type %d or stamp", w, m.type);
      vc::outcome(vc::mix(yi + 100, px));
    } }
  for (int k = 0; k < 3; k++) { auto m = dirty(k); fillUnusedTrajectoryPoint(m.point_3); CK(unsetp(m.point_3), "fill", "fillUnusedTrajectoryPoint leaves numbers"); }
  c.traces = c.states;
  vc::sample("position (1.5 nan -21.75) velocity (0.5 1.25 nan) yaw 0.785 rate -1.1 on a reused message");
  return vc::done();
}
