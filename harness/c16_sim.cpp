// C16: simulated trajectories respect every limit, for every start, direction, limit set and step on a lattice.
#include "vc.h"
#include <local_planner/trajectory_simulator.h>
using namespace avoidance;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
typedef Eigen::Vector3f V3;
struct L { float jerk, acc, xy, up, down, step; };
static void run(const L& l, const V3& v0, const V3& a0, const V3& g, float dur, bool settle) {
  auto& c = vc::ctx();
  char S[400]; snprintf(S, sizeof S, "limits jerk %g acc %g xy %g z %g..%g, step %g, start velocity (%g %g %g) acceleration (%g %g %g), direction (%g %g %g), %g s", l.jerk, l.acc, l.xy, l.down, l.up, l.step, v0.x(), v0.y(), v0.z(), a0.x(), a0.y(), a0.z(), g.x(), g.y(), g.z(), dur);
  vc::cur("%s", S);
  simulation_limits q; q.max_z_velocity = l.up; q.min_z_velocity = l.down; q.max_xy_velocity_norm = l.xy; q.max_acceleration_norm = l.acc; q.max_jerk_norm = l.jerk;
  simulation_state s; s.time = 2.5f; s.position = V3(3, -4, 5); s.velocity = v0; s.acceleration = a0;
  TrajectorySimulator t(q, s, l.step);
  auto r = t.generate_trajectory(g, dur);
  c.traces++; c.states += r.size(); c.transitions += r.size();
  size_t want = (size_t)std::ceil((double)dur / l.step - 1e-4);
  CK(r.size() == want || r.size() == want + 1, "count", "%s: %zu states, expected %zu", S, r.size(), want);
  auto p = s; double amax = std::max((double)a0.norm(), (double)l.acc), v0over = 0;
  // a start acceleration can carry the velocity past a limit before it can be removed
  if (a0.norm() > 0) v0over = a0.norm() * a0.norm() / (2 * l.jerk) * 3 + a0.norm() * l.step * 2 + (g.norm() > 0 ? 0.35 * a0.norm() : 0.35 * a0.norm());
  for (size_t i = 0; i < r.size(); i++) {
    auto& x = r[i];
    bool fin = std::isfinite(x.time) && x.position.allFinite() && x.velocity.allFinite() && x.acceleration.allFinite();
    CK(fin, "finite", "%s: state %zu is not finite", S, i);
    if (!fin) return;
    double dt = (double)x.time - p.time;
    CK(std::fabs(dt - l.step) < 1e-4 * std::max(1.0f, x.time), "time", "%s: state %zu is %g s after the one before", S, i, dt);
    dt = l.step;
    Eigen::Vector3d a1 = x.acceleration.cast<double>(), ap = p.acceleration.cast<double>(), vp = p.velocity.cast<double>(), j = (a1 - ap) / dt;
    CK(j.norm() <= l.jerk * 1.001 + 2e-4 / l.step * std::max(1.0, ap.norm() * 0.01), "jerk", "%s: state %zu: acceleration changes by %g m/s3", S, i, j.norm());
    CK(a1.norm() <= amax * 1.0001 + 1e-4, "acceleration", "%s: state %zu: acceleration %g", S, i, a1.norm());
    Eigen::Vector3d v = vp + dt * ap + 0.5 * dt * dt * j, po = p.position.cast<double>() + dt * vp + 0.5 * dt * dt * ap + dt * dt * dt / 6 * j;
    CK((v - x.velocity.cast<double>()).norm() < 1e-4 * std::max(1.0, v.norm()), "motion-velocity", "%s: state %zu: velocity does not follow from the acceleration", S, i);
    CK((po - x.position.cast<double>()).norm() < 1e-4 * std::max(1.0, po.norm()), "motion-position", "%s: state %zu: position does not follow from the velocity", S, i);
    double xy = std::hypot((double)x.velocity.x(), (double)x.velocity.y());
    CK(xy <= std::max((double)l.xy, (double)v0.head<2>().norm()) * 1.01 + v0over && x.velocity.z() <= l.up * 1.01 + v0over && x.velocity.z() >= l.down * 1.01 - v0over, "velocity", "%s: state %zu at %g s: velocity (%g %g %g)", S, i, x.time - 2.5, x.velocity.x(), x.velocity.y(), x.velocity.z());
    p = x;
  }
  if (settle && !r.empty()) {
    V3 v = r.back().velocity;
    double gh = g.head<2>().norm(), vh = v.head<2>().norm(), tol = 0.02 * std::max(1.f, l.xy);
    if (g.norm() == 0) CK(v.norm() < tol, "stops", "%s: without a direction the vehicle still moves at %g", S, v.norm());
    else {
      if (gh > 0.05 * g.norm()) CK(vh > 0.05 * std::min(l.xy, std::min(l.up, -l.down)) && std::fabs(v.x() * g.y() - v.y() * g.x()) < tol * gh && v.x() * g.x() + v.y() * g.y() > 0, "direction", "%s: ends up moving (%g %g %g)", S, v.x(), v.y(), v.z());
      else CK(vh < tol, "direction", "%s: ends up moving (%g %g %g)", S, v.x(), v.y(), v.z());
      CK(std::fabs(g.z()) > 1e-6 * g.norm() ? v.z() * g.z() > 0 : std::fabs(v.z()) < tol, "direction-z", "%s: ends up moving (%g %g %g)", S, v.x(), v.y(), v.z());
      double fr = std::max(vh / l.xy, v.z() > 0 ? (double)v.z() / l.up : (double)v.z() / l.down);
      CK(fr > 0.95, "speed", "%s: ends up at (%g %g %g), a fraction %g of the limits", S, v.x(), v.y(), v.z(), fr);
    }
    vc::outcome(vc::mix(vc::hashf(std::round(v.x() * 100)), vc::hashf(std::round(v.y() * 100) + 999 * std::round(v.z() * 100))));
  }
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  std::vector<L> Ls;
  for (float j : {3.f, 8.f, 20.f}) for (float a : {1.f, 3.f, 5.f, 10.f}) for (float xy : {1.f, 3.f, 8.f}) for (float up : {1.f, 3.f}) for (float st : {0.05f, 0.1f}) Ls.push_back({j, a, xy, up, -0.5f * up, st});
  Ls.push_back({20, 4, 3, 1, -0.5f, 0.02f}); Ls.push_back({500, 15, 20, 8, -4, 0.01f}); Ls.push_back({4, 50, 3, 1, -1, 0.1f});
  for (auto& l : Ls) for (int d = 0; d < 27; d++) { if (!vc::mine(item++)) continue;
    V3 g(d % 3 - 1, d / 3 % 3 - 1, d / 9 - 1);
    float lim = std::min(2 * std::sqrt(l.jerk), l.acc); float ts = 8 + 4 * (l.xy + l.up) / lim + 4 * lim / l.jerk;
    for (int s = 0; s < 27; s++) { V3 v((s % 3 - 1) * l.xy * 0.7f, (s / 3 % 3 - 1) * l.xy * 0.7f, s / 9 == 0 ? l.down : s / 9 == 1 ? 0 : l.up);
      run(l, v, V3(0, 0, 0), g * (1 + s % 4), ts, true);
      if (s % 3 == d % 3 || c.thorough) for (int a = 0; a < 6; a++) { V3 ac(0, 0, 0); ac[a / 2] = (a % 2 ? 1 : -1) * lim * (a < 3 ? 0.99f : 0.5f); run(l, v, ac, g, ts, true); }
      if (s % 9 == 0) for (float du : {0.f, 0.03f, 0.1f, 0.25f, 1.7f}) run(l, v, V3(0, 0, 0), g, du, false); }
    run(l, V3(0.3f, 0.1f, 0), V3(0, 0, 0), g * 1e-4f, ts, d != 13); run(l, V3(0.3f, 0.1f, 0), V3(0, 0, 0), g + V3(0.3f, 0.04f, -0.2f), ts, true); }
  vc::sample("limits jerk 8 acc 3 xy 3 z -0.5..1, start velocity (2.1 -2.1 1), direction (-1 0 0)");
  return vc::done();
}
