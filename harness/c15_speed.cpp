// C15: cruise speed handed to trajectory generation, for every combination of limits on a lattice.
#include "vc.h"
#include <local_planner/local_planner.h>
using namespace avoidance;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  std::vector<float> J, A, R, U;
  for (float j = 0.5f; j < 600; j *= 1.25f) J.push_back(j);
  for (float a = 0.1f; a < 40; a *= 1.3f) A.push_back(a);
  for (float r = 0.2f; r <= 60; r *= 1.35f) R.push_back(r); R.push_back(0);
  U = {0.1f, 0.5f, 1, 3, 5, 8, 12, 20};
  for (size_t ji = 0; ji < J.size(); ji++) for (float a : A) { if (!vc::mine(item++)) continue;
    float j = J[ji];
    LocalPlanner lp; lp.setDefaultPx4Parameters();
    avoidance::LocalPlannerNodeConfig cf = avoidance::LocalPlannerNodeConfig::__getDefault__();
    for (float r : R) { cf.max_sensor_range_ = r; lp.dynamicReconfigureSetParams(cf, 0);
      for (float u : U) for (int mi = -1; mi < (int)U.size(); mi++) for (int dir = 0; dir < 2; dir++) {
        float m = mi < 0 ? NAN : U[mi];
        lp.px4_.param_mpc_jerk_max = j; lp.px4_.param_mpc_acc_hor = a; lp.px4_.param_mpc_xy_cruise = u; lp.mission_item_speed_ = m;
        lp.px4_.param_mpc_jerk_min = dir ? 1 : 8; lp.px4_.param_mpc_acc_up_max = dir ? 3 : 10; lp.px4_.param_mpc_z_vel_max_up = dir ? NAN : 3;
        vc::cur("jerk %g acceleration %g range %g cruise %g mission %g", j, a, r, u, m);
        double s = lp.getAvoidanceOutput().cruise_velocity;
        c.states++; c.transitions++; c.traces++;
        double want = mi < 0 ? u : m;
        CK(std::isfinite(s) && s >= 0, "finite", "jerk %g acceleration %g range %g cruise %g mission %g: speed %g", j, a, r, u, m, s);
        CK(s <= want * (1 + 1e-6), "cruise", "jerk %g acceleration %g range %g cruise %g mission %g: speed %g", j, a, r, u, m, s);
        // distance needed: the speed is held while the deceleration builds up (a/j), then constant deceleration
        double dist = s * ((double)a / j) + s * s / (2. * a);
        double sl = 4e-6 * a * a / j;  // single precision of the quadratic's solution
        CK(dist <= r * 1.002 + 1e-3 + sl * ((double)a / j + s / a), "brake", "jerk %g acceleration %g range %g cruise %g mission %g: speed %g needs %g m to stop", j, a, r, u, m, s, dist);
        // not slower than needed
        double b = 2. * a * a / j, lim = (-b + std::sqrt(b * b + 8. * a * r)) / 2;
        CK(s >= std::min(want, lim) * 0.998 - 2e-3 - sl, "slow", "jerk %g acceleration %g range %g cruise %g mission %g: speed %g although %g is safe", j, a, r, u, m, s, std::min(want, lim));
        vc::outcome(vc::hashf(std::round(s * 1000)));
      } }
  }
  vc::sample("jerk 20 acceleration 5 range 12 cruise 3 mission nan");
  return vc::done();
}
