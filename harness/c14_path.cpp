// C14: setpoint on a path of given age vs arc length, for every small path and elapsed time.
#include "vc.h"
#include <local_planner/planner_functions.h>
using namespace avoidance;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
typedef Eigen::Vector3f V3;
static std::string show(const std::vector<V3>& p) { std::string s; char b[64]; for (auto& v : p) { snprintf(b, sizeof b, "(%g %g %g)", v.x(), v.y(), v.z()); s += b; } return s; }
static void path(const std::vector<V3>& p) {
  auto& c = vc::ctx();
  std::string S = show(p);
  int n = p.size();
  std::vector<double> seg; double total = 0;
  for (int i = n - 2; i > 0; i--) { seg.push_back((p[i - 1] - p[i]).cast<double>().norm()); total += seg.back(); }
  for (double v : {0.5, 1.0, 2.0, 4.25}) for (double t0 : {1.0, 1000000.25}) {
    std::vector<double> T = {0, 0.125, 0.3};
    double acc = 0; for (double s : seg) { for (double f : {0.25, 0.5, 0.875, 1.0}) { T.push_back((acc + f * s) / v); } T.push_back((acc + s) / v - 0.0078125); T.push_back((acc + s) / v + 0.0078125); acc += s; }
    T.push_back(acc / v + 1); T.push_back(acc / v + 100); std::sort(T.begin(), T.end());
    double last = -1;
    for (double dt : T) { if (dt < 0) continue;
      V3 sp(77, 77, 77); ros::Time a(t0), b(t0 + dt);
      double d = (double)(float)(((b - a).toSec()) * v);
      vc::cur("path %s after %g s at %g m/s", S.c_str(), dt, v);
      bool r = getSetpointFromPath(p, a, v, b, sp);
      c.transitions++;
      char W[200]; snprintf(W, sizeof W, "after %g s at %g m/s (%g of %g m)", dt, v, d, total);
      if (n < 2) { CK(!r, "none", "path of %d nodes %s: reported available", n, W); continue; }
      if (n == 2) { CK(r && (sp - p[0]).norm() < 1e-5, "single", "path %s %s: single segment gives (%g %g %g), available %d", S.c_str(), W, sp.x(), sp.y(), sp.z(), (int)r); continue; }
      if (std::fabs(d - total) < 1e-4 * std::max(1.0, total)) continue;
      CK(r == (d < total), "available", "path %s %s: reported available %d", S.c_str(), W, (int)r);
      if (!r || d >= total) continue;
      double left = d; size_t k = 0; while (k + 1 < seg.size() && left > seg[k]) left -= seg[k++];
      Eigen::Vector3d q0 = p[n - 2 - k].cast<double>(), q1 = p[n - 3 - k].cast<double>(), w = q0 + (q1 - q0) * (left / seg[k]);
      CK((sp.cast<double>() - w).norm() < 1e-3, "setpoint", "path %s %s: setpoint (%g %g %g), expected (%g %g %g)", S.c_str(), W, sp.x(), sp.y(), sp.z(), w.x(), w.y(), w.z());
      CK(d >= last, "monotone", "path %s %s", S.c_str(), W); last = d;
      vc::outcome(vc::mix(vc::hashf(w.x() + 5 * w.y()), vc::hashf(w.z() + k)));
    }
    c.states++;
  }
  c.traces++;
}
static const V3 STEP[] = {V3(1, 0, 0), V3(0, 2, 0), V3(-1, 0, 0), V3(0, 0, 1), V3(0, -1, -0.5f), V3(3, 4, 0)};
static void rec(std::vector<V3>& p, int depth) { path(p); if (!depth) return; for (auto& s : STEP) { p.push_back(p.back() - s); rec(p, depth - 1); p.pop_back(); } }
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  if (vc::mine(item++)) { path({}); for (V3 o : {V3(0, 0, 0), V3(10, -20, 5)}) path({o}); for (auto& s : STEP) path({V3(1, 2, 3), V3(1, 2, 3) - s}); }
  for (auto& a : STEP) for (auto& b : STEP) { if (!vc::mine(item++)) continue; V3 o(4, -3, 2); std::vector<V3> p{o, o - a, o - a - b}; rec(p, c.thorough ? 5 : 4); }
  vc::sample("path (4 -3 2)(3 -3 2)(3 -5 2)(3 -5 1) after 1.5 s at 1 m/s");
  return vc::done();
}
