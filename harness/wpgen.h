#pragma once
// Reference for the local waypoint generator: modes, targets, speed adaption, smoothing and heading, in double precision.
#include "vc.h"
#include <local_planner/waypoint_generator.h>
#include <local_planner/planner_functions.h>
using namespace avoidance;
typedef Eigen::Vector3f V3;
typedef Eigen::Vector3d D3;
struct Env {
  V3 pos, goal, vel; double yaw = 0, pitch = 0;  // rad, deg
  bool stay = false, air = true, landwp = false, takewp = false;
  NavigationState nav = NavigationState::offboard;
  V3 des = V3(NAN, NAN, NAN);
  double t = 0;
};
struct RefOut { PlannerState during, after; D3 go, adapted, smoothed, lin; double yaw; bool landing; };
struct Ref {
  PlannerState st = PlannerState::LOITER; bool fresh_state = false;
  bool reach = false, land = false; D3 hover, hold; double yawh = NAN, yawgoal = NAN; bool hv = false;
  D3 sl = D3(NAN, NAN, NAN), sv = D3(0, 0, 0); double ys = 0, yv = 0, speed = 0, last_t = NAN;
  bool ambiguous = false; double kxy = 10, kz = 3, maxdt = 0.1; std::vector<FOV> fov; avoidanceOutput info; bool have_info = false;
  static double wrap(double a) { return std::remainder(a, 2 * M_PI); }
  bool altitude(const Env& e) {
    bool climb = !(e.pos.z() > e.goal.z() - 0.8f) && e.goal.z() > e.pos.z();
    bool off = e.nav == NavigationState::offboard && !reach;
    bool up = e.nav == NavigationState::auto_takeoff || (e.nav == NavigationState::mission && e.takewp) || (e.nav == NavigationState::auto_rtl && climb);
    land = e.nav == NavigationState::auto_land || (e.nav == NavigationState::mission && e.landwp);
    if (!(off || up || land)) return false;
    if (e.nav == NavigationState::offboard && e.pos.z() >= e.goal.z()) { reach = true; return false; }
    return true;
  }
  RefOut step(const Env& e) {
    RefOut o; D3 p = e.pos.cast<double>(), g = e.goal.cast<double>();
    if (!e.air || !std::isfinite(sl.x())) { sl = p; sv.setZero(); ys = e.yaw; yv = 0; reach = false; }
    if (land) { sl = p; sv.setZero(); }
    double dt = std::isnan(last_t) ? 0.0001 : e.t - last_t; last_t = e.t; if (!(dt > 0)) dt = 0.0001; dt = std::min(dt, maxdt);
    o.during = st; o.lin = D3(NAN, NAN, NAN);
    V3 sp = e.pos; bool path = have_info && getSetpointFromPath(info.path_node_positions, info.last_path_time, std::isfinite(info.cruise_velocity) ? info.cruise_velocity : 2.f, ros::Time::now(), sp);
    bool direct = false, alt_land = false;
    switch (st) {
      case PlannerState::TRY_PATH: { D3 d = sp.cast<double>() - p; o.go = d.norm() > 0 ? D3(p + d.normalized()) : p; break; }
      case PlannerState::DIRECT: { D3 d = g - p; o.go = d.norm() > 0 ? D3(p + d.normalized()) : p; break; }
      case PlannerState::LOITER: if (fresh_state || !hv) { hover = p; hv = true; } o.go = hover; break;
      case PlannerState::ALTITUDE_CHANGE:
        if (fresh_state) { yawh = e.yaw; hold = p; }
        if (e.nav == NavigationState::offboard) { o.go = p; g.x() = p.x(); g.y() = p.y(); if (e.air) o.go.z() += p.z() <= g.z() ? 1 : -1; }
        else if (e.vel.topRows<2>().norm() > 0.5f) { o.go = p; hold = p; o.lin = D3(0, 0, NAN); }
        else { o.go = D3(hold.x(), hold.y(), g.z()); o.lin = e.des.cast<double>(); }
        break;
    }
    // heading
    double want = (p - o.go).topRows<2>().norm() > 0.1 ? std::atan2(o.go.y() - p.y(), o.go.x() - p.x()) : e.yaw;
    if (st == PlannerState::ALTITUDE_CHANGE) want = yawh;
    if (kxy > 0.01 && std::fabs(wrap(want - ys)) > M_PI - 1e-3) ambiguous = true;  // either way round is shortest
    if (kxy <= 0.01) ys = want;
    else { yv += (wrap(want - ys) * kxy - yv * 2 * std::sqrt(kxy)) * dt; ys = wrap(ys + yv * dt); }
    o.adapted = o.go; o.landing = land;
    if (land) o.smoothed = o.go;
    else {
      double v = std::isfinite(info.cruise_velocity) && have_info ? info.cruise_velocity : 2.0, gd = (g - p).norm(), a = dt / (0.9 + dt);
      if (gd < 1) { o.go = g; v = gd; if (std::isnan(yawgoal)) yawgoal = e.yaw; ys = yawgoal; }
      else {
        if (st != PlannerState::ALTITUDE_CHANGE) {
          PolarPoint pp = cartesianToPolarFCU(V3(o.go.cast<float>()), e.pos); pp.e -= e.pitch; pp.z -= e.yaw * 180 / M_PI; wrapPolar(pp);
          v *= scaleToFOV(fov, pp);
        }
        yawgoal = NAN;
      }
      speed = std::min(a * v + (1 - a) * speed, gd);
      D3 d = o.go - p; if (d.norm() > 0.1) d.normalize();
      o.adapted = p + d * speed;
      if (kxy < 0.01 || kz < 0.01) o.smoothed = o.adapted;
      else {
        D3 wv = (o.adapted - g).norm() < 0.1 ? D3(0, 0, 0) : D3(e.vel.cast<double>());
        for (int i = 0; i < 3; i++) { double k = i < 2 ? kxy : kz; sv[i] += ((o.adapted[i] - sl[i]) * k + (wv[i] - sv[i]) * 2 * std::sqrt(k)) * dt; sl[i] += sv[i] * dt; }
        o.smoothed = sl;
      }
    }
    o.yaw = ys;
    PlannerState n = st;
    switch (st) {
      case PlannerState::TRY_PATH: n = e.stay ? PlannerState::LOITER : altitude(e) ? PlannerState::ALTITUDE_CHANGE : path ? PlannerState::TRY_PATH : PlannerState::DIRECT; break;
      case PlannerState::DIRECT: n = path ? PlannerState::TRY_PATH : altitude(e) ? PlannerState::ALTITUDE_CHANGE : e.stay ? PlannerState::LOITER : PlannerState::DIRECT; break;
      case PlannerState::LOITER: n = e.stay ? PlannerState::LOITER : PlannerState::TRY_PATH; break;
      case PlannerState::ALTITUDE_CHANGE: n = e.stay ? PlannerState::LOITER : altitude(e) ? PlannerState::ALTITUDE_CHANGE : PlannerState::TRY_PATH; break;
    }
    fresh_state = n != st; st = n; o.after = n;
    return o;
  }
};
// the real generator, driven through its public interface only
struct Real {
  alignas(64) unsigned char mem[sizeof(WaypointGenerator)];
  WaypointGenerator* g = nullptr;
  void start(int poison) { stop(); memset(mem, poison, sizeof mem); g = new (mem) WaypointGenerator(); }
  void stop() { if (g) g->~WaypointGenerator(); g = nullptr; }
  ~Real() { stop(); }
  waypointResult step(const Env& e) {
    vc::set_time(e.t);
    Eigen::Quaternionf q; { float y = e.yaw, p = e.pitch * M_PI / 180; q = Eigen::AngleAxisf(y, V3::UnitZ()) * Eigen::AngleAxisf(p, V3::UnitY()); }
    g->updateState(e.pos, q, e.goal, V3(0, 0, 0), e.vel, e.stay, e.air, e.nav, e.landwp, e.takewp, e.des);
    return g->getWaypoints();
  }
};
inline const char* mname(PlannerState s) { return s == PlannerState::TRY_PATH ? "TRY_PATH" : s == PlannerState::LOITER ? "LOITER" : s == PlannerState::DIRECT ? "DIRECT" : "ALTITUDE"; }
inline bool veq(const V3& a, const D3& b, double tol = 2e-3) { for (int i = 0; i < 3; i++) if (!vc::near(a[i], b[i], tol)) return false; return true; }
