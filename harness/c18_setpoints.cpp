// C18: numeric content of local setpoints over every short history of poses, goals, speeds, modes and time steps.
#include "wpgen.h"
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
static Real R;
struct Cfg { float kxy, kz; float cruise; int fov; };
struct Ev { int pos; int mode; int dt; bool stay; };
static const V3 POS[] = {V3(0, 0, 5), V3(1, 0.5f, 5), V3(9.7f, 0.2f, 5), V3(10, 0, 5), V3(4, -3, 8), V3(-6, 6, 2), V3(10, 0.5f, 4.3f)};
static const V3 GOAL(10, 0, 5);
static const double YAW[] = {0, 1.2, -2.9, 3.0, 0.4, -1.0, 2.2};
static const V3 VEL[] = {V3(0, 0, 0), V3(1.5f, -0.5f, 0.1f), V3(0.3f, 0, 0), V3(0, 0, 0), V3(0, 0, -1), V3(-0.2f, 0.2f, 0.5f), V3(0.1f, -0.3f, 0.4f)};
static const double DT[] = {0.05, 0.1, 0, 4, -1};
struct Mode { NavigationState n; bool land, take, air, path; };
static const Mode MODE[] = {{NavigationState::mission, false, false, true, false}, {NavigationState::mission, false, false, true, true}, {NavigationState::offboard, false, false, true, false}, {NavigationState::auto_takeoff, false, false, true, false}, {NavigationState::auto_land, false, false, true, false}, {NavigationState::mission, false, false, false, false}};
static std::string show(const Cfg& f, const std::vector<Ev>& h) { char b[200]; snprintf(b, sizeof b, "smoothing %g/%g cruise %g fov %d: ", f.kxy, f.kz, f.cruise, f.fov); std::string s = b; for (auto& e : h) { snprintf(b, sizeof b, "[(%g %g %g) yaw %g mode %d dt %g%s] ", POS[e.pos].x(), POS[e.pos].y(), POS[e.pos].z(), YAW[e.pos], e.mode, DT[e.dt], e.stay ? " stay" : ""); s += b; } return s; }
static void run(const Cfg& f, const std::vector<Ev>& h, size_t from, double start) {
  auto& c = vc::ctx();
  double t = start; vc::set_time(t);
  R.start(0x4b); Ref ref; ref.kxy = f.kxy; ref.kz = f.kz;
  R.g->setSmoothingSpeed(f.kxy, f.kz);
  if (f.fov == 1) ref.fov = {FOV(0, 0, 270, 45)}; else if (f.fov == 2) ref.fov = {FOV(0, 0, 80, 45)}; else if (f.fov == 3) ref.fov = {FOV(-50, 0, 70, 40), FOV(180, 0, 90, 40)};
  for (size_t i = 0; i < ref.fov.size(); i++) R.g->setFOV(i, ref.fov[i]);
  V3 lastsm; bool have = false; double maxspeed = 0; std::string S;
  for (size_t i = 0; i < h.size(); i++) {
    const Mode& m = MODE[h[i].mode];
    if (i) t += DT[h[i].dt];
    Env e; e.pos = POS[h[i].pos]; e.goal = GOAL; e.yaw = YAW[h[i].pos]; e.vel = VEL[h[i].pos]; e.nav = m.n; e.landwp = m.land; e.takewp = m.take; e.air = m.air; e.stay = h[i].stay; e.t = t; e.des = V3(NAN, NAN, -0.7f); e.pitch = h[i].pos == 4 ? 8 : 0;
    vc::set_time(t);
    if (std::isfinite(f.cruise) || f.fov != 1) { avoidanceOutput o; o.cruise_velocity = f.cruise; o.last_path_time = ros::Time(t - 0.4); if (m.path) o.path_node_positions = {V3(6, 8, 6), V3(4, 6, 6), V3(2, 4, 6), V3(0, 2, 5), V3(0, 0, 5)}; R.g->setPlannerInfo(o); ref.info = o; ref.have_info = true; }
    double sp = std::isfinite(f.cruise) && ref.have_info ? f.cruise : 2; maxspeed = std::max(maxspeed, sp);
    waypointResult w = R.step(e); RefOut x = ref.step(e);
    c.transitions++;
    if (i < from) continue;
    if (S.empty()) S = show(f, h);
    vc::cur("%s step %zu", S.c_str(), i);
    const char* s = S.c_str();
    CK(w.position_wp.allFinite() && w.smoothed_goto_position.allFinite() && w.adapted_goto_position.allFinite() && w.goto_position.allFinite() && w.orientation_wp.coeffs().allFinite(), "finite", "%s: step %zu position (%g %g %g)", s, i, w.position_wp.x(), w.position_wp.y(), w.position_wp.z());
    CK(w.angular_velocity_wp.allFinite() && w.angular_velocity_wp.norm() == 0, "turn-rate", "%s: step %zu turn rate (%g %g %g) was never commanded", s, i, w.angular_velocity_wp.x(), w.angular_velocity_wp.y(), w.angular_velocity_wp.z());
    bool land = x.landing;
    double ahead = (w.adapted_goto_position - e.pos).norm(), gd = (e.goal - e.pos).norm();
    if (!land) {
      CK(ahead <= std::max(maxspeed, 1e-3) * 1.001 || gd < 1, "too-far", "%s: step %zu speed-adapted setpoint is %g m ahead at %g m/s", s, i, ahead, maxspeed);
      CK(ahead <= gd * 1.001 + 1e-4, "beyond-goal", "%s: step %zu speed-adapted setpoint is %g m ahead, the goal is %g m away", s, i, ahead, gd);
    }
    if (start > 1e6 && i == 0) continue;  // the time before the first call is not specified
    CK(veq(w.goto_position, x.go), "target", "%s: step %zu aims at (%g %g %g), expected (%g %g %g)", s, i, w.goto_position.x(), w.goto_position.y(), w.goto_position.z(), x.go.x(), x.go.y(), x.go.z());
    CK(veq(w.adapted_goto_position, x.adapted), "adapted", "%s: step %zu adapted setpoint (%g %g %g), expected (%g %g %g)", s, i, w.adapted_goto_position.x(), w.adapted_goto_position.y(), w.adapted_goto_position.z(), x.adapted.x(), x.adapted.y(), x.adapted.z());
    CK(veq(w.smoothed_goto_position, x.smoothed, 5e-3) && veq(w.position_wp, x.smoothed, 5e-3), "smoothed", "%s: step %zu setpoint (%g %g %g), expected (%g %g %g)", s, i, w.position_wp.x(), w.position_wp.y(), w.position_wp.z(), x.smoothed.x(), x.smoothed.y(), x.smoothed.z());
    double yw = 2 * std::atan2(w.orientation_wp.z(), w.orientation_wp.w());
    CK(ref.ambiguous || std::fabs(Ref::wrap(yw - x.yaw)) < 5e-3 && std::hypot(w.orientation_wp.x(), w.orientation_wp.y()) < 1e-5, "heading", "%s: step %zu heading %g, expected %g", s, i, yw, x.yaw);
    CK(veq(w.linear_velocity_wp, x.lin), "velocity", "%s: step %zu velocity (%g %g %g)", s, i, w.linear_velocity_wp.x(), w.linear_velocity_wp.y(), w.linear_velocity_wp.z());
    if (x.during == PlannerState::ALTITUDE_CHANGE && gd >= 1 && e.nav == NavigationState::offboard && !land) CK((w.adapted_goto_position - e.pos).topRows<2>().norm() < 1e-3, "drifts", "%s: step %zu drifts in the altitude change", s, i);
    vc::outcome(vc::mix(vc::hashf(w.position_wp.x() + 3 * w.position_wp.y()), vc::mix(vc::hashf(yw), vc::hashf(w.position_wp.z()))));
  }
  c.traces++;
}
// long runs: the published setpoint and heading converge, without a jump after a pause
static void flights() {
  auto& c = vc::ctx();
  for (float k : {10.f, 30.f, 3.f}) for (double dt : {0.02, 0.05, 0.1}) for (double pause : {0., 0.6, 5.}) for (int cam = 0; cam < 2; cam++) for (double t0 : {0.5, 1.6e9}) for (int wp = 0; wp < 2; wp++) {
    vc::set_time(t0); R.start(0x4b); R.g->setSmoothingSpeed(k, k); R.g->setFOV(0, cam ? FOV(0, 0, 120, 50) : FOV(0, 0, 270, 45));
    avoidanceOutput o; o.cruise_velocity = 3; R.g->setPlannerInfo(o);
    V3 p(0, 0, 5), g(15, 4, 5), v(wp ? 1 : 0, 0, 0); double yaw = wp ? 2.0 : 0.0, t = t0; bool arrived = false; int n = 0;
    char W[200]; snprintf(W, sizeof W, "flight with smoothing %g, step %g, pause %g, start %g%s", k, dt, pause, t0, wp ? " moving" : "");
    for (double el = 0; el < 60; el += dt, n++) {
      if (n == 20) t += pause;
      Env e; e.pos = p; e.goal = g; e.vel = v; e.yaw = yaw; e.nav = NavigationState::mission; e.t = t;
      vc::cur("%s", W);
      waypointResult w = R.step(e); c.transitions++;
      double ahead = (w.position_wp - p).norm();
      CK(w.position_wp.allFinite() && ahead < 8, "jump", "%s: after %g s the setpoint is %g m away from the vehicle at 3 m/s", W, el, ahead);
      CK((w.position_wp - g).dot(g) / g.norm() < 0.6, "past-goal", "%s: after %g s the setpoint (%g %g %g) is past the goal", W, el, w.position_wp.x(), w.position_wp.y(), w.position_wp.z());
      if (!std::isfinite(ahead) || ahead >= 8) break;
      // the vehicle follows its setpoint like a first order lag
      V3 nv = (w.position_wp - p); if (nv.norm() > 3) nv *= 3 / nv.norm(); v += (nv - v) * std::min(1.0, dt / 0.4); p += v * dt;
      double yw = 2 * std::atan2(w.orientation_wp.z(), w.orientation_wp.w()); yaw = Ref::wrap(yaw + Ref::wrap(yw - yaw) * std::min(1.0, dt / 0.3));
      t += dt; if ((p - g).norm() < 0.3) { arrived = true; }
    }
    CK(arrived && (p - g).norm() < 0.5, "arrive", "%s: vehicle ends %g m from the goal", W, (p - g).norm());
    c.traces++;
  }
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  std::vector<Ev> ev; for (int p = 0; p < 7; p++) for (int m = 0; m < 6; m++) for (int d = 0; d < 5; d++) for (int s = 0; s < 2; s++) { if (m == 5 && (d || s)) continue; if (s && d > 1) continue; ev.push_back({p, m, d, (bool)s}); }
  std::vector<Cfg> cf; for (auto k : {std::make_pair(10.f, 3.f), {0.f, 3.f}, {10.f, 0.f}, {30.f, 30.f}}) for (float cr : {NAN, 0.5f, 3.f}) for (int f = 0; f < 4; f++) cf.push_back({k.first, k.second, cr, f});
  uint64_t item = 0;
  std::vector<Ev> red; for (auto& e : ev) if (e.dt < (c.thorough ? 4 : 2) && !e.stay && e.dt != 1 && e.pos != 1 && e.pos != 6 && (c.thorough || e.mode != 3)) red.push_back(e);
  for (auto& f : cf) for (auto& a : ev) {
    if (a.dt) continue;
    if (!vc::mine(item++)) continue;
    c.states++;
    std::vector<Ev> h{a};
    run(f, h, 0, 5.0); run(f, h, 0, 1.6e9);
    for (auto& b : ev) {
      h.push_back(b); run(f, h, 1, 5.0);
      // longer histories: from two different steps each followed by every reduced third and a fourth of the same kind
      if (b.dt == 0 || b.dt == 3) for (auto& d : red) { h.push_back(d); h.push_back({d.pos, d.mode, 1, d.stay}); run(f, h, 2, 5.0); h.pop_back(); h.pop_back(); }
      h.pop_back();
    }
  }
  if (vc::mine(item++)) flights();
  vc::sample("%s", show(cf[5], {ev[0], ev[33], ev[100]}).c_str());
  return vc::done();
}
