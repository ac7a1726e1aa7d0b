// C38: whole landings: both landing nodes, a vehicle and a camera above every terrain, start, setting and fault schedule in bounds.
#include "vc.h"
#include <functional>
#include <safe_landing_planner/safe_landing_planner_node.hpp>
#include <safe_landing_planner/waypoint_generator_node.hpp>
using namespace avoidance;
typedef Eigen::Vector3f V3; typedef Eigen::Vector2d V2; typedef Eigen::Vector3d V3d;
struct Feat { int kind; double x, y, a, b, h; };  // 0: disc of radius a raised by h; 1: box with half sides a, b; 2: step at x along the direction a; 3: slope h along the direction a; 4: rough (waves of height h) outside radius a
struct Terrain {
  std::string name; std::vector<Feat> f; double base = 0;
  double h(double x, double y) const {
    double z = base;
    for (auto& e : f) { double dx = x - e.x, dy = y - e.y;
      switch (e.kind) {
        case 0: if (dx * dx + dy * dy < e.a * e.a) z += e.h; break;
        case 1: if (std::fabs(dx) < e.a && std::fabs(dy) < e.b) z += e.h; break;
        case 2: if (dx * std::cos(e.a) + dy * std::sin(e.a) > 0) z += e.h; break;
        case 3: z += e.h * (dx * std::cos(e.a) + dy * std::sin(e.a)); break;
        case 4: if (dx * dx + dy * dy > e.a * e.a) z += e.h * ((((long)std::floor(x / 0.5) * 7 + (long)std::floor(y / 0.5) * 13) % 5 + 5) % 5) / 4.; break;
      } }
    return z;
  }
  // height difference within a disc around a position
  double rough(double x, double y, double r) const { double lo = 1e9, hi = -1e9; for (double u = -r; u <= r + 1e-9; u += 0.05) for (double v = -r; v <= r + 1e-9; v += 0.05) if (u * u + v * v <= r * r) { double z = h(x + u, y + v); lo = std::min(lo, z); hi = std::max(hi, z); } return hi - lo; }
};
struct LCfg {
  V3d start = V3d(-12, 3, 10), goal = V3d(0, 0, 10); double ground = 0, view = 5.5, step = 0.13; int mode = 0;  // 0 mission item, 1 AUTO.LAND on arrival
  double grid = 10, cell = 0.5, n = 5, alpha = 0.9, beta = 0.9, thr = 0.4, height = 6, err = 0.5, spiral = 2, diff = 0.1; int smooth = 2, nland = 24, ndiff = 0, slc = 3; double tmax = 120, kp = 0.95, wob = 0;
  std::vector<int> lost; int lostn = 0; double off_at = 1e9, off_for = 2; bool hold = false, same = false; double new_at = 1e9; V3d goal2 = V3d(0, 0, 10); double car_at = 1e9; Feat car{0, 0, 0, 0, 0, 0};
};
struct LRes { bool down = false, finite = true; V3d at = V3d::Zero(), land_at = V3d::Zero(); double low = 1e9, t = 0, rough_land = -1, rough_down = -1, early = 1e9; double eval_t = 0; int landings = 0, sites = 0; uint64_t hash = 0; std::string trail; bool land_in_off = false; double sink = 0; };
struct Landing {
  LRes fly(const Terrain& T0, const LCfg& f, double R) {
    LRes r; auto& c = vc::ctx(); Terrain T = T0;
    shim::bus().clear(); shim::clock_ns = 1000LL * 1000000000LL;
    ros::NodeHandle nh("~");
    std::unique_ptr<SafeLandingPlannerNode> s(new SafeLandingPlannerNode(nh)); std::unique_ptr<WaypointGeneratorNode> n(new WaypointGeneratorNode(nh));
    s->cloud_msg_mutex_.reset(new std::mutex); s->transformed_cloud_mutex_.reset(new std::mutex); s->cloud_ready_cv_.reset(new std::condition_variable);
    { auto k = safe_landing_planner::SafeLandingPlannerNodeConfig::__getDefault__(); k.grid_size = f.grid; k.cell_size = f.cell; k.n_points_threshold = f.n; k.alpha = f.alpha; k.smoothing_size = f.smooth; k.min_n_land_cells = f.nland; k.max_n_mean_diff_cells = f.ndiff; k.mean_diff_thr = f.diff; s->server_.shim_reconfigure(k); }
    { auto k = safe_landing_planner::WaypointGeneratorNodeConfig::__getDefault__(); k.beta = f.beta; k.can_land_thr = f.thr; k.loiter_height = f.height; k.smoothing_land_cell = f.slc; k.vertical_range_error = f.err; k.spiral_width = f.spiral; n->server_.shim_reconfigure(k); }
    V3d pos = f.start, vel(0, 0, 0); double yaw = 0.3; mavros_msgs::PositionTarget sp; int age = 1000; bool asked = false, off = false, switched = false; SLPState prev = SLPState::GOTO;
    V3d held = pos; auto state = [&](const char* m) { mavros_msgs::State q; q.mode = m; q.armed = true; shim::deliver("mavros/state", q); };
    auto item = [&](const V3d& a, const V3d& b, int cmd) { mavros_msgs::Trajectory m; m.point_valid[0] = m.point_valid[1] = 1; m.command[1] = cmd; auto set = [](geometry_msgs::Point& p, const V3d& v) { p.x = v.x(); p.y = v.y(); p.z = v.z(); }; set(m.point_1.position, a); set(m.point_2.position, b); m.point_1.velocity.x = m.point_1.velocity.y = m.point_1.velocity.z = NAN; m.point_2.yaw = NAN; m.point_2.yaw_rate = NAN; shim::deliver("mavros/trajectory/desired", m); };
    V3d goal = f.goal;
    state("AUTO.MISSION");
    for (int k = 0; k < f.tmax * 10; k++) {
      double t = k * 0.1;
      if (t >= f.car_at && !switched) { T.f.push_back(f.car); switched = true; }
      if (t >= f.new_at) goal = f.goal2;
      bool o = t >= f.off_at && t < f.off_at + f.off_for; if (o != off) { off = o; held = pos; state(off ? f.hold ? "AUTO.LOITER" : "POSCTL" : f.mode == 1 && asked ? "AUTO.LAND" : "AUTO.MISSION"); } else if (k % 10 == 3) state(off ? f.hold ? "AUTO.LOITER" : "POSCTL" : f.mode == 1 && asked ? "AUTO.LAND" : "AUTO.MISSION");
      geometry_msgs::PoseStamped p; p.header.stamp = ros::Time::now(); p.pose.position.x = pos.x() + f.wob * std::sin(t * 2.1); p.pose.position.y = pos.y() + f.wob * std::cos(t * 1.7); p.pose.position.z = pos.z(); p.pose.orientation.w = std::cos(yaw / 2); p.pose.orientation.z = std::sin(yaw / 2); shim::deliver("mavros/local_position/pose", p);
      if (off && f.hold) item(f.same ? goal : held, f.same ? goal : held, 17); else if (!off) { if (f.mode == 0) item(goal, goal, 21); else { item(goal, goal, 16); if (!asked && (pos - goal).head<2>().norm() < 1) { asked = true; state("AUTO.LAND"); } } }
      bool lost = f.lostn && std::find(f.lost.begin(), f.lost.end(), k % f.lostn) != f.lost.end(); age++;
      if (!lost) {
        auto& cl = s->safe_landing_planner_->cloud_; cl.clear(); double w = std::min(f.view, std::max(0.3, 1.3 * (pos.z() - T.h(pos.x(), pos.y()))));
        long n0 = std::lround(2 * w / f.step); for (long i = 0; i <= n0; i++) for (long j = 0; j <= n0; j++) { double x = pos.x() - w + i * f.step, y = pos.y() - w + j * f.step; cl.push_back(pcl::PointXYZ(x, y, T.h(x, y))); }
        s->cloud_transformed_ = true; shim::bus().pubs.clear(); s->cmdLoopCallback(ros::TimerEvent());
        auto g = shim::published<safe_landing_planner::SLPGridMsg>("grid_slp"); shim::bus().pubs.clear();
        for (auto& m : g) shim::deliver("grid_slp", m);
        if (!g.empty()) { n->cmdLoopCallback(ros::TimerEvent()); c.transitions++; for (auto& m : shim::published<mavros_msgs::Trajectory>("mavros/trajectory/generated")) if (m.point_valid[0]) { sp = m.point_1; age = 0; } }
        SLPState st = n->waypointGenerator_.getState();
        if (st != prev) { r.hash = vc::mix(r.hash, (int)st * 1000003ULL + k); if (getenv("DBG2")) printf("  %.1f %s at (%.2f %.2f %.2f)\n", t, toString(st).c_str(), pos.x(), pos.y(), pos.z()); if (st == SLPState::LAND) { r.landings++; r.land_at = pos; r.rough_land = T.rough(pos.x(), pos.y(), R); if (off) r.land_in_off = true; } if (st == SLPState::EVALUATE_GRID) r.sites++, r.eval_t = t; prev = st; }
      }
      double g0 = T.h(pos.x(), pos.y());
      if (prev != SLPState::LAND) r.low = std::min(r.low, pos.z() - g0);
      for (int q = 0; q < 5; q++) {
        double dt = 0.02; V3d want(0, 0, 0); double yw = yaw;
        if (age < 5 && (!off || f.hold)) { double P[3] = {sp.position.x, sp.position.y, sp.position.z}, V[3] = {sp.velocity.x, sp.velocity.y, sp.velocity.z}; for (int i = 0; i < 3; i++) { if (!std::isfinite(P[i]) && !std::isfinite(V[i])) r.finite = false; want[i] = (std::isfinite(P[i]) ? f.kp * (P[i] - pos[i]) : 0) + (std::isfinite(V[i]) ? V[i] : 0); } if (std::isfinite(sp.yaw)) yw = sp.yaw; }
        double h = want.head<2>().norm(); if (h > 3) want.head<2>() *= 3 / h; want.z() = std::min(3., std::max(-1., want.z()));
        V3d a = (want - vel) / dt; double ah = a.head<2>().norm(); if (ah > 5) a.head<2>() *= 5 / ah; a.z() = std::min(10., std::max(-10., a.z()));
        vel += a * dt; pos += vel * dt; double dy = std::remainder(yw - yaw, 2 * M_PI); yaw += std::min(0.02, std::max(-0.02, dy)); shim::clock_ns += 20000000;
      }
      if (off && f.hold && !f.same) r.sink = std::max(r.sink, (pos - held).norm());
      if (pos.z() - T.h(pos.x(), pos.y()) < 0.15) { r.down = true; r.at = pos; r.t = t; r.rough_down = T.rough(pos.x(), pos.y(), R); break; }
    }
    if (!r.down) r.at = pos;
    r.hash = vc::mix(r.hash, vc::hashf(std::round(r.at.x() * 10) + 1000 * std::round(r.at.y() * 10))); if (prev == SLPState::LAND) r.trail = "LAND"; else r.trail = toString(prev);
    return r;
  }
};
static std::string P(const V3d& v) { char b[80]; snprintf(b, sizeof b, "(%.2f %.2f %.2f)", v.x(), v.y(), v.z()); return b; }
enum Claim { SAFE, LANDS, NOWHERE };
struct Case { Terrain t; Claim claim; double within; bool low; };  // within: largest distance of the touchdown from the landing item
static double lowest_ = 1e9, far_ = 0, last_ = 0, sink_ = 0;
static void go(const Case& k, const LCfg& f, const std::string& cfg) {
  auto& c = vc::ctx(); static uint64_t item = 0; if (!vc::mine(item++) || c.fails.size() > 8) return;
  vc::cur("%s; %s", k.t.name.c_str(), cfg.c_str());
  double R = std::max(0.3, f.slc * f.cell + std::max(f.smooth, 0) * f.cell - 0.7 - f.wob), up = 0; for (auto& e : k.t.f) if (e.kind < 3 || e.kind == 4) up = std::max(up, std::fabs(e.h));
  Landing l; LRes r = l.fly(k.t, f, R); c.traces++; c.states += r.sites; vc::outcome(r.hash); c.evals += 6; c.info["landings"] += r.down; c.info["sites evaluated"] += r.sites;
  const char* n = k.t.name.c_str(); const char* s = cfg.c_str(); V3d g = f.new_at < 1e8 ? f.goal2 : f.goal; double d = (r.at - g).head<2>().norm();
  if (k.claim == LANDS) { far_ = std::max(far_, d - k.within); last_ = std::max(last_, r.t); }
  if (getenv("DBG")) { printf("RES %s | %s | down %d at %s d %.2f t %.1f rough %.2f %.2f low %.2f sites %d landings %d state %s R %.2f claim %d %.1f evalt %.1f\n", n, s, r.down, P(r.at).c_str(), d, r.t, r.rough_land, r.rough_down, r.low, r.sites, r.landings, r.trail.c_str(), R, k.claim, k.within, r.eval_t); fflush(stdout); }
  sink_ = std::max(sink_, r.sink);
  if (!r.finite) vc::fail("not-finite", "%s; %s: the vehicle got a setpoint which is not finite", n, s);
  bool judged = f.car_at > 1e8 || r.eval_t - f.car_at >= 1.5;
  if (judged && r.landings && r.rough_land > 0.4) vc::fail("unsafe-site", "%s; %s: begins to land at %s, where the ground within %g m differs by %.2f m", n, s, P(r.land_at).c_str(), R, r.rough_land);
  if (judged && r.down && r.rough_down > 0.4) vc::fail("unsafe-touchdown", "%s; %s: lands at %s, where the ground within %g m differs by %.2f m", n, s, P(r.at).c_str(), R, r.rough_down);
  if (r.sink > 2.2) vc::fail("moves-in-hold", "%s; %s: moves %.2f m while the flight controller holds its position", n, s, r.sink);
  if (r.land_in_off) vc::fail("lands-in-other-mode", "%s; %s: begins to land while the pilot flies", n, s);
  if (k.claim == NOWHERE && (r.landings || r.down)) vc::fail("landed-nowhere", "%s; %s: lands at %s although there is no place to land", n, s, P(r.at).c_str());
  if (k.claim == LANDS && !r.down) vc::fail("no-landing", "%s; %s: not landed after %g s, at %s in %s", n, s, f.tmax, P(r.at).c_str(), r.trail.c_str());
  if (k.claim == LANDS && r.down && d > k.within) vc::fail("far-landing", "%s; %s: lands %.2f m from the item at %s", n, s, d, P(r.at).c_str());
  double h0 = f.start.z() - k.t.h(f.start.x(), f.start.y()); if (k.low) lowest_ = std::min(lowest_, r.low - std::min(h0, f.height) + up);
  if (k.low && r.low < std::min(h0, f.height) - up - 1.2) vc::fail("low", "%s; %s: descends to %.2f m before it lands, loiter height %g", n, s, r.low, f.height);
}
static std::vector<Case> cases(bool T) {
  std::vector<Case> v; char b[200];
  for (double z : {0., -20., 35.}) { Case k; snprintf(b, sizeof b, "flat ground at %g", z); k.t.name = b; k.t.base = z; k.claim = LANDS; k.within = 2.5; k.low = true; v.push_back(k); }
  for (int a = 0; a < 4; a++) { Case k; snprintf(b, sizeof b, "slope of 4%% towards %d", a * 90 + 20); k.t.name = b; k.t.f = {{3, 0, 0, a * M_PI / 2 + 0.35, 0, 0.04}}; k.claim = LANDS; k.within = 2.5; k.low = false; v.push_back(k); snprintf(b, sizeof b, "slope of 35%% towards %d", a * 90 + 20); k.t.name = b; k.t.f[0].h = 0.35; k.claim = NOWHERE; v.push_back(k); }
  for (double r : {0.2, 0.5, 1.2}) for (double h : {1.5, -1.}) for (double x : {-3., -1.5, 0., 2.}) for (double y : {-2.2, 0., 1.}) { Case k; snprintf(b, sizeof b, "%s r %g at (%g %g)", h > 0 ? "rock" : "pit", r, x, y); k.t.name = b; k.t.f = {{0, x, y, r, 0, h}}; k.claim = LANDS; k.within = 10; k.low = h > 0; v.push_back(k); }
  for (double x : {-2., 0., 1.5}) for (double y : {-1., 0.7}) { Case k; snprintf(b, sizeof b, "car at (%g %g)", x, y); k.t.name = b; k.t.f = {{1, x, y, 2.2, 0.9, 1.4}}; k.claim = LANDS; k.within = 11; k.low = true; v.push_back(k); snprintf(b, sizeof b, "wall at x %g", x); k.t.name = b; k.t.f = {{1, x, y, 0.15, 6, 2}}; v.push_back(k); }
  for (int a = 0; a < 4; a++) for (double x : {-2., 0., 1.}) for (double h : {0.8, -2.}) { Case k; snprintf(b, sizeof b, "step of %g m at %g towards %d", h, x, a * 90 + 10); k.t.name = b; k.t.f = {{2, x * std::cos(a * M_PI / 2), x * std::sin(a * M_PI / 2), a * M_PI / 2 + 0.17, 0, h}}; k.claim = LANDS; k.within = 11; k.low = true; v.push_back(k); }
  static const int DX[8] = {1, 1, 0, -1, -1, -1, 0, 1}, DY[8] = {0, 1, 1, 1, 0, -1, -1, -1};
  for (int i = -1; i < 16; i++) { double q = i < 8 ? 6 : 12, x = i < 0 ? 0 : q * DX[i % 8], y = i < 0 ? 0 : q * DY[i % 8]; if (!T && i >= 8 && i % 3) continue; Case k; snprintf(b, sizeof b, "landing pad at (%g %g) in rough ground", x, y); k.t.name = b; k.t.f = {{4, x, y, 4.8, 0, 1}}; k.claim = LANDS; k.within = std::hypot(x, y) + 4; k.low = true; v.push_back(k); }
  for (int i = 0; i < 8; i++) for (double q : {1.5, 3.}) { if (!T && i % 2 == (q > 2)) continue; Case k; double m = q / std::hypot(DX[i], DY[i]); snprintf(b, sizeof b, "landing pad at (%.2f %.2f) in rough ground", m * DX[i], m * DY[i]); k.t.name = b; k.t.f = {{4, m * DX[i], m * DY[i], 4.8, 0, 1}}; k.claim = LANDS; k.within = q + 4; k.low = true; v.push_back(k); }
  for (double h : {0.6, 2.}) { Case k; snprintf(b, sizeof b, "rough ground of %g m", h); k.t.name = b; k.t.f = {{4, 400, 0, 1, 0, h}}; k.claim = NOWHERE; k.within = 0; k.low = true; v.push_back(k); }
  return v;
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx(); char b[200]; bool T = c.thorough; auto K = cases(T);
  for (size_t i = 0; i < K.size(); i++) {
    const Case& k = K[i]; LCfg d; double z = k.t.base; d.start.z() += z; d.goal.z() += z; d.goal2 = d.goal; bool far = k.claim == LANDS && k.within > 11; d.tmax = k.claim == NOWHERE ? 60 : far ? 160 : 90;
    int q = 0; auto take = [&](int n) { return T || (q++ + i) % (n > 3 ? n - 2 : n) == 0; };
    go(k, d, "mission item"); { LCfg f = d; f.mode = 1; go(k, f, "landing mode at the item"); }
    for (int a = 0; a < 8; a++) for (double h : {3., 7., 15.}) if (take(6)) { LCfg f = d; f.start = V3d(9 * std::cos(a * M_PI / 4 + 0.1), 9 * std::sin(a * M_PI / 4 + 0.1), z + h); f.goal.z() = z + h; if (k.t.name[0] == 's' && k.t.name[2] == 'o') f.start.z() = f.goal.z() = 12; snprintf(b, sizeof b, "from direction %d at %g m", a * 45, h); go(k, f, b); }
    for (int a = 0; a < 7; a++) if (take(3)) { LCfg f = d; static const std::vector<int> L[7] = {{1}, {0, 2}, {0, 1, 2, 3}, {5, 6, 7, 8, 9, 10, 11, 12, 13, 14}, {1, 2, 4, 5}, {0, 3, 4, 9, 10, 11}, {7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26}}; static const int N[7] = {2, 3, 5, 30, 6, 13, 47}; f.lost = L[a]; f.lostn = N[a]; f.tmax *= 2.5; snprintf(b, sizeof b, "%zu of %d maps lost", f.lost.size(), f.lostn); go(k, f, b); }
    for (double t : {2., 4.5, 8., 10., 11.2, 12., 13.}) for (int m = 0; m < 2; m++) if (take(5)) { LCfg f = d; f.mode = m; f.off_at = t; f.off_for = 1.5; f.tmax += 20; snprintf(b, sizeof b, "%s, pilot flies from %g s for 1.5 s", m ? "landing mode" : "mission item", t); go(k, f, b); }
    for (double t : {2., 4.5, 8., 10., 11.2, 12., 13.}) if (take(5)) { LCfg f = d; f.off_at = t; f.off_for = 6; f.hold = true; f.tmax += 20; snprintf(b, sizeof b, "holds from %g s for 6 s", t); go(k, f, b); if (T || i % 2) { f.same = true; f.off_for = 12; snprintf(b, sizeof b, "flies to the item in hold from %g s for 12 s", t); go(k, f, b); } }
    for (double t : {3., 6., 9.5, 10.5, 12.}) if (take(5)) { LCfg f = d; f.new_at = t; f.goal2 = f.goal + V3d(2, -16, 0); Case e = k; if (k.claim == LANDS) { bool pad = k.t.f.size() && k.t.f[0].kind == 4; if (pad) e.claim = SAFE; else e.within = std::max(k.within, 11.); } snprintf(b, sizeof b, "another item at %g s", t); go(e, f, b); }
    if (k.claim == LANDS && !far) for (double t : {1., 4., 6., 8., 9., 9.5}) if (take(4)) { LCfg f = d; f.car_at = t; f.car = {1, 0.3, -0.2, 2.2, 0.9, 1.5}; Case e = k; e.claim = SAFE; e.low = false; snprintf(b, sizeof b, "a car arrives at %g s", t); go(e, f, b); }
    bool plain = k.claim == NOWHERE || k.t.f.empty() || (k.t.f[0].kind < 3); Case e = k; if (k.claim == LANDS && k.t.f.size() && k.t.f[0].kind != 3) { e.claim = SAFE; }
    if (plain || T) {
      if (take(5)) { LCfg f = d; f.cell = 0.25; f.step = 0.08; f.slc = 6; f.smooth = 4; f.nland = 80; f.ndiff = 0; f.tmax = 60; Case g = e; if (k.claim == NOWHERE && k.t.f[0].kind == 4) g = k; go(g, f, "cells of 0.25 m"); }
      for (int s : {1, 3}) if (take(5)) { LCfg f = d; f.smooth = s; f.nland = (2 * s + 1) * (2 * s + 1) - 1; Case g = e; snprintf(b, sizeof b, "smoothing size %d", s); go(g, f, b); }
      for (int s : {2, 5}) if (take(5)) { LCfg f = d; f.slc = s; snprintf(b, sizeof b, "landing area of %d cells", s); go(e, f, b); }
      for (double a : {0., 0.5}) if (take(5)) { LCfg f = d; f.alpha = a; snprintf(b, sizeof b, "alpha %g", a); go(k, f, b); f.alpha = 0.9; f.beta = 0.7; snprintf(b, sizeof b, "beta 0.7"); go(k, f, b); f.beta = 0.97; f.thr = 0.35; snprintf(b, sizeof b, "beta 0.97"); go(k, f, b); }
      for (double h : {4., 8., 10.}) if (take(5)) { LCfg f = d; f.height = h; snprintf(b, sizeof b, "loiter height %g", h); go(e, f, b); }
      if (take(5)) { LCfg f = d; f.spiral = 1; go(e, f, "spiral width 1"); } if (take(5)) { LCfg f = d; f.grid = 8; go(e, f, "grid of 8 m"); }
      if (take(3)) { LCfg f = d; f.wob = 0.05; go(e, f, "position noise of 0.05 m"); } if (take(3)) { LCfg f = d; f.kp = 1.4; go(k, f, "fast vehicle"); f.kp = 0.6; go(k, f, "slow vehicle"); }
    }
  }
  if (getenv("DBG")) printf("lowest %g far %g last %g\n", lowest_, far_, last_), printf("sink %g\n", sink_);
  vc::sample("%s; mission item", K[0].t.name.c_str()); vc::sample("%s; 1 of 2 maps lost", K[20].t.name.c_str());
  return vc::done();
}
