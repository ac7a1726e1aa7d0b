// C37: whole flights of the local planner node through every world, start, goal, camera and fault schedule in bounds.
// A vehicle, a camera and a world around the real local planner node.
#include "vc.h"
#include <chrono>
#include <functional>
#include <local_planner/local_planner_nodelet.h>
#include <local_planner/local_planner.h>
#include <local_planner/waypoint_generator.h>
using namespace avoidance;
typedef Eigen::Vector3f V3;
typedef Eigen::Vector3d V3d;
struct Cyl { double x, y, r, z0, z1; };
struct Box { V3d a, b; };
struct World {
  std::string name; bool arrive = true; std::vector<Cyl> cyl; std::vector<Box> box; bool ground = true;
  double dist(const V3d& p) const {
    double d = 1e9;
    for (auto& o : cyl) { double h = std::max(0., std::hypot(p.x() - o.x, p.y() - o.y) - o.r), v = std::max({0., o.z0 - p.z(), p.z() - o.z1}); d = std::min(d, std::hypot(h, v)); }
    for (auto& o : box) { V3d q = p.cwiseMax(o.a).cwiseMin(o.b); d = std::min(d, (p - q).norm()); }
    return d;
  }
  double ray(const V3d& p, const V3d& u) const {  // range of the first hit along the unit vector u
    double best = 1e9;
    if (ground && u.z() < -1e-9) { double t = -p.z() / u.z(); if (t > 0) best = t; }
    for (auto& o : cyl) {
      double a = u.x() * u.x() + u.y() * u.y(); if (a < 1e-12) continue;
      double dx = p.x() - o.x, dy = p.y() - o.y, b = dx * u.x() + dy * u.y(), cc = dx * dx + dy * dy - o.r * o.r, D = b * b - a * cc; if (D < 0) continue;
      double t = (-b - std::sqrt(D)) / a; if (t <= 0) continue; double z = p.z() + t * u.z();
      if (z >= o.z0 && z <= o.z1) best = std::min(best, t);
      else { double zt = u.z() < 0 ? o.z1 : o.z0; double s = (zt - p.z()) / u.z(); if (s > 0) { double qx = p.x() + s * u.x() - o.x, qy = p.y() + s * u.y() - o.y; if (qx * qx + qy * qy <= o.r * o.r) best = std::min(best, s); } }
    }
    for (auto& o : box) { double lo = 0, hi = 1e9; bool ok = true; for (int i = 0; i < 3; i++) { if (std::fabs(u[i]) < 1e-12) { if (p[i] < o.a[i] || p[i] > o.b[i]) ok = false; continue; } double s = (o.a[i] - p[i]) / u[i], t = (o.b[i] - p[i]) / u[i]; if (s > t) std::swap(s, t); lo = std::max(lo, s); hi = std::min(hi, t); } if (ok && lo <= hi && lo > 0) best = std::min(best, lo); }
    return best;
  }
};
struct Cam { double yaw, h, v; };
struct FCfg {
  V3d start = V3d(0, 0, 4), goal = V3d(20, 0, 4); double yaw0 = 0, cruise = 3; std::vector<Cam> cams = {{0, 64, 48}}; double res = 1.5, range = 18; int every = 3, latency = 0; std::vector<int> lost; double tmax = 60, gap0 = 1e9, gap1 = 1e9, rot = 0; V3d off = V3d::Zero(); std::vector<V3d> goals; double swt = 1e9, idle = 6, bob = 0; int mode = 0; bool params = true; double kp = 0.95;
  std::function<void(LocalPlannerNodeConfig&)> conf;
};
struct FRes { bool reached = false, finite = true; double gapmove = 0; double t = 0, mind = 1e9, side = 0, low = 1e9, high = -1e9; V3d at = V3d::Zero(), end = V3d::Zero(); int plans = 0; std::vector<V3d> track; uint64_t hash = 0; };
struct Flight {
  FRes fly(const World& w, const FCfg& f) {
    FRes r; auto& c = vc::ctx();
    shim::bus().clear(); shim::bus().record = false; shim::clock_ns = 1000LL * 1000000000LL;
    alignas(64) static unsigned char mem[sizeof(LocalPlannerNodelet)]; memset(mem, 0x4b, sizeof mem);
    LocalPlannerNodelet& n = *new (mem) LocalPlannerNodelet();
    n.InitializeNodelet(); shim::clock_ns += (int64_t)(f.idle * 1e9);
    n.cameras_.resize(f.cams.size());
    for (size_t i = 0; i < f.cams.size(); i++) { auto& k = n.cameras_[i]; k.camera_mutex_.reset(new std::mutex); k.camera_cv_.reset(new std::condition_variable); k.received_ = k.transformed_ = false; k.fov_fcu_frame_ = FOV(f.cams[i].yaw, 0, f.cams[i].h, f.cams[i].v); }
    LocalPlannerNodeConfig cf = LocalPlannerNodeConfig::__getDefault__(); cf.goal_z_param = f.goal.z(); if (f.conf) f.conf(cf);
    n.dynamicReconfigureCallback(cf, 0);
    static const struct { const char* s; double v; } PP[] = {{"MPC_XY_CRUISE", 0}, {"MPC_ACC_HOR", 5}, {"MPC_ACC_UP_MAX", 10}, {"MPC_ACC_DOWN_MAX", 10}, {"MPC_JERK_MAX", 20}, {"MPC_Z_VEL_MAX_UP", 3}, {"MPC_Z_VEL_MAX_DN", 1}, {"MPC_LAND_SPEED", 0.7}, {"CP_DIST", 4}, {"NAV_ACC_RAD", 2}, {"MPC_YAWRAUTO_MAX", 45}};
    for (auto& p : PP) { mavros_msgs::Param m; m.param_id = p.s; m.value.real = p.v ? p.v : f.cruise; if (f.params) n.avoidance_node_->px4ParamsCallback(m); }
    V3d pos = f.start, vel(0, 0, 0), goal = f.goal, gap(NAN, 0, 0); double yaw = f.yaw0; size_t gi = 0;
    double cr = std::cos(f.rot), sr = std::sin(f.rot); auto out = [&](const V3d& p) { return V3d(cr * p.x() - sr * p.y() + f.off.x(), sr * p.x() + cr * p.y() + f.off.y(), p.z()); }; auto outv = [&](const V3d& p) { return V3d(cr * p.x() - sr * p.y(), sr * p.x() + cr * p.y(), p.z()); };
    auto in = [&](const V3d& p) { V3d q = p - f.off; return V3d(cr * q.x() + sr * q.y(), -sr * q.x() + cr * q.y(), p.z()); }; auto inv = [&](const V3d& q) { return V3d(cr * q.x() + sr * q.y(), -sr * q.x() + cr * q.y(), q.z()); };
    auto pose = [&] { geometry_msgs::PoseStamped p; p.header.stamp = ros::Time::now(); V3d o = out(pos), ov = outv(vel); p.pose.position.x = o.x(); p.pose.position.y = o.y(); p.pose.position.z = o.z() + f.bob * std::sin(shim::clock_ns * 2e-9); double ya = std::remainder(yaw + f.rot, 2 * M_PI); p.pose.orientation.w = std::cos(ya / 2); p.pose.orientation.z = std::sin(ya / 2); shim::deliver("mavros/local_position/pose", p);
      geometry_msgs::TwistStamped t; t.twist.linear.x = ov.x(); t.twist.linear.y = ov.y(); t.twist.linear.z = ov.z(); shim::deliver("mavros/local_position/velocity_local", t); };
    pose();
    { mavros_msgs::State m; m.mode = f.mode == 0 ? "AUTO.MISSION" : "OFFBOARD"; m.armed = true; shim::deliver("mavros/state", m); }
    auto wp = [&](const V3d& a_, const V3d& b_) { V3d a = out(a_), b = out(b_); mavros_msgs::Trajectory t; t.point_valid[0] = t.point_valid[1] = 1; t.point_1.position.x = a.x(); t.point_1.position.y = a.y(); t.point_1.position.z = a.z(); t.point_1.velocity.x = t.point_1.velocity.y = t.point_1.velocity.z = NAN; t.point_2.position.x = b.x(); t.point_2.position.y = b.y(); t.point_2.position.z = b.z(); t.command[0] = t.command[1] = 16; shim::deliver("mavros/trajectory/desired", t); };
    wp(f.start, f.start); n.updatePlannerInfo(); wp(f.goal, f.goal);
    mavros_msgs::Trajectory sp; bool have = false;
    std::deque<std::pair<int, avoidanceOutput>> due;
    for (int k = 0; k < f.tmax * 10; k++) {
      if (gi < f.goals.size() && (k >= (gi + 1) * f.swt * 10 || (pos - goal).norm() < 0.6)) { goal = f.goals[gi++]; wp(goal, goal); }
      bool lost = (k >= f.gap0 * 10 && k < f.gap1 * 10) || std::find(f.lost.begin(), f.lost.end(), k / f.every) != f.lost.end();
      if (k % f.every == 0 && !lost) {
        for (size_t i = 0; i < f.cams.size(); i++) {
          auto& cl = n.cameras_[i].transformed_cloud_; cl.clear(); const Cam& cam = f.cams[i];
          for (double e = -cam.v / 2; e <= cam.v / 2 + 1e-9; e += f.res) for (double a = -cam.h / 2; a <= cam.h / 2 + 1e-9; a += f.res) { double A = yaw + (cam.yaw + a) * M_PI / 180, E = e * M_PI / 180; V3d u(std::cos(E) * std::cos(A), std::cos(E) * std::sin(A), std::sin(E)); double d = w.ray(pos, u); if (d < f.range) { V3d q = out(pos + d * u); cl.push_back(pcl::PointXYZ(q.x(), q.y(), q.z())); } }
          n.cameras_[i].transformed_ = true;
        }
        n.updatePlannerInfo(); n.local_planner_->runPlanner(); r.plans++;
        due.push_back({k + f.latency, n.local_planner_->getAvoidanceOutput()});
      }
      while (!due.empty() && due.front().first <= k) { for (size_t i = 0; i < f.cams.size(); ++i) n.wp_generator_->setFOV(i, n.local_planner_->getFOV()[i]); n.wp_generator_->setPlannerInfo(due.front().second); n.last_wp_time_ = ros::Time::now(); due.pop_front(); }
      pose();
      shim::bus().record = true; shim::bus().pubs.clear();
      n.cmdLoopCallback(ros::TimerEvent()); c.transitions++;
      for (auto& m : shim::published<mavros_msgs::Trajectory>("mavros/trajectory/generated")) { sp = m; have = true; }
      shim::bus().record = false;
      for (int s = 0; s < 5; s++) {
        double dt = 0.02; V3d want = vel; double yw = yaw; /* setpoints hold until the next one */
        if (have) { V3d p = in(V3d(sp.point_1.position.x, sp.point_1.position.y, sp.point_1.position.z)), v = inv(V3d(sp.point_1.velocity.x, sp.point_1.velocity.y, sp.point_1.velocity.z));
          for (int i = 0; i < 3; i++) { if (!std::isfinite(p[i]) && !std::isfinite(v[i])) r.finite = false; }
          for (int i = 0; i < 3; i++) { if (!std::isfinite(p[i]) && !std::isfinite(v[i])) r.finite = false;
            want[i] = std::isfinite(p[i]) ? f.kp * (p[i] - pos[i]) : std::isfinite(v[i]) ? v[i] : 0; } if (std::isfinite(sp.point_1.yaw)) yw = sp.point_1.yaw - f.rot; }
        double h = want.head<2>().norm(); if (h > f.cruise) want.head<2>() *= f.cruise / h; want.z() = std::min(3., std::max(-1., want.z()));
        V3d a = (want - vel) / dt; double ah = a.head<2>().norm(); if (ah > 5) a.head<2>() *= 5 / ah; a.z() = std::min(10., std::max(-10., a.z()));
        vel += a * dt; pos += vel * dt; double dy = std::remainder(yw - yaw, 2 * M_PI), ly = 60 * M_PI / 180 * dt; yaw += std::min(ly, std::max(-ly, dy));
        double d = w.dist(pos); if (d < r.mind) { r.mind = d; r.at = pos; }
        if (w.ground) r.low = std::min(r.low, pos.z()); r.high = std::max(r.high, pos.z());
        if (k >= f.gap0 * 10 && k < f.gap1 * 10) { if (!(gap.x() == gap.x())) gap = pos; r.gapmove = std::max(r.gapmove, (pos - gap).norm()); }
        V3d g = f.goal - f.start; double g2 = g.head<2>().norm(); if (g2 > 1e-6) r.side = std::max(r.side, std::fabs((pos - f.start).x() * g.y() - (pos - f.start).y() * g.x()) / g2);
        shim::clock_ns += 20000000;
      }
      r.track.push_back(pos); r.hash = vc::mix(r.hash, vc::hashf(std::round(pos.x() * 10) + 1000 * std::round(pos.y() * 10) + 1e6 * std::round(pos.z() * 10)));
      if (gi == f.goals.size() && (pos - goal).norm() < 0.6) { r.reached = true; r.t = (k + 1) * 0.1; break; }
    }
    r.end = pos; n.~LocalPlannerNodelet(); return r;
  }
};


static std::string P(const V3d& v) { char b[80]; snprintf(b, sizeof b, "(%.2f %.2f %.2f)", v.x(), v.y(), v.z()); return b; }
static double near_ = 1e9, moved_ = 0, late_ = 0;
static void go(const World& w, const FCfg& f, const std::string& cfg, bool arrive = true) {
  auto& c = vc::ctx(); static uint64_t item = 0; if (!vc::mine(item++) || c.fails.size() > 8) return;
  vc::cur("%s; %s", w.name.c_str(), cfg.c_str());
  Flight fl; FRes r = fl.fly(w, f); c.traces++; c.states += r.plans; vc::outcome(r.hash); c.evals += 4;
  near_ = std::min(near_, r.mind); moved_ = std::max(moved_, r.gapmove); if (r.reached) late_ = std::max(late_, r.t); c.info["flights which arrived"] += r.reached;
  if (getenv("DBG")) { printf("RES %s | %s | reached %d t %.1f mind %.3f at %s gapmove %.2f side %.2f low %.2f high %.2f end %s\n", w.name.c_str(), cfg.c_str(), r.reached, r.t, r.mind, P(r.at).c_str(), r.gapmove, r.side, r.low, r.high, P(r.end).c_str()); fflush(stdout); }
  const char* n = w.name.c_str(); const char* s = cfg.c_str();
  if (!r.finite) vc::fail("not-finite", "%s; %s: the vehicle got a setpoint which is not finite", n, s);
  if (r.mind < 1.0) vc::fail("too-close", "%s; %s: %.2f m from an obstacle at %s", n, s, r.mind, P(r.at).c_str());
  if (r.low < 1.0) vc::fail("ground", "%s; %s: height %.2f", n, s, r.low);
  if (r.gapmove > 6.0) vc::fail("blind", "%s; %s: flew %.2f m while no camera data arrived", n, s, r.gapmove);
  if (arrive && w.arrive && !r.reached) vc::fail("no-arrival", "%s; %s: not at the goal after %g s, but at %s", n, s, f.tmax, P(r.end).c_str());
  if (w.cyl.empty() && w.box.empty() && r.side > 5 && f.goals.empty() && f.gap0 > 1e8) vc::fail("detour", "%s; %s: %.2f m beside the direct way although there is no obstacle", n, s, r.side);
}
static std::vector<World> worlds() {
  std::vector<World> v; char b[200];
  { World w; w.name = "empty"; v.push_back(w); w.name = "empty without ground"; w.ground = false; v.push_back(w); }
  for (double r : {0.25, 0.5, 1., 2.}) for (double y : {-1.5, -0.6, 0., 0.3, 1., 2.2}) { World w; snprintf(b, sizeof b, "pillar r %g y %g", r, y); w.name = b; w.arrive = y != 0; w.cyl.push_back({10, y, r, 0, 12}); v.push_back(w); }
  for (double y : {-1., 0., 0.4}) for (double y2 : {-2., 0., 1.5}) for (double x2 : {13., 16.}) { World w; snprintf(b, sizeof b, "pillars y %g and x %g y %g", y, x2, y2); w.name = b; w.arrive = false; w.cyl.push_back({8, y, 0.5, 0, 12}); w.cyl.push_back({x2, y2, 0.5, 0, 12}); v.push_back(w); }
  for (double h : {2., 3.5, 4.5}) for (double l : {2., 6., 15.}) { World w; snprintf(b, sizeof b, "wall height %g half length %g", h, l); w.name = b; w.arrive = false; w.box.push_back({V3d(10, -l + 0.4, 0), V3d(10.5, l + 0.4, h)}); v.push_back(w); }
  for (double h : {3., 4., 5.}) for (double y : {-0.8, 0., 0.5}) { World w; snprintf(b, sizeof b, "box in the air height %g y %g", h, y); w.name = b; w.arrive = y != 0; w.box.push_back({V3d(9.5, y - 0.7, h - 0.7), V3d(10.9, y + 0.7, h + 0.7)}); v.push_back(w); }
  for (double y : {-0.7, 0.3}) { World w; snprintf(b, sizeof b, "tree y %g", y); w.name = b; w.cyl.push_back({10, y, 0.2, 0, 3}); w.cyl.push_back({10, y, 1.5, 3, 7}); v.push_back(w); }
  { World w; w.name = "gap between buildings"; w.arrive = false; w.box.push_back({V3d(8, -14, 0), V3d(14, -3.5, 12)}); w.box.push_back({V3d(8, 4.5, 0), V3d(14, 14, 12)}); v.push_back(w); w.name = "roof over the way"; w.box = {{V3d(6, -12, 6.5), V3d(16, 12, 9)}}; v.push_back(w); }
  return v;
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx(); char b[200]; auto W = worlds(); const V3d far(1234.5, -876.25, 0); bool T = c.thorough;
  for (size_t i = 0; i < W.size(); i++) { auto& w = W[i]; FCfg d; d.tmax = w.arrive ? 90 : 40;
    { FCfg f = d; go(w, f, "3 m/s"); f.cruise = 1.5; go(w, f, "1.5 m/s"); f.cruise = 5; go(w, f, "5 m/s"); }
    { FCfg f = d; f.latency = 2; go(w, f, "plans 0.2 s late"); }
    { FCfg f = d; f.cams = {{0, 64, 48}, {64, 64, 48}, {-64, 64, 48}}; go(w, f, "three cameras"); }
    { FCfg f = d; f.yaw0 = M_PI; go(w, f, "facing away at first"); if (T) { f.yaw0 = -1.3; go(w, f, "facing right at first"); } }
    { FCfg f = d; f.mode = 1; if (T || i % 3 == 0) go(w, f, "offboard"); f.start.z() = 2; f.bob = 0.03; if (T || i % 3 == 1) go(w, f, "offboard after a climb", false); f.mode = 0; f.bob = 0; if (T || i % 3 == 2) go(w, f, "climbing on the way", false); }
    { FCfg f = d; f.kp = 0.5; if (T || i % 2) go(w, f, "slow vehicle"); f.kp = 1.5; if (T || i % 2 == 0) go(w, f, "fast vehicle"); }
    { FCfg f = d; f.params = false; f.cruise = 2; go(w, f, "parameters of the flight controller not known"); }
    for (int k = 1; k < 8; k++) { if (!T && (k + i) % 4) continue; FCfg f = d; f.rot = k * M_PI / 4 + (k % 2 ? 0.02 : 0); f.off = k % 3 == 1 ? far : V3d(0, 0, 0); snprintf(b, sizeof b, "world turned by %.0f degrees%s", f.rot * 180 / M_PI, k % 3 == 1 ? " and far from the origin" : ""); go(w, f, b); }
    int q = 0; for (double t : {0.2, 1., 2.5, 4., 5.}) for (double l : {0.4, 1., 4., 20.}) { if (!T && (q++ + i) % 5) continue; FCfg f = d; f.tmax = w.arrive ? 120 : 50; f.gap0 = t; f.gap1 = t + l; snprintf(b, sizeof b, "no clouds from %g s for %g s", t, l); go(w, f, b); }
    for (int k = 0; k < 12; k++) { if (!T && (k + i) % 6) continue; FCfg f = d; f.lost = {k, k + 1, k + 3}; f.every = 4; snprintf(b, sizeof b, "clouds %d, %d and %d lost", k, k + 1, k + 3); go(w, f, b); }
    { FCfg f = d; f.tmax = w.arrive ? 150 : 60; f.goals = {V3d(0, 8, 4)}; if (T || i % 3 == 0) go(w, f, "second goal"); f.swt = 4; if (T || i % 3 == 1) go(w, f, "new goal on the way"); f.goals = {V3d(0, 0, 4), V3d(20, 0, 4)}; f.swt = 3; if (T || i % 3 == 2) go(w, f, "sent back and forth"); }
  }
  c.info["closest approach in mm, at least"] = 1000; if (getenv("DBG")) printf("near %g moved %g late %g\n", near_, moved_, late_);
  vc::sample("%s; 3 m/s", W[3].name.c_str()); vc::sample("%s; no clouds from 2.5 s for 4 s", W[20].name.c_str());
  return vc::done();
}
