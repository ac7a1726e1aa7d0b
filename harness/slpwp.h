#pragma once
// Drives the real landing setpoint node through its topics and compares every published setpoint, goal marker and state
// with a reference written from the documented landing procedure.
#include "vc.h"
#include <safe_landing_planner/waypoint_generator_node.hpp>
using namespace avoidance;
typedef Eigen::Vector3f V3;
#define CK(cond, key, ...) do { vc::ctx().evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
static const double LANDV = 0.7f;
static const int PX[8] = {1, 1, 0, -1, -1, -1, 0, 1}, PY[8] = {0, 1, 1, 1, 0, -1, -1, -1};
struct WCfg { int rows = 5; float cell = 1; int slc = 1; double beta = 0.5, thr = 0.4, height = 4, err = 0.5, spiral = 2; };
struct Item { V3 p1, v1, p2; float yaw, yawrate; int cmd; bool ok0 = true, ok1 = true; };
struct Pub { V3 p, v; float yaw, rate; bool valid; };
static inline bool eqf(double a, double b, double tol = 1e-3) { return vc::near(a, b, tol); }
static inline bool eqv(const V3& a, const V3& b) { return eqf(a.x(), b.x()) && eqf(a.y(), b.y()) && eqf(a.z(), b.z()); }
static inline bool eqa(double a, double b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return std::fabs(std::remainder(a - b, 2 * M_PI)) < 1e-3; }
static inline std::string PV(const V3& v) { char b[80]; snprintf(b, sizeof b, "(%g %g %g)", v.x(), v.y(), v.z()); return b; }
static const char* SN(SLPState s) { switch (s) { case SLPState::GOTO: return "GOTO"; case SLPState::LOITER: return "LOITER"; case SLPState::LAND: return "LAND"; case SLPState::ALTITUDE_CHANGE: return "ALTITUDE_CHANGE"; case SLPState::EVALUATE_GRID: return "EVALUATE_GRID"; default: return "GOTO_LAND"; } }
static const V3 NANV(NAN, NAN, NAN);

struct WRef {
  WCfg f; SLPState st = SLPState::GOTO;
  V3 pos = NANV, goal = NANV, vel = NANV, loiter = NANV, anchor = NANV, vis = V3(0, 0, 0);
  float yaw = NAN, yawsp = NAN, ratesp = NAN, lyaw = NAN; bool land_task = false, decided = false, can = true, exploring = false, entered = false, reset = false, following = true, resume = false;
  int seq = 0, start = 0, n = -1, factor = 1; double radius = 2, alt = -1;
  int rows = 0; std::vector<double> hyst, mean; std::vector<int> land, result;
  bool amb = false;         // a decision fell on a numeric border
  bool confirmed = false; V3 site = NANV; int evals_in_loiter = 0; int rejections = 0;
  std::vector<Pub> out;
  bool within() const { double d = std::hypot((double)goal.x() - pos.x(), (double)goal.y() - pos.y()); return d < radius; }
  void forget() { decided = false; can = true; std::fill(hyst.begin(), hyst.end(), 0.); exploring = false; n = -1; factor = 1; radius = 2; confirmed = false; }
  void traj(const Item& i) {
    bool moved = i.ok1 && std::sqrt(std::pow((double)i.p2.x() - vis.x(), 2) + std::pow((double)i.p2.y() - vis.y(), 2) + std::pow((double)i.p2.z() - vis.z(), 2)) > 0.01;
    if ((moved || resume || std::isnan(goal.x()) || std::isnan(goal.y())) && i.ok0) { if (land_task && (moved || resume)) reset = true; resume = false; goal = i.p1; vel = i.v1; land_task = i.cmd == 21; }
    if (i.ok1) { vis = i.p2; yawsp = i.yaw; ratesp = i.yawrate; }
  }
  void mode(const std::string& m, bool armed) { if (m == "AUTO.LAND") land_task = true; else if (m != "AUTO.MISSION") { land_task = false; reset = true; } if (!armed) { land_task = false; reset = true; } bool on = armed && (m == "AUTO.LAND" || m == "AUTO.MISSION"); if (on && !following) resume = true; following = on; }
  void grid(int s, int r, const std::vector<double>& m, const std::vector<int>& l) { seq = s; rows = r; mean = m; land = l; }
  double height() {
    std::vector<double> h; int c = rows / 2;
    for (int i = c - f.slc; i <= c + f.slc; i++) for (int j = c - f.slc; j <= c + f.slc; j++) if (i >= 0 && j >= 0 && i < rows && j < rows) h.push_back(mean[i * rows + j]);
    std::sort(h.begin(), h.end());
    size_t k = (size_t)std::floor(0.8 * h.size() + 0.5); return h[std::min(k, h.size() - 1)];
  }
  bool patch(int ci, int cj) const {  // the landing area centred at a cell
    if (ci - f.slc < 0 || cj - f.slc < 0 || ci + f.slc >= rows || cj + f.slc >= rows) return false;
    for (int i = -f.slc; i <= f.slc; i++) for (int j = -f.slc; j <= f.slc; j++) if (std::hypot(i, j) < f.slc + 0.5 && !result[(ci + i) * rows + cj + j]) return false;
    return true;
  }
  void pub(const V3& p, const V3& v, float y, float r) { bool xy = (std::isfinite(p.x()) && std::isfinite(p.y())) || (std::isfinite(v.x()) && std::isfinite(v.y())); out.push_back({p, v, y, r, xy && (std::isfinite(p.z()) || std::isfinite(v.z()))}); }
  static float toward(const V3& a, const V3& b) { return (float)std::atan2((double)b.y() - a.y(), (double)b.x() - a.x()); }
  void go(SLPState s) { st = s; entered = true; }
  void cycle() {
    out.clear();
    if ((int)hyst.size() != rows * rows) { hyst.assign(rows * rows, 0); result.assign(rows * rows, 0); }
    if (!land_task) forget();
    if (reset) { reset = false; forget(); go(SLPState::GOTO); return; }
    bool first = entered; entered = false;
    switch (st) {
      case SLPState::GOTO: {
        if (exploring) { radius = 0.5; yawsp = toward(pos, goal); }
        pub(goal, vel, yawsp, ratesp);
        alt = height(); std::fill(hyst.begin(), hyst.end(), 0.); evals_in_loiter = 0; confirmed = false;
        if (!within() || !land_task) break;
        if (!decided) { go(SLPState::ALTITUDE_CHANGE); break; }
        if (!can) {
          if (!exploring) { anchor = loiter; exploring = true; }
          if (++n == 8) { n = 0; factor++; }
          double off = f.spiral * factor * std::max(2 * f.slc, 1) * f.cell;
          goal = V3(anchor.x() + off * PX[n], anchor.y() + off * PY[n], anchor.z()); vel = NANV; decided = false; rejections++;
        }
        break;
      }
      case SLPState::ALTITUDE_CHANGE: {
        if (first) lyaw = yaw;
        alt = height();
        double e = std::fabs(pos.z() - alt) - f.height; if (std::fabs(e) < 1e-4 || std::fabs(std::fabs(e) - f.err) < 1e-4) amb = true;
        pub(V3(goal.x(), goal.y(), NAN), V3(vel.x(), vel.y(), e < 0 ? LANDV : -LANDV), lyaw, ratesp);
        if (std::fabs(e) < f.err) { start = seq; go(SLPState::LOITER); }
        break;
      }
      case SLPState::LOITER: {
        if (first) { loiter = pos; goal = pos; }
        pub(loiter, NANV, lyaw, NAN);
        if (std::abs(seq - start) <= 20) { for (size_t i = 0; i < hyst.size(); i++) hyst[i] = f.beta * hyst[i] + (1 - f.beta) * land[i]; evals_in_loiter++; }
        else { for (size_t i = 0; i < hyst.size(); i++) { if (std::fabs(hyst[i] - f.thr) < 1e-5) amb = true; result[i] = hyst[i] > f.thr; hyst[i] = result[i]; } go(SLPState::EVALUATE_GRID); }
        break;
      }
      case SLPState::EVALUATE_GRID: {
        pub(loiter, NANV, lyaw, NAN); radius = 0.5; decided = true;
        int c = rows / 2;
        can = patch(c, c);
        if (can) { confirmed = true; site = goal; go(SLPState::GOTO_LAND); break; }
        int it = (1 + (rows - (2 * f.slc + 1))) / 2;
        for (int i = 1; i < it && !can; i++) for (int j = 0; j < 8 && !can; j++) if ((can = patch(c + PX[j] * i, c + PY[j] * i))) {
          goal = V3(pos.x() + PX[j] * i * f.cell, pos.y() + PY[j] * i * f.cell, pos.z()); vel.z() = NAN; confirmed = true; site = goal; }
        go(can ? SLPState::GOTO_LAND : SLPState::GOTO);
        break;
      }
      case SLPState::GOTO_LAND:
        pub(goal, vel, toward(pos, goal), ratesp);
        if (within()) go(SLPState::LAND);
        break;
      case SLPState::LAND:
        if (first) { loiter = pos; lyaw = yaw; }
        loiter.z() = NAN;
        pub(loiter, V3(NAN, NAN, -LANDV), lyaw, NAN);
        break;
    }
  }
};

struct WReal {
  std::unique_ptr<WaypointGeneratorNode> n; std::vector<mavros_msgs::Trajectory> got; bool subscribed = false;
  void start(const WCfg& f) {
    n.reset(); shim::bus().clear(); shim::clock_ns = 100LL * 1000000000LL; got.clear();
    ros::NodeHandle nh("~"); n.reset(new WaypointGeneratorNode(nh));
    auto c = safe_landing_planner::WaypointGeneratorNodeConfig::__getDefault__();
    c.beta = f.beta; c.can_land_thr = f.thr; c.loiter_height = f.height; c.smoothing_land_cell = f.slc; c.vertical_range_error = f.err; c.spiral_width = f.spiral;
    n->server_.shim_reconfigure(c);
  }
  void pose(const V3& p, double yaw) { geometry_msgs::PoseStamped m; m.pose.position.x = p.x(); m.pose.position.y = p.y(); m.pose.position.z = p.z(); m.pose.orientation.w = std::cos(yaw / 2); m.pose.orientation.z = std::sin(yaw / 2); shim::deliver("mavros/local_position/pose", m); }
  void traj(const Item& i) {
    mavros_msgs::Trajectory m; m.point_valid[0] = i.ok0; m.point_valid[1] = i.ok1; m.command[1] = i.cmd;
    auto set = [](geometry_msgs::Point& p, const V3& v) { p.x = v.x(); p.y = v.y(); p.z = v.z(); }; set(m.point_1.position, i.p1); set(m.point_2.position, i.p2);
    m.point_1.velocity.x = i.v1.x(); m.point_1.velocity.y = i.v1.y(); m.point_1.velocity.z = i.v1.z(); m.point_2.yaw = i.yaw; m.point_2.yaw_rate = i.yawrate;
    shim::deliver("mavros/trajectory/desired", m);
  }
  void mode(const std::string& s, bool armed) { mavros_msgs::State m; m.mode = s; m.armed = armed; shim::deliver("mavros/state", m); }
  void grid(int seq, int rows, float cell, const std::vector<double>& mean, const std::vector<int>& land) {
    safe_landing_planner::SLPGridMsg m; m.header.seq = seq; m.grid_size = rows * cell; m.cell_size = cell;
    m.mean.layout.dim.resize(2); m.mean.layout.dim[0].size = rows; m.mean.layout.dim[1].size = rows; m.land.layout = m.mean.layout;
    for (int i = 0; i < rows * rows; i++) { m.mean.data.push_back(mean[i]); m.land.data.push_back(land[i]); }
    shim::deliver("grid_slp", m);
  }
  void cycle() {
    shim::bus().pubs.clear(); n->cmdLoopCallback(ros::TimerEvent()); got.clear();
    for (auto& p : shim::bus().pubs) if (p.type == typeid(mavros_msgs::Trajectory)) got.push_back(*(const mavros_msgs::Trajectory*)p.msg.get());
    shim::bus().pubs.clear();
  }
  SLPState state() { return n->waypointGenerator_.getState(); }
};
// compares one cycle; what: bit 0 states and setpoint content, bit 1 message form (validity, unused points)
static bool same_cycle(WReal& r, WRef& x, int what, const char* s, int i) {
  auto& c = vc::ctx(); size_t f0 = c.fails.size(); uint64_t nf = 0; for (auto& k : c.fails) nf += k.second;
  if (what & 1) {
    CK(r.got.size() == x.out.size(), "published-count", "%s: cycle %d publishes %zu setpoints, expected %zu", s, i, r.got.size(), x.out.size());
    CK(r.state() == x.st, "state", "%s: cycle %d ends in %s, expected %s", s, i, SN(r.state()), SN(x.st));
  }
  for (size_t k = 0; k < r.got.size(); k++) {
    auto& m = r.got[k]; V3 p(m.point_1.position.x, m.point_1.position.y, m.point_1.position.z), v(m.point_1.velocity.x, m.point_1.velocity.y, m.point_1.velocity.z);
    if (k < x.out.size() && (what & 1)) {
      const Pub& o = x.out[k];
      CK(eqv(p, o.p), "position", "%s: cycle %d position %s, expected %s", s, i, PV(p).c_str(), PV(o.p).c_str());
      CK(eqv(v, o.v), "velocity", "%s: cycle %d velocity %s, expected %s", s, i, PV(v).c_str(), PV(o.v).c_str());
      CK(eqa(m.point_1.yaw, o.yaw) || std::hypot(o.p.x() - x.pos.x(), o.p.y() - x.pos.y()) < 1e-3, "yaw", "%s: cycle %d yaw %g, expected %g", s, i, m.point_1.yaw, o.yaw);
      CK(eqf(m.point_1.yaw_rate, o.rate), "yaw-rate", "%s: cycle %d yaw rate %g, expected %g", s, i, m.point_1.yaw_rate, o.rate);
    }
    if (what & 2) {
      bool xy = (std::isfinite(p.x()) && std::isfinite(p.y())) || (std::isfinite(v.x()) && std::isfinite(v.y())), z = std::isfinite(p.z()) || std::isfinite(v.z());
      CK((bool)m.point_valid[0] == (xy && z), "valid", "%s: cycle %d setpoint %s %s valid %d", s, i, PV(p).c_str(), PV(v).c_str(), (int)m.point_valid[0]);
      for (int q = 1; q < 5; q++) CK(!m.point_valid[q], "unused-valid", "%s: cycle %d point %d is valid", s, i, q + 1);
      auto nan = [](const mavros_msgs::PositionTarget& t) { return std::isnan(t.position.x) && std::isnan(t.position.y) && std::isnan(t.position.z) && std::isnan(t.velocity.x) && std::isnan(t.velocity.y) && std::isnan(t.velocity.z) && std::isnan(t.acceleration_or_force.x) && std::isnan(t.acceleration_or_force.y) && std::isnan(t.acceleration_or_force.z) && std::isnan(t.yaw) && std::isnan(t.yaw_rate); };
      CK(nan(m.point_2) && nan(m.point_3) && nan(m.point_4) && nan(m.point_5), "unused-set", "%s: cycle %d an unused point is set", s, i);
      CK(std::isnan(m.point_1.acceleration_or_force.x) && std::isnan(m.point_1.acceleration_or_force.y) && std::isnan(m.point_1.acceleration_or_force.z), "acceleration", "%s: cycle %d acceleration is set", s, i);
      for (float h : m.time_horizon) CK(std::isnan(h), "horizon", "%s: cycle %d time horizon is set", s, i);
      CK(m.type == 0 && m.header.frame_id == "local_origin" && m.header.stamp == ros::Time::now(), "header", "%s: cycle %d header %s type %d", s, i, m.header.frame_id.c_str(), (int)m.type);
    }
  }
  uint64_t nf2 = 0; for (auto& k : c.fails) nf2 += k.second; return nf2 == nf && f0 == c.fails.size();
}
