// C17: mode machine of the local waypoint generator vs reference, over every history of environment valuations.
#include "wpgen.h"
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
struct Ev { int prof, z, path; bool stay, air, fast; };
static const char* PN[] = {"offboard", "mission", "mission+takeoff", "mission+land", "auto_takeoff", "auto_land", "rtl", "auto_loiter", "none", "rtgs"};
static std::string show(const std::vector<Ev>& h) { std::string s; char b[100]; for (auto& e : h) { snprintf(b, sizeof b, "[%s z%+g %s%s%s%s] ", PN[e.prof], (float[]){-2, -0.5f, 0, 2}[e.z], e.path == 0 ? "no path" : e.path == 1 ? "path" : "old path", e.stay ? " stay" : "", e.air ? "" : " ground", e.fast ? " fast" : ""); s += b; } return s; }
static Env env(const Ev& e, int i) {
  static const float ZZ[] = {-2, -0.5f, 0, 2};
  static const NavigationState NS[] = {NavigationState::offboard, NavigationState::mission, NavigationState::mission, NavigationState::mission, NavigationState::auto_takeoff, NavigationState::auto_land, NavigationState::auto_rtl, NavigationState::auto_loiter, NavigationState::none, NavigationState::auto_rtgs};
  Env n; n.goal = V3(20, 3, 10); n.pos = V3(0.5f * i, -0.25f * i, 10 + ZZ[e.z]); n.vel = e.fast ? V3(0.6f, -0.3f, 0.2f) : V3(0.2f, 0.3f, 0.9f);
  n.nav = NS[e.prof]; n.takewp = e.prof == 2 || e.prof == 4; n.landwp = e.prof == 3 || e.prof == 5; n.stay = e.stay; n.air = e.air; n.yaw = 0.3 * i; n.t = 100 + 0.05 * i;
  n.des = V3(NAN, 0.25f * i, e.prof == 3 || e.prof == 5 ? -0.7f : 0.9f);
  return n;
}
static Real R;
static uint64_t key(const Ref& r) { return (int)r.st | r.fresh_state << 2 | r.reach << 3 | r.land << 4 | r.hv << 5 | (uint64_t)std::isnan(r.last_t) << 6; }
// runs the history on both sides, judging the steps from `from` on; returns the reference state reached
static Ref run(const std::vector<Ev>& h, size_t from) {
  auto& c = vc::ctx();
  R.start(0x7f); Ref ref; vc::set_time(100);
  std::string S; 
  for (size_t i = 0; i < h.size(); i++) {
    Env e = env(h[i], i);
    avoidanceOutput o; o.cruise_velocity = 1.5f;
    if (h[i].path) { o.last_path_time = ros::Time(e.t - (h[i].path == 1 ? 0.4 : 60)); o.path_node_positions = {V3(6, 8, 12), V3(4, 6, 12), V3(2, 4, 11), V3(0, 2, 10), V3(0, 0, 10)}; }
    R.g->setPlannerInfo(o); ref.info = o; ref.have_info = true;
    vc::set_time(e.t);
    bool pathok = h[i].path == 1;
    PlannerState before = ref.st; bool fresh = ref.fresh_state;
    waypointResult w = R.step(e); RefOut x = ref.step(e);
    c.transitions++;
    if (i < from) continue;
    if (S.empty()) S = show(h);
    vc::cur("%s step %zu", S.c_str(), i);
    CK(R.g->getState() == w.waypoint_type, "type", "%s: step %zu reports %s in %s", S.c_str(), i, mname(w.waypoint_type), mname(R.g->getState()));
    CK(w.waypoint_type == x.after, "mode", "%s: step %zu leads from %s to %s, expected %s", S.c_str(), i, mname(x.during), mname(w.waypoint_type), mname(x.after));
    CK(veq(w.goto_position, x.go), (std::string("target-") + mname(x.during)).c_str(), "%s: step %zu in %s aims at (%g %g %g), expected (%g %g %g)", S.c_str(), i, mname(x.during), w.goto_position.x(), w.goto_position.y(), w.goto_position.z(), x.go.x(), x.go.y(), x.go.z());
    CK(veq(w.linear_velocity_wp, x.lin), (std::string("velocity-") + mname(x.during)).c_str(), "%s: step %zu in %s commands (%g %g %g), expected (%g %g %g)", S.c_str(), i, mname(x.during), w.linear_velocity_wp.x(), w.linear_velocity_wp.y(), w.linear_velocity_wp.z(), x.lin.x(), x.lin.y(), x.lin.z());
    CK(veq(w.position_wp, x.smoothed), (std::string("setpoint-") + mname(x.during)).c_str(), "%s: step %zu in %s sends (%g %g %g), expected (%g %g %g)", S.c_str(), i, mname(x.during), w.position_wp.x(), w.position_wp.y(), w.position_wp.z(), x.smoothed.x(), x.smoothed.y(), x.smoothed.z());
    // the promises themselves, without the reference
    PlannerState now = R.g->getState();
    if (e.stay && before == PlannerState::LOITER) CK(now == PlannerState::LOITER, "leaves-hold", "%s: step %zu leaves the hold", S.c_str(), i);
    if (!e.stay) CK(now != PlannerState::LOITER, "stuck-hold", "%s: step %zu holds without a request", S.c_str(), i);
    if (before == PlannerState::LOITER && !fresh) CK((w.goto_position - e.pos).norm() > 1e-3 || i == 0 || ref.hover == e.pos.cast<double>(), "moving-hold", "%s: step %zu hold point moves with the vehicle", S.c_str(), i);
    if (now == PlannerState::DIRECT) CK(!pathok && (!e.stay), "direct", "%s: step %zu goes straight with path %d, hold %d", S.c_str(), i, (int)pathok, (int)e.stay);
    if (now == PlannerState::TRY_PATH && before == PlannerState::TRY_PATH) CK(pathok && !e.stay, "path", "%s: step %zu keeps following", S.c_str(), i);
    vc::outcome(vc::mix(key(ref), vc::mix(vc::hashf(w.goto_position.z()), vc::hashf(w.position_wp.x() * 7 + w.position_wp.y()))));
  }
  c.traces++;
  return ref;
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  std::vector<Ev> all, mid, red;
  for (int p = 0; p < 10; p++) for (int z = 0; z < 4; z++) for (int path = 0; path < 3; path++) for (int b = 0; b < 8; b++) {
    Ev e{p, z, path, bool(b & 1), bool(b & 2), bool(b & 4)}; all.push_back(e);
    if ((z == 0 || z == 3) && path < 2 && !e.fast) mid.push_back(e);
    if (p < 7 && (z == 0 || z == 3) && path < 2 && e.air && !e.fast) red.push_back(e);
  }
  // 1. fixed point over the abstract states, every event from each, every pair of events from each
  std::map<uint64_t, std::vector<Ev>> seen; std::vector<uint64_t> todo; seen[key(Ref())] = {}; todo.push_back(key(Ref()));
  uint64_t item = 0;
  for (size_t i = 0; i < todo.size(); i++) {
    std::vector<Ev> h = seen[todo[i]];
    for (auto& e : all) { h.push_back(e); bool m = vc::mine(item++); Ref r = run(h, m ? h.size() - 1 : 1000000); if (!seen.count(key(r))) { seen[key(r)] = h; todo.push_back(key(r)); } h.pop_back(); }
  }
  c.states = c.shard == 0 ? seen.size() : 0; c.info["abstract_states"] = c.shard == 0 ? seen.size() : 0;
  for (auto& k : todo) { std::vector<Ev> h = seen[k]; for (auto& e : all) { if (!vc::mine(item++)) continue; h.push_back(e); for (auto& f : c.thorough ? all : mid) { h.push_back(f); run(h, h.size() - 1); h.pop_back(); } h.pop_back(); } }
  // 2. every history over the reduced alphabet
  int depth = c.thorough ? 5 : 3; uint64_t n = red.size(), tot = 1; for (int i = 0; i < depth; i++) tot *= n;
  uint64_t blk = n * n;
  std::vector<Ev> h;
  for (uint64_t a = 0; a < blk; a++) { if (!vc::mine(item++)) continue; for (uint64_t b = 0; b < tot / blk; b++) { h.clear(); h.push_back(red[a % n]); h.push_back(red[a / n]); for (uint64_t x = b, i = 2; i < (uint64_t)depth; i++, x /= n) h.push_back(red[x % n]); run(h, 2); } }
  vc::sample("%s", show({all[5], all[100], all[301]}).c_str());
  return vc::done();
}
