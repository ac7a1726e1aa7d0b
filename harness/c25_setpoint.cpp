// C25: form and content of every published landing setpoint: all combinations of set and unset components, and all cycles of controller histories.
#include "slpwp.h"
static WReal R;
int main(int argc, char** argv) {
  vc::init(argc, argv); auto& c = vc::ctx(); uint64_t item = 0; WCfg f;
  std::vector<double> m(25, 1.), m9(81, 0.); std::vector<int> l(25, 1), bad(25, 0);
  const float V[] = {NAN, 0.f, 1.5f, -2.f, INFINITY, -INFINITY, 1e-20f, 3e4f};
  int N = c.thorough ? 6 : 5;
  // everything the controller commands in GOTO is what the node was given
  for (int t = 0; t < N * N * N; t++) {
    if (!vc::mine(item++)) continue;
    for (int u = 0; u < N * N * N; u++) for (int y = 0; y < 4; y++) {
      // a fresh goal each time: points alternate so that each message is a new item
      static bool up = false; static int cnt = 0; if (!up || ++cnt > 3000) { R.start(f); up = true; cnt = 0; R.pose(V3(5, 6, 7), 0.2); }
      Item i; i.p1 = V3(V[t % N], V[t / N % N], V[t / N / N]); i.v1 = V3(V[u % N], V[u / N % N], V[u / N / N]); i.p2 = V3(100 + 2 * (cnt % 1000), 1, 1); i.yaw = y & 1 ? NAN : 0.7f; i.yawrate = y & 2 ? -0.2f : NAN; i.cmd = 16;
      R.traj(i); R.grid(cnt + 1, 5, 1, m, l); shim::clock_ns += 100000000; R.cycle(); c.transitions++;
      char S[300]; snprintf(S, sizeof S, "commanded position %s velocity %s yaw %g rate %g", PV(i.p1).c_str(), PV(i.v1).c_str(), i.yaw, i.yawrate); vc::cur("%s", S);
      WRef x; x.pub(i.p1, i.v1, i.yaw, i.yawrate); x.pos = V3(5, 6, 7);
      CK(R.got.size() == 1, "published-count", "%s: %zu setpoints", S, R.got.size()); if (R.got.size() != 1) continue;
      auto& q = R.got[0].point_1; auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
      CK(same(q.position.x, i.p1.x()) && same(q.position.y, i.p1.y()) && same(q.position.z, i.p1.z()), "position", "%s: published position (%g %g %g)", S, q.position.x, q.position.y, q.position.z);
      CK(same(q.velocity.x, i.v1.x()) && same(q.velocity.y, i.v1.y()) && same(q.velocity.z, i.v1.z()), "velocity", "%s: published velocity (%g %g %g)", S, q.velocity.x, q.velocity.y, q.velocity.z);
      CK(same(q.yaw, i.yaw) && same(q.yaw_rate, i.yawrate), "yaw", "%s: published yaw %g rate %g", S, q.yaw, q.yaw_rate);
      x.st = SLPState::GOTO; same_cycle(R, x, 2, S, 0);
      vc::outcome(R.got[0].point_valid[0] * 2 + 1 + vc::hashf(q.position.x) * 3 + vc::hashf(q.velocity.z)); c.states++;
      if (c.fails.size() > 8) return vc::done();
    }
  }
  // the directly commanded form, independent of the controller state
  for (int t = 0; t < 512; t++) { if (!vc::mine(item++)) continue; R.start(f); const float* W = V; for (int u = 0; u < 512; u++) {
    V3 p(W[t % 8], W[t / 8 % 8], W[t / 64]), v(W[u % 8], W[u / 8 % 8], W[u / 64]); char S[200]; snprintf(S, sizeof S, "direct %s %s", PV(p).c_str(), PV(v).c_str()); vc::cur("%s", S);
    shim::bus().pubs.clear(); R.n->waypointGenerator_.publishTrajectorySetpoints_(p, v, 0.3f, NAN); R.got.clear(); for (auto& q : shim::bus().pubs) if (q.type == typeid(mavros_msgs::Trajectory)) R.got.push_back(*(const mavros_msgs::Trajectory*)q.msg.get());
    WRef x; x.pub(p, v, 0.3f, NAN); x.pos = V3(0, 0, 0); x.st = R.state(); CK(R.got.size() == 1, "published-count", "%s: %zu setpoints", S, R.got.size()); if (R.got.size() == 1) { auto& q = R.got[0].point_1; auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }; CK(same(q.position.x, p.x()) && same(q.position.y, p.y()) && same(q.position.z, p.z()) && same(q.velocity.x, v.x()) && same(q.velocity.y, v.y()) && same(q.velocity.z, v.z()) && same(q.yaw, 0.3f) && std::isnan(q.yaw_rate), "content", "%s: published (%g %g %g) (%g %g %g) %g", S, q.position.x, q.position.y, q.position.z, q.velocity.x, q.velocity.y, q.velocity.z, q.yaw); same_cycle(R, x, 2, S, 0); }
    c.states++; } if (c.fails.size() > 8) return vc::done(); }
  // histories of the controller: every sequence of cycle kinds; content, validity and headings of each setpoint
  struct K { int pos, seq, land; int cmd; }; std::vector<K> A = {{0, 1, 1, 0}, {0, 21, 1, 0}, {0, 21, 0, 0}, {1, 1, 1, 0}, {2, 1, 1, 0}, {0, 1, 1, 1}, {0, 1, 1, 2}, {0, 1, 1, 3}, {3, 1, 0, 0}};
  const Item L1 = {V3(2, 1, 8), V3(NAN, NAN, NAN), V3(2, 1, 0), 0.5f, NAN, 21}, L2 = {V3(-9, 4, NAN), V3(0.3f, -0.1f, 0.2f), V3(-9, 4, 1), NAN, 0.2f, 21}; 
  int D = c.thorough ? 7 : 6; long tot = 1; for (int i = 0; i < D; i++) tot *= A.size();
  std::vector<double> mm(25, 1.);
  for (long p = 0; p < tot; p++) {
    if (p % 64 == 0) item++; if (!vc::mine(item)) continue;
    WRef x; x.f = f; R.start(f); R.traj(L1); x.traj(L1); long q = p; int seq = 0; char S[200]; snprintf(S, sizeof S, "history %ld of %d cycles", p, D); vc::cur("%s", S);
    int k = 0;
    for (int i = -3; i < D; i++) {
      K e = i == -3 ? K{0, 1, 1, 0} : i < 0 ? K{0, 1, 1, 0} : A[q % A.size()]; if (i >= 0) q /= A.size();
      if (e.cmd == 1) { R.traj(L2); x.traj(L2); } else if (e.cmd == 2) { R.mode("POSCTL", true); x.mode("POSCTL", true); } else if (e.cmd == 3) { R.mode("AUTO.LAND", true); x.mode("AUTO.LAND", true); }
      seq += e.seq; auto& g = e.land ? l : bad; x.grid(seq, 5, mm, g);
      V3 go = x.goal; V3 ps = e.pos == 1 ? V3(go.x() + 3, go.y(), 5) : e.pos == 2 ? V3(go.x(), go.y(), 9) : e.pos == 3 ? V3(go.x() + 0.2f, go.y(), 1.5f) : V3(go.x(), go.y() - 0.1f, 5.2f);
      double yaw = 0.4 * (i + 3) - 1; x.pos = ps; x.yaw = (float)yaw; R.pose(ps, yaw); R.grid(seq, 5, 1, mm, g); shim::clock_ns += 100000000; R.cycle(); x.cycle(); c.transitions++;
      if (x.amb) break;
      if (!same_cycle(R, x, 3, S, k++)) break;
      for (auto& o : R.got) vc::outcome(vc::mix(o.point_valid[0], vc::hashf(o.point_1.position.x + 5 * o.point_1.velocity.z + 9 * o.point_1.yaw)));
    }
    c.traces++; if (c.fails.size() > 8) return vc::done();
  }
  vc::sample("commanded position (nan 1.5 0) velocity (0 0 nan) -> horizontal velocity finite, height finite: valid");
  return vc::done();
}
