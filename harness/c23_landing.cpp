// C23: the landing controller over every event from every reachable abstract state (real node, replayed histories).
#include "slpwp.h"
struct Cy { int item = 0, mode = 0, pos = 0, grid = 0, seq = 1; };
static const WCfg CFG[] = {{5, 1, 1, 0.5, 0.4, 4, 0.5, 2}, {4, 0.5f, 0, 0, 0.4, 3, 1, 1}, {7, 1, 1, 0.9, 0.4, 4, 0.5, 2}, {6, 0.25f, 2, 0.5, 0.7, 8, 0.5, 3}, {3, 1, 2, 0.5, 0.4, 4, 0.5, 2}, {8, 1, 1, 0, 0.1, 2, 0.3, 1}};
static const Item ITEM[] = {{}, {V3(10, -4, 6), NANV, V3(10, -4, 0), 0.3f, NAN, 21}, {V3(-8, 7, 9), V3(0.5f, 0.2f, NAN), V3(-8, 7, 1), -2.f, 0.1f, 21}, {V3(20, 20, 7), NANV, V3(20, 20, 7), 1, NAN, 16}, {V3(3, 3, 3), NANV, V3(30, 1, 2), 1, NAN, 21, false, true}, {V3(4, 4, 4), NANV, V3(31, 1, 2), 1, NAN, 21, true, false}, {V3(11, -4, 6), NANV, V3(10.005f, -4, 0), 0.6f, NAN, 16}};
static const char* IN[] = {"", "land item A", "land item B", "waypoint item", "land item without point 1", "land item without point 2", "item at A again"};
static const char* MN[] = {"", "AUTO.LOITER", "AUTO.MISSION disarmed", "AUTO.LAND", "AUTO.MISSION", "OFFBOARD", "AUTO.LAND disarmed"};
static const char* PN[] = {"stays", "at the goal at loiter height", "at the goal too high", "at the goal too low", "1 m from the goal at loiter height", "far away"};
static const char* GN[] = {"all landable", "nothing landable", "centre not landable", "one cell not landable", "only the centre landable", "even cells not landable", "only even cells landable"};
static std::string show(const WCfg& f, const std::vector<Cy>& h) { char b[300]; snprintf(b, sizeof b, "grid %d x %g area %d history %g/%g: ", f.rows, f.cell, f.slc, f.beta, f.thr); std::string s = b; for (auto& e : h) { snprintf(b, sizeof b, "[%s%s%s%s %s, %s, seq+%d] ", IN[e.item], e.item ? " " : "", MN[e.mode], e.mode ? " " : "", PN[e.pos], GN[e.grid], e.seq); s += b; } return s; }
static void mkgrid(const WCfg& f, int g, std::vector<double>& m, std::vector<int>& l) {
  int r = f.rows, c = r / 2; m.assign(r * r, 0.5); l.assign(r * r, 1);
  for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) {
    m[i * r + j] = 0.5 + (i == 0 ? 2 : 0) + (i == c && j == c ? -1 : 0);
    bool cen = std::abs(i - c) <= f.slc && std::abs(j - c) <= f.slc;
    if (g == 1) l[i * r + j] = 0; else if (g == 2 && i == c - f.slc && j == c) l[i * r + j] = 0; else if (g == 3 && i == c + f.slc && j == c) l[i * r + j] = 0; else if (g == 4) l[i * r + j] = cen; else if (g == 5) l[i * r + j] = !(i % 2 == 0 && j % 2 == 0); else if (g == 6) l[i * r + j] = i % 2 == 0 && j % 2 == 0;
  }
}
struct World { WRef x; WReal* r = nullptr; double yaw = 0.1; };
static bool step(World& w, const WCfg& f, const Cy& e, int seqno, bool* skip = nullptr) {
  WRef& x = w.x;
  if (e.item) { x.traj(ITEM[e.item]); if (w.r) w.r->traj(ITEM[e.item]); }
  if (e.mode) { static const char* M[] = {"", "AUTO.LOITER", "AUTO.MISSION", "AUTO.LAND", "AUTO.MISSION", "OFFBOARD", "AUTO.LAND"}; bool armed = e.mode != 2 && e.mode != 6; x.mode(M[e.mode], armed); if (w.r) w.r->mode(M[e.mode], armed); }
  std::vector<double> m; std::vector<int> l; mkgrid(f, e.grid, m, l);
  int s = x.seq + e.seq; x.grid(s, f.rows, m, l);
  V3 p = x.pos; double alt = x.height();
  if (e.pos || std::isnan(p.x())) {
    V3 g = x.goal; if (std::isnan(g.x())) g = V3(0, 0, 0);
    switch (e.pos) { case 2: p = V3(g.x(), g.y(), alt + f.height + 3); break; case 3: p = V3(g.x(), g.y(), alt + 0.4f); break; case 4: p = V3(g.x() + 1, g.y(), alt + f.height + f.err * 0.5); break; case 5: p = V3(g.x() + 4, g.y() - 3, alt + f.height - f.err * 0.5); break; default: p = V3(g.x(), g.y(), alt + f.height - f.err * 0.5); }
  }
  w.yaw = std::remainder(w.yaw + 0.7, 2 * M_PI); x.pos = p; x.yaw = (float)w.yaw;
  if (w.r) { w.r->pose(p, w.yaw); w.r->grid(s, f.rows, f.cell, m, l); shim::clock_ns += 100000000; w.r->cycle(); }
  x.cycle();
  return true;
}
static uint64_t key(const WRef& x, const WCfg& f) {
  auto H = [&](std::initializer_list<int> v) { uint64_t h = 1; for (int i : v) h = vc::mix(h, i + 7); return h; };
  int cls = 0, rcl = 0; for (double h : x.hyst) { if (h > f.thr) cls |= 1; else cls |= 2; } for (int r : x.result) rcl |= r ? 1 : 2;
  double d = std::hypot(x.goal.x() - x.pos.x(), x.goal.y() - x.pos.y()); int dc = std::isnan(d) ? 3 : d < 0.5 ? 0 : d < 2 ? 1 : 2;
  double e = std::fabs(x.pos.z() - x.alt) - f.height; int ec = std::fabs(e) < f.err ? 0 : e > 0 ? 1 : 2;
  int it = std::fabs(x.vis.x() - 10) < 0.1 ? 1 : std::fabs(x.vis.x() + 8) < 0.1 ? 2 : (int)x.vis.x();
  return H({(int)x.st, x.land_task, x.decided, x.can, x.exploring, std::min(x.n, 2), x.factor, x.reset, x.entered, (int)(x.radius * 2), cls, x.st == SLPState::LOITER || x.st == SLPState::EVALUATE_GRID ? rcl : 0, dc, ec, it, std::min(x.evals_in_loiter, 2), std::isnan(x.vel.z()), std::isnan(x.goal.z()), x.confirmed, x.following, x.resume});
}
static void replay(const WCfg& f, const std::vector<Cy>& h, size_t from, WReal& r) {
  auto& c = vc::ctx(); World w; w.x.f = f; w.r = &r; r.start(f);
  std::string S;
  for (size_t i = 0; i < h.size(); i++) {
    SLPState before = r.state();
    step(w, f, h[i], i); c.transitions++;
    if (w.x.amb) { c.info["border_cases"]++; return; }
    if (i < from) continue;
    if (S.empty()) { S = show(f, h); vc::cur("%s", S.c_str()); }
    if (!same_cycle(r, w.x, 1, S.c_str(), i)) return;
    // commitment: going down without a position target needs a confirmed site under the vehicle
    if (r.state() == SLPState::LAND && before != SLPState::LAND) CK(w.x.confirmed && std::hypot(w.x.site.x() - w.x.pos.x(), w.x.site.y() - w.x.pos.y()) < 0.5 + 1e-4, "unconfirmed-landing", "%s: cycle %zu starts landing without a confirmed site", S.c_str(), i);
    vc::outcome(vc::mix((uint64_t)w.x.st * 64 + (uint64_t)before, vc::mix(w.x.out.size(), w.x.out.empty() ? 0 : vc::hashf(w.x.out[0].p.x() + 10 * w.x.out[0].v.z()))));
  }
  c.traces++;
}
int main(int argc, char** argv) {
  vc::init(argc, argv); auto& c = vc::ctx(); WReal r;
  std::vector<Cy> A, B;
  for (int p = 0; p < 6; p++) for (int g = 0; g < 5; g++) for (int s : {1, 21}) A.push_back({0, 0, p, g, s});
  for (int p : {0, 1, 4}) { for (int i = 1; i < 7; i++) A.push_back({i, 0, p, 0, 1}); for (int m = 1; m < 7; m++) A.push_back({0, m, p, 0, 1}); A.push_back({2, 4, p, 0, 1}); A.push_back({1, 1, p, 0, 1}); A.push_back({0, 0, p, 0, 20}); A.push_back({0, 0, p, 1, -30}); }
  for (int p : {0, 1}) for (int g : {0, 1, 2}) for (int s : {1, 21}) B.push_back({0, 0, p, g, s});
  for (int i : {1, 2, 3}) B.push_back({i, 0, 1, 0, 1}); for (int m : {1, 4}) B.push_back({0, m, 1, 0, 1}); B.push_back({0, 0, 4, 0, 1}); B.push_back({0, 0, 5, 1, 21});
  uint64_t item = 0;
  for (auto& f : CFG) {
    std::map<uint64_t, std::vector<Cy>> seen; std::vector<std::vector<Cy>> q; q.push_back({}); size_t head = 0;
    auto expand = [&](const std::vector<Cy>& h) {
      World w; w.x.f = f; for (size_t i = 0; i < h.size(); i++) step(w, f, h[i], i);
      for (auto& e : A) {
        if (h.empty() && e.pos == 0) continue;
        World v = w; step(v, f, e, h.size()); if (v.x.amb || v.x.rejections > (c.thorough ? 3 : 2)) continue;
        uint64_t k = key(v.x, f); if (seen.count(k)) continue;
        auto n = h; n.push_back(e); seen[k] = n; q.push_back(n);
      }
    };
    size_t cap = 60000;
    while (head < q.size() && q.size() < cap) { auto h = q[head++]; expand(h); }
    if (head < q.size()) c.info["unexpanded_states"] += q.size() - head;
    if (c.shard == 0) { c.states += q.size(); c.info["max_depth"] = std::max<uint64_t>(c.info["max_depth"], q.back().size()); }
    for (auto& h : q) {
      if (!vc::mine(item++)) continue;
      for (auto& e : A) { auto n = h; n.push_back(e); if (c.thorough) { for (auto& b : B) { auto o = n; o.push_back(b); replay(f, o, h.size(), r); } } else { n.push_back(B[(item + (&e - &A[0])) % B.size()]); replay(f, n, h.size(), r); } if (c.fails.size() > 6) return vc::done(); }
    }
  }
  // every sequence of whole site evaluations: map on the way, map and number of updates while loitering, task changes in between
  struct Site { int way, grid, n, change; }; std::vector<Site> M;
  for (int g = 0; g < 7; g++) for (int n : {0, 1, 2}) M.push_back({g == 1 ? 0 : 1, g, n, 0});
  for (int g : {1, 5}) { M.push_back({6, g, 5, 0}); M.push_back({0, g, 1, 0}); } M.push_back({1, 5, 1, 1}); M.push_back({1, 6, 1, 2}); M.push_back({1, 1, 1, 3}); M.push_back({0, 0, 1, 3});
  int D = c.thorough ? 4 : 3; long tot = 1; for (int i = 0; i < D; i++) tot *= M.size();
  for (auto& f : CFG) for (long p = 0; p < tot; p++) {
    if (!vc::mine(item++)) continue;
    // the cycles are chosen on the reference, then replayed on the node
    std::vector<Cy> h; World w; w.x.f = f; auto add = [&](Cy e) { h.push_back(e); step(w, f, e, 0); };
    add({1, 4, 5, 1, 1}); long q = p;
    for (int i = 0; i < D; i++) {
      const Site& t = M[q % M.size()]; q /= M.size();
      if (t.change == 1) add({2, 0, 5, t.way, 1}); else if (t.change == 2) { add({0, 1, 0, t.way, 1}); add({1, 4, 5, t.way, 1}); } else if (t.change == 3) { add({0, 0, 0, t.grid, 1}); add({2, 0, 0, 0, 1}); }
      for (int k = 0; k < 6 && w.x.st != SLPState::LOITER && w.x.st != SLPState::LAND; k++) add({0, 0, 1, t.way, 1});
      if (t.change == 3) { add({0, 0, 0, t.grid, 1}); add({3, 0, 0, 0, 1}); add({1, 0, 5, t.way, 1}); for (int k = 0; k < 6 && w.x.st != SLPState::LOITER && w.x.st != SLPState::LAND; k++) add({0, 0, 1, t.way, 1}); }
      for (int k = 0; k < t.n; k++) add({0, 0, 0, t.grid, 1});
      add({0, 0, 0, 1, 21}); add({0, 0, 0, t.grid, 1}); add({0, 0, 0, t.grid, 1});
      if (w.x.amb) break;
    }
    replay(f, h, 0, r); if (c.fails.size() > 6) return vc::done();
  }
  c.info["site_sequences"] = tot * (sizeof(CFG) / sizeof(CFG[0]));
  vc::sample("%s", show(CFG[0], {{1, 0, 1, 0, 1}, {0, 0, 1, 0, 1}, {0, 0, 0, 0, 1}, {0, 0, 0, 0, 21}, {0, 0, 0, 0, 1}, {0, 0, 0, 0, 1}}).c_str());
  return vc::done();
}
