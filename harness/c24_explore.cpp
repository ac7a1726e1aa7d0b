// C24: sites visited after rejections, the landing site chosen in the map and the descent reference height, for every map and area size in bounds.
#include "slpwp.h"
static WReal R;
static int seqno;
struct Sim { WRef x; const char* s = ""; int cyc = 0; bool ok = true; };
static void cyc(Sim& w, const V3& p, double yaw, const std::vector<double>& m, const std::vector<int>& l, int rows, int inc) {
  auto& c = vc::ctx(); seqno += inc; w.x.grid(seqno, rows, m, l); w.x.pos = p; w.x.yaw = (float)yaw;
  R.pose(p, yaw); R.grid(seqno, rows, w.x.f.cell, m, l); shim::clock_ns += 100000000; R.cycle(); w.x.cycle(); c.transitions++;
  if (!w.x.amb) w.ok = same_cycle(R, w.x, 1, w.s, w.cyc++) && w.ok;
}
static Item land_item(const V3& p) { Item i; i.p1 = p; i.v1 = NANV; i.p2 = p; i.yaw = 0; i.yawrate = NAN; i.cmd = 21; return i; }
// rejections in a row: every next site on the outward square spiral around the first one, height kept
static void spiral(const WCfg& f, const V3& first, double err, int rejections, int newtask) {
  auto& c = vc::ctx(); char S[300]; snprintf(S, sizeof S, "grid %d x %g area %d spiral %g start (%g %g %g) error %g%s", f.rows, f.cell, f.slc, f.spiral, first.x(), first.y(), first.z(), err, newtask ? " new task in between" : ""); vc::cur("%s", S);
  R.start(f); seqno = 0; Sim w; w.x.f = f; w.s = S;
  std::vector<double> m(f.rows * f.rows, 1.); std::vector<int> bad(f.rows * f.rows, 0);
  V3 start = first; Item it = land_item(start); R.traj(it); w.x.traj(it); double z = 1 + f.height;
  std::vector<V3> sites; V3 anchor; bool have = false; int k = 0; V3 g = start; V3 at(start.x() + err, start.y(), z);
  for (int rej = 0; rej <= rejections && w.ok; rej++) {
    if (newtask && rej == newtask) { start = V3(first.x() + 40, first.y() - 7, first.z()); it = land_item(start); R.traj(it); w.x.traj(it); have = false; sites.clear(); k = 0; g = start; cyc(w, at, 0.2, m, bad, f.rows, 1); }
    at = V3(g.x() + err * ((rej % 2) ? -1 : 1), g.y() + err * 0.5, z + 0.1f * (rej % 3));
    cyc(w, V3(at.x() - 7, at.y() + 3, at.z()), 0.1, m, bad, f.rows, 1);
    cyc(w, at, 0.1 * rej, m, bad, f.rows, 1);  // reached
    cyc(w, at, 0.1 * rej, m, bad, f.rows, 1);  // height change done
    cyc(w, at, 0.1 * rej, m, bad, f.rows, 1);  // loiter
    if (!have) anchor = at;                    // where the first site was evaluated
    cyc(w, at, 0.1 * rej, m, bad, f.rows, 21);
    cyc(w, at, 0.1 * rej, m, bad, f.rows, 1);  // rejected
    cyc(w, at, 0.1 * rej, m, bad, f.rows, 1);  // next site set
    have = true;
    cyc(w, at, 0.1 * rej, m, bad, f.rows, 1);
    if (R.got.empty()) { CK(false, "no-next-site", "%s: rejection %d publishes nothing", S, rej); return; }
    auto& q = R.got.back().point_1; g = V3(q.position.x, q.position.y, q.position.z);
    // independent of the reference: the k-th site of the square spiral
    int ring = k / 8 + 1, dir = k % 8; k++;
    double d = f.spiral * ring * std::max(2 * f.slc, 1) * f.cell; V3 want(anchor.x() + d * PX[dir], anchor.y() + d * PY[dir], anchor.z());
    CK((g - want).norm() < 1e-2 * std::max(1.0, d), "next-site", "%s: rejection %d goes to %s, expected %s", S, rej, PV(g).c_str(), PV(want).c_str());
    for (auto& o : sites) CK((o - g).topRows<2>().norm() > 0.5 * f.spiral * std::max(2 * f.slc, 1) * f.cell, "revisits", "%s: rejection %d returns to %s", S, rej, PV(o).c_str());
    sites.push_back(g); vc::outcome(vc::mix(vc::hashf(g.x()), vc::hashf(g.y())));
  }
  c.traces++;
}
// one evaluation of a map; returns where the vehicle is told to land (NaN: rejected)
static void evaluate(const WCfg& f, const std::vector<int>& land, const char* what) {
  auto& c = vc::ctx(); char S[300]; snprintf(S, sizeof S, "grid %d x %g area %d: %s", f.rows, f.cell, f.slc, what); vc::cur("%s", S);
  R.start(f); seqno = 0; Sim w; w.x.f = f; w.s = S; std::vector<double> m(f.rows * f.rows, 1.);
  V3 at(3, -2, 1 + f.height); Item it = land_item(V3(3, -2, 9)); R.traj(it); w.x.traj(it);
  for (int i = 0; i < 4; i++) cyc(w, at, 0, m, land, f.rows, 1);
  cyc(w, at, 0, m, land, f.rows, 21); cyc(w, at, 0, m, land, f.rows, 1);
  // independent of the reference: the chosen site is a landing area with only landable cells inside the map
  int cc = f.rows / 2; auto good = [&](int a, int b) { for (int i = -f.slc; i <= f.slc; i++) for (int j = -f.slc; j <= f.slc; j++) { if (std::hypot(i, j) >= f.slc + 0.5) continue; int u = a + i, v = b + j; if (u < 0 || v < 0 || u >= f.rows || v >= f.rows || !land[u * f.rows + v]) return false; } return true; };
  SLPState after = R.state();
  if (after == SLPState::GOTO_LAND) {
    cyc(w, at, 0, m, land, f.rows, 1); if (R.got.empty()) return;
    auto& q = R.got.back().point_1.position; double di = (q.x - at.x()) / f.cell, dj = (q.y - at.y()) / f.cell; int a = cc + (int)std::lround(di), b = cc + (int)std::lround(dj);
    CK(std::fabs(di - std::lround(di)) < 1e-2 && std::fabs(dj - std::lround(dj)) < 1e-2 && good(a, b), "bad-site", "%s: lands %g %g cells away where not all cells are landable", S, di, dj);
    vc::outcome(a * 100 + b);
  } else { CK(!good(cc, cc), "good-site-rejected", "%s: rejected although the centre is landable", S); vc::outcome(7); }
  c.states++;
}
static void height(const WCfg& f, const std::vector<double>& m, double dz, const char* what) {
  auto& c = vc::ctx(); char S[300]; snprintf(S, sizeof S, "grid %d x %g area %d heights %s, %g m above", f.rows, f.cell, f.slc, what, dz); vc::cur("%s", S);
  R.start(f); seqno = 0; Sim w; w.x.f = f; w.s = S; std::vector<int> l(f.rows * f.rows, 1); w.x.grid(0, f.rows, m, l);
  Item it = land_item(V3(0, 0, 9)); R.traj(it); w.x.traj(it);
  double h = w.x.height(); double lo = 1e9, hi = -1e9; int cc = f.rows / 2; for (int i = std::max(0, cc - f.slc); i <= std::min(f.rows - 1, cc + f.slc); i++) for (int j = std::max(0, cc - f.slc); j <= std::min(f.rows - 1, cc + f.slc); j++) { lo = std::min(lo, m[i * f.rows + j]); hi = std::max(hi, m[i * f.rows + j]); }
  V3 at(0, 0, h + f.height + dz);
  cyc(w, at, 0, m, l, f.rows, 1); cyc(w, at, 0, m, l, f.rows, 1);
  // from the vehicle's reaction: above the area by more than the loiter height over its highest cell it must descend, below the lowest it must climb
  if (R.got.size() == 1 && R.got[0].point_1.position.z != R.got[0].point_1.position.z) {
    double v = R.got[0].point_1.velocity.z;
    if (at.z() > hi + f.height + 0.01) CK(v < 0, "climbs", "%s: too high and climbing", S);
    if (at.z() < lo + f.height - 0.01 && at.z() > hi) CK(v > 0, "descends", "%s: too low and descending", S);
  }
  c.states++; vc::outcome(vc::hashf(h));
}
#ifdef __SANITIZE_ADDRESS__
static const bool SAN = true;
#else
static const bool SAN = false;
#endif
int main(int argc, char** argv) {
  vc::init(argc, argv); auto& c = vc::ctx(); uint64_t item = 0;
  for (int slc : {0, 1, 2, 4, 6}) for (float cell : {0.25f, 1.f, 0.7f}) for (double sp : {1., 2., 3.5}) for (int rows : {1, 4, 9, 13}) for (double err : {0., 0.2}) for (int nt : {0, 1, 3, 9}) if (!SAN || nt < 2) for (auto& p : {V3(0, 0, 5), V3(-30, 12, 2)}) {
    if (!vc::mine(item++)) continue; WCfg f; f.slc = slc; f.cell = cell; f.spiral = sp; f.rows = rows; spiral(f, p, err, c.thorough ? 30 : 18, nt); if (c.fails.size() > 8) return vc::done(); }
  c.info["spiral_cases"] = item;
  // landing site choice: every single landable area and pairs of areas, every pattern on small maps
  for (int rows = 1; rows <= 9; rows++) for (int slc = 0; slc <= 4; slc++) {
    WCfg f; f.rows = rows; f.slc = slc; f.beta = 0; f.cell = 0.5f; auto disc = [&](std::vector<int>& l, int a, int b) { for (int i = -slc; i <= slc; i++) for (int j = -slc; j <= slc; j++) if (std::hypot(i, j) < slc + 0.5) { int u = a + i, v = b + j; if (u >= 0 && v >= 0 && u < rows && v < rows) l[u * rows + v] = 1; } };
    for (int a = 0; a < rows * rows; a++) { std::vector<int> base(rows * rows, 0); disc(base, a / rows, a % rows);
      if (!vc::mine(item++)) continue;
      evaluate(f, base, ("one area at " + std::to_string(a / rows) + " " + std::to_string(a % rows)).c_str());
      { std::vector<int> l(rows * rows, 1); l[a] = 0; evaluate(f, l, ("all but " + std::to_string(a / rows) + " " + std::to_string(a % rows)).c_str()); }
      for (int b = 0; b < rows * rows; b++) {
        std::vector<int> l = base; if (l[b]) { l[b] = 0; evaluate(f, l, ("one area at " + std::to_string(a / rows) + " " + std::to_string(a % rows) + " without cell " + std::to_string(b / rows) + " " + std::to_string(b % rows)).c_str()); }
        if (b > a && !SAN) { l = base; disc(l, b / rows, b % rows); evaluate(f, l, ("areas at " + std::to_string(a / rows) + " " + std::to_string(a % rows) + " and " + std::to_string(b / rows) + " " + std::to_string(b % rows)).c_str()); }
      }
    }
    if (c.fails.size() > 8) return vc::done();
  }
  for (int rows : {3, 4}) for (int slc : {0, 1}) for (unsigned p = 0; p < (1u << (rows * rows)); p++) {
    if (SAN && rows == 4) break;
    if (!vc::mine(item++)) continue; WCfg f; f.rows = rows; f.slc = slc; f.beta = 0; std::vector<int> l(rows * rows); for (int i = 0; i < rows * rows; i++) l[i] = p >> i & 1; evaluate(f, l, ("pattern " + std::to_string(p)).c_str()); if (c.fails.size() > 8) return vc::done(); }
  // descent reference: every height assignment on small maps, rank tests on larger ones
  for (int rows = 1; rows <= 3; rows++) for (int slc = 0; slc <= 3; slc++) { int n = rows * rows; long tot = 1; for (int i = 0; i < n; i++) tot *= 3;
    for (long p = 0; p < tot; p++) { if (!vc::mine(item++) || (SAN && p % 9)) continue; WCfg f; f.rows = rows; f.slc = slc; f.err = 0.2; std::vector<double> m(n); long q = p; for (int i = 0; i < n; i++) { m[i] = (q % 3) * 0.9 - 0.5; q /= 3; } for (double dz : {0., 0.3, -0.3}) height(f, m, dz, ("assignment " + std::to_string(p)).c_str()); if (c.fails.size() > 8) return vc::done(); } }
  for (int rows = 1; rows <= 16; rows++) for (int slc = 0; slc <= 9; slc++) for (int k = 0; k < rows * rows + 1; k++) {  // all cells but the k lowest are one metre higher, scattered
    if (!vc::mine(item++)) continue; WCfg f; f.rows = rows; f.slc = slc; f.err = 0.2; int n = rows * rows; std::vector<double> m(n);
    for (int order = 0; order < 3; order++) { for (int i = 0; i < n; i++) { int r = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7 + 3) % n; m[i] = r < k ? 0 : 1; } for (double dz : {0.1, -0.3}) height(f, m, dz, ("step at " + std::to_string(k) + " order " + std::to_string(order)).c_str()); }
    if (c.fails.size() > 8) return vc::done(); }
  vc::sample("grid 9 x 0.5 area 1: one area at 5 4 -> lands one cell away; 18 rejections in a row follow two rings and two sites of the third");
  return vc::done();
}
