// C12: direction costs, cost map and candidate list.
#include "vc.h"
#include <local_planner/planner_functions.h>
using namespace avoidance;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
typedef Eigen::Vector3f V3;
static double wrap(double a) { return a - 360 * std::floor(a / 360 + 0.5); }
static V3 dirv(double az, double el, double r) { return V3(r * cos(el * M_PI / 180) * sin(az * M_PI / 180), r * cos(el * M_PI / 180) * cos(az * M_PI / 180), r * sin(el * M_PI / 180)); }
static costParameters cp(float y, float p, float v, float o) { costParameters c; c.yaw_cost_param = y; c.pitch_cost_param = p; c.velocity_cost_param = v; c.obstacle_cost_param = o; return c; }
static double total(std::pair<float, float> x) { return (double)x.first + x.second; }
static const V3 POS[] = {V3(0, 0, 0), V3(12.5f, -7, 4)};
// ---- preferences ----
static void prefs(uint64_t& item) {
  auto& c = vc::ctx();
  const costParameters P[] = {cp(3, 25, 6000, 8.5f), cp(0.5f, 3, 1.5f, 5), cp(20, 1, 0, 2), cp(1, 30, 50000, 30)};
  std::vector<double> AZ, EL; for (double a = -177; a < 180; a += 12) AZ.push_back(a); for (double e = -87; e < 90; e += 12) EL.push_back(e);
  for (double gaz : AZ) { if (!vc::mine(item++)) continue;
    for (double gel : {-40., 0., 25.}) for (double gd : {0.005, 0.3, 3., 6., 40.}) for (auto& p : P) for (auto& pos : POS) {
      V3 goal = pos + dirv(gaz, gel, gd);
      char S[200]; snprintf(S, sizeof S, "goal azimuth %g elevation %g at %g m, weights yaw %g pitch %g velocity %g obstacle %g", gaz, gel, gd, p.yaw_cost_param, p.pitch_cost_param, p.velocity_cost_param, p.obstacle_cost_param);
      vc::cur("%s", S);
      c.states++;
      double eg = std::atan2(goal.z() - pos.z(), (goal - pos).head<2>().norm()) * 180 / M_PI, ag = std::atan2(goal.x() - pos.x(), goal.y() - pos.y()) * 180 / M_PI;
      for (int facing = 0; facing < 2; facing++) for (int line = 0; line < 2; line++) {
        V3 cl = line ? V3(pos + dirv(ag + 70, 0, 9)) : goal;
        auto f = [&](double az, double el, double d, const V3& v) { return costFunction(PolarPoint(el, az, 1), d, goal, pos, v, p, cl, facing); };
        // deviation from the goal azimuth, both sides; the line only matters while nothing blocks the way
        if (!line || facing) for (double el : {-20., 10., 60.}) { double prev = -1, prevr = -1;
          for (double d = 0; d <= 180; d += 6) { double a = total(f(wrap(ag + d), el, 0, V3(0, 0, 0))), b = total(f(wrap(ag - d), el, 0, V3(0, 0, 0))); c.transitions += 2;
            CK(std::isfinite(a) && a >= 0 && std::isfinite(b) && b >= 0, "finite", "%s: cost %g / %g", S, a, b);
            double tol = 1e-4 * std::max(1.0, a);
            CK(a > prev + 1e-3 * (d > 0) - tol && b > prevr + 1e-3 * (d > 0) - tol, "yaw", "%s: direction %g degrees off the goal azimuth costs %g / %g, not more than one closer (%g / %g)", S, d, a, b, prev, prevr);
            if (d > 0 && p.pitch_cost_param / (gd < 5 ? (0.04 * std::max(gd, 0.01) * std::max(gd, 0.01)) : 1) < 1e3) CK(a > prev && b > prevr, "yaw-strict", "%s: direction %g degrees off the goal azimuth costs %g / %g, as much as one closer", S, d, a, b);
            prev = a; prevr = b; } }
        if (line && !facing) for (double d = 6; d < 170; d += 6) { double near = f(wrap(ag + d), 0, 0, V3(0, 0, 0)).second, far = f(wrap(ag - d), 0, 0, V3(0, 0, 0)).second; CK(near <= far + 1e-4 * far, "line", "%s: with the line between the goals to the right, %g degrees to its side costs %g, away from it %g", S, d, near, far); }
        // deviation from the goal elevation
        for (double az : {ag, wrap(ag + 50)}) for (int s : {-1, 1}) { double prev = -1; for (double d = 0; d <= 80; d += 5) { double e = eg + s * d; if (e > 90 || e < -90) break; double a = total(f(az, e, 0, V3(0, 0, 0))); CK(a >= prev - 1e-4 * std::max(1.0, a) && (d == 0 || a > prev), "pitch", "%s: %g degrees off the goal elevation costs %g, not more than one closer (%g)", S, s * d, a, prev); prev = a; } }
        // deviation from the present motion
        if (p.velocity_cost_param > 0) for (double vaz : {0., 95., -170.}) for (double sp : {0.5, 4.}) { V3 v = dirv(vaz, 0, sp); double prev = -1;
          for (double d = 0; d <= 180; d += 6) { double a = f(wrap(vaz + d), 10, 0, v).second - f(wrap(vaz + d), 10, 0, V3(0, 0, 0)).second, b = f(wrap(vaz - d), 10, 0, v).second - f(wrap(vaz - d), 10, 0, V3(0, 0, 0)).second; double tol = 1e-5 * total(f(wrap(vaz + d), 10, 0, v)) + 1e-5 * total(f(wrap(vaz - d), 10, 0, v)) + 1e-4;
            CK(a >= prev - tol && std::fabs(a - b) <= 3 * tol && a >= -tol, "velocity", "%s: moving to azimuth %g at %g m/s, a direction %g degrees off adds %g / %g, not more than one closer (%g)", S, vaz, sp, d, a, b, prev);
            if (d >= 90 && p.velocity_cost_param * sp > 100 * tol) CK(a > 0.3 * p.velocity_cost_param * sp * 0.01, "velocity-strict", "%s: turning %g degrees away from the motion adds only %g", S, d, a);
            prev = a; } }
        // obstacles
        for (double az : {ag, wrap(ag + 33)}) { double none = total(f(az, 3, 0, V3(1, 0, 0))), prev = 1e30;
          for (double d = 0.2; d < 40; d *= 1.3) { auto x = f(az, 3, d, V3(1, 0, 0)); double a = total(x); CK(std::isfinite(a) && a >= none - 1e-4 * none && x.first > 0, "obstacle-cheaper", "%s: an obstacle at %g m makes a direction cost %g instead of %g", S, d, a, none); CK(x.first <= prev + 1e-3, "obstacle-distance", "%s: an obstacle at %g m costs %g, more than a nearer one (%g)", S, d, x.first, prev); prev = x.first; }
          CK(f(az, 3, 0.2, V3(1, 0, 0)).first > 2 * f(az, 3, 2 * p.obstacle_cost_param + 4, V3(1, 0, 0)).first, "obstacle-strict", "%s: an obstacle at 0.2 m is hardly costlier than a far one", S); }
      }
      vc::outcome(vc::mix((int)gaz, vc::hashf(total(costFunction(PolarPoint(3, 9, 1), 3, goal, pos, V3(1, 2, 0), p, goal, false)))));
    } }
}
// ---- cost map: every entry is the cost of its direction plus the conically smoothed obstacle cost; rows near the poles are sampled at one horizontal cell width and interpolated linearly ----
typedef std::vector<double> M;
static double& at(M& m, int e, int z) { return m[e * GRID_LENGTH_Z + z]; }
static double polar(M& m, int e, int z) { if (e < 0) { e = -1 - e; z += GRID_LENGTH_Z / 2; } if (e >= GRID_LENGTH_E) { e = 2 * GRID_LENGTH_E - 1 - e; z += GRID_LENGTH_Z / 2; } return at(m, e, ((z % GRID_LENGTH_Z) + GRID_LENGTH_Z) % GRID_LENGTH_Z); }
static M smooth(M& d, int r) {
  M o(d.size()), t(d.size());
  std::vector<double> w; for (int i = -r; i <= r; i++) w.push_back((1. + r - std::abs(i)) / (1. + r));
  std::vector<double> tmp(GRID_LENGTH_E * GRID_LENGTH_Z);
  for (int e = 0; e < GRID_LENGTH_E; e++) for (int z = 0; z < GRID_LENGTH_Z; z++) { double s = 0; for (int i = -r; i <= r; i++) s += polar(d, e + i, z) * w[i + r]; at(t, e, z) = s; }
  for (int e = 0; e < GRID_LENGTH_E; e++) for (int z = 0; z < GRID_LENGTH_Z; z++) { double s = 0; for (int i = -r; i <= r; i++) s += at(t, e, ((z + i) % GRID_LENGTH_Z + GRID_LENGTH_Z) % GRID_LENGTH_Z) * w[i + r]; at(o, e, z) = s; }
  return o;
}
static void cmap(const std::vector<std::array<double, 3>>& obs, const V3& goal, const V3& pos, const V3& vel, const V3& cl, const costParameters& p, float margin, float maxr, float minr) {
  auto& c = vc::ctx();
  std::string S; char b[300];
  for (auto& o : obs) { snprintf(b, sizeof b, "[cell %g,%g at %g m]", o[0], o[1], o[2]); S += b; }
  snprintf(b, sizeof b, " goal (%g %g %g) from (%g %g %g) velocity (%g %g %g) margin %g", goal.x(), goal.y(), goal.z(), pos.x(), pos.y(), pos.z(), vel.x(), vel.y(), vel.z(), margin); S += b;
  vc::cur("obstacles %s", S.c_str());
  Histogram h(ALPHA_RES); for (auto& o : obs) h.set_dist(o[0], o[1], o[2]);
  Eigen::MatrixXf m; std::vector<uint8_t> img;
  getCostMatrix(h, goal, pos, vel, p, margin, cl, maxr, minr, m, img);
  c.states++; c.transitions++; c.traces++;
  CK(m.rows() == GRID_LENGTH_E && m.cols() == GRID_LENGTH_Z, "map-size", "%s: cost map of %ld x %ld", S.c_str(), (long)m.rows(), (long)m.cols());
  if (m.rows() != GRID_LENGTH_E || m.cols() != GRID_LENGTH_Z) return;
  PolarPoint g = cartesianToPolarHistogram(goal, pos);
  bool facing = false;
  for (int j = -2; j <= 2; j++) for (int i = -5; i <= 5; i++) { auto ix = polarToHistogramIndex(PolarPoint(g.e + j * ALPHA_RES, g.z + i * ALPHA_RES, 0), ALPHA_RES); double d = h.get_dist(ix.y(), ix.x()); if (d > minr && d < maxr) facing = true; }
  M oc(GRID_LENGTH_E * GRID_LENGTH_Z), dc(GRID_LENGTH_E * GRID_LENGTH_Z);
  for (int e = 0; e < GRID_LENGTH_E; e++) {
    int st = (int)std::lround(1 / std::cos((e * ALPHA_RES + ALPHA_RES / 2 - 90) * M_PI / 180));
    for (int z = 0; z < GRID_LENGTH_Z; z++) { int a = z / st * st, n = a + st; if (n > GRID_LENGTH_Z) n = GRID_LENGTH_Z; double t = (double)(z - a) / (n - a); int bb = n % GRID_LENGTH_Z;
      auto ca = costFunction(PolarPoint(e * ALPHA_RES + ALPHA_RES / 2 - 90, a * ALPHA_RES + ALPHA_RES / 2 - 180, 1), h.get_dist(e, a), goal, pos, vel, p, cl, facing);
      if (z == a) { at(oc, e, z) = ca.second; at(dc, e, z) = ca.first; }
      else { auto cb = costFunction(PolarPoint(e * ALPHA_RES + ALPHA_RES / 2 - 90, bb * ALPHA_RES + ALPHA_RES / 2 - 180, 1), h.get_dist(e, bb), goal, pos, vel, p, cl, facing); at(oc, e, z) = ca.second + t * (cb.second - ca.second); at(dc, e, z) = ca.first + t * (cb.first - ca.first); } }
  }
  M sm = smooth(dc, (int)std::ceil(margin / ALPHA_RES));
  for (int e = 0; e < GRID_LENGTH_E; e++) for (int z = 0; z < GRID_LENGTH_Z; z++) {
    CK(std::isfinite(m(e, z)), "map-finite", "%s: cost of direction cell (%d,%d) is %g", S.c_str(), e, z, m(e, z));
    double w = at(oc, e, z) + at(sm, e, z);
    CK(std::fabs(m(e, z) - w) <= 1e-3 * std::fabs(w) + 0.05, "map-entry", "%s: cost of direction cell (%d,%d) is %g, its direction and surroundings cost %g", S.c_str(), e, z, m(e, z), w);
  }
  CK(img.size() == 3u * GRID_LENGTH_E * GRID_LENGTH_Z, "image", "%s: cost image of %zu bytes", S.c_str(), img.size());
  vc::outcome(vc::mix(vc::hashf(m.sum()), facing));
  // the candidate list from this map
  for (unsigned k : {1u, 8u, 30u}) {
    std::vector<candidateDirection> v; getBestCandidatesFromCostMatrix(m, k, v);
    std::vector<float> all(m.data(), m.data() + m.size()); std::sort(all.begin(), all.end());
    CK(v.size() == k, "candidates-number", "%s: %zu candidates instead of %u", S.c_str(), v.size(), k);
    for (size_t i = 0; i < v.size() && i < k; i++) { CK(v[i].cost == all[i], "candidates-cheapest", "%s: candidate %zu of %u costs %g, the map's is %g", S.c_str(), i, k, v[i].cost, all[i]);
      auto ix = polarToHistogramIndex(PolarPoint(v[i].elevation_angle, v[i].azimuth_angle, 1), ALPHA_RES); CK(m(ix.y(), ix.x()) == v[i].cost, "candidates-direction", "%s: candidate %zu (e %g z %g) carries the cost %g of another direction (%g)", S.c_str(), i, v[i].elevation_angle, v[i].azimuth_angle, v[i].cost, m(ix.y(), ix.x())); }
  }
}
// ---- candidate list on all small maps ----
static void small(int rows, int cols, int vals, uint64_t& item) {
  auto& c = vc::ctx();
  int n = rows * cols; uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= vals;
  for (uint64_t x = 0; x < tot; x++) { if (!vc::mine(item++)) continue;
    Eigen::MatrixXf m(rows, cols); uint64_t y = x; std::vector<float> all; for (int i = 0; i < n; i++) { m(i / cols, i % cols) = (y % vals) * 1.5f; all.push_back(m(i / cols, i % cols)); y /= vals; }
    std::sort(all.begin(), all.end());
    for (int k = 0; k <= n + 1; k++) {
      std::vector<candidateDirection> v; v.push_back(candidateDirection(-1, 0, 0));
      vc::cur("map %d x %d number %llu, %d candidates", rows, cols, (unsigned long long)x, k);
      getBestCandidatesFromCostMatrix(m, k, v);
      c.states++; c.transitions++;
      int want = std::min(k, n); bool ok = (int)v.size() == want; std::set<std::pair<int, int>> seen;
      for (size_t i = 0; i < v.size() && ok; i++) { int e = (int)std::lround((v[i].elevation_angle + 90 - ALPHA_RES / 2) / ALPHA_RES), z = (int)std::lround((v[i].azimuth_angle + 180 - ALPHA_RES / 2) / ALPHA_RES); ok = v[i].cost == all[i] && e >= 0 && e < rows && z >= 0 && z < cols && m(e, z) == v[i].cost && seen.insert({e, z}).second; }
      CK(ok, "candidates", "cost map %d x %d number %llu (base %d): the %d requested candidates are not its cheapest directions in ascending order (%zu returned)", rows, cols, (unsigned long long)x, vals, k, v.size());
      vc::outcome(vc::mix(x % 1000, k));
    }
    c.traces++;
  }
}
// ---- padding and smoothing: unit impulses over every small map size (both are linear) ----
static void pads(uint64_t& item) {
  auto& c = vc::ctx();
  for (int rows = 2; rows <= 6; rows++) for (int cols = 4; cols <= 12; cols += 2) { if (!vc::mine(item++)) continue;
    for (int r = 0; r <= rows && r <= cols / 2; r++) {
      auto src = [&](int e, int z) { int k = 0; if (e < 0) { e = -1 - e; k = cols / 2; } else if (e >= rows) { e = 2 * rows - 1 - e; k = cols / 2; } return std::make_pair(e, ((z + k) % cols + cols) % cols); };
      Eigen::MatrixXf m(rows, cols), pm; for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) m(i, j) = i * 100 + j + 1;
      vc::cur("padding %d x %d by %d", rows, cols, r);
      padPolarMatrix(m, r, pm);
      bool ok = pm.rows() == rows + 2 * r && pm.cols() == cols + 2 * r;
      CK(ok, "pad-size", "padding %d x %d by %d gives %ld x %ld", rows, cols, r, (long)pm.rows(), (long)pm.cols());
      if (ok) for (int i = 0; i < pm.rows(); i++) for (int j = 0; j < pm.cols(); j++) { auto s = src(i - r, j - r); CK(pm(i, j) == m(s.first, s.second), "pad", "padding %d x %d by %d: entry (%d,%d) is %g, the neighbouring direction holds %g", rows, cols, r, i - r, j - r, pm(i, j), m(s.first, s.second)); }
      for (int a = 0; a < rows; a++) for (int b = 0; b < cols; b++) {
        Eigen::MatrixXf d = Eigen::MatrixXf::Zero(rows, cols); d(a, b) = 12;
        vc::cur("smoothing %d x %d radius %d impulse at %d,%d", rows, cols, r, a, b);
        smoothPolarMatrix(d, r);
        c.states++; c.transitions++;
        for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { double w = 0; for (int x = -r; x <= r; x++) for (int y = -r; y <= r; y++) { auto s = src(i + x, j + y); if (s.first == a && s.second == b) w += 12. * (r + 1 - std::abs(x)) * (r + 1 - std::abs(y)) / ((r + 1.) * (r + 1)); }
          CK(std::fabs(d(i, j) - w) < 1e-3, "smooth", "smoothing %d x %d with radius %d: an obstacle cost at (%d,%d) reaches (%d,%d) as %g of 12, expected %g", rows, cols, r, a, b, i, j, d(i, j), w); }
      }
    } }
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  prefs(item);
  small(1, 1, 3, item); small(2, 2, 4, item); small(2, 3, 3, item); small(1, 6, 4, item); small(3, 3, 2, item); small(2, 4, 3, item); if (c.thorough) { small(3, 3, 3, item); small(3, 4, 2, item); }
  pads(item);
  const costParameters P[] = {cp(3, 25, 6000, 8.5f), cp(0.5f, 3, 1.5f, 5)};
  const V3 VEL[] = {V3(0, 0, 0), V3(2, -1, 0.3f)};
  std::vector<V3> G; for (double az = -175; az < 180; az += 45) for (double el : {-15., 0., 70.}) G.push_back(dirv(az, el, 20)); G.push_back(V3(0, 0, 0)); G.push_back(V3(0, 0, 3)); G.push_back(V3(1e-4f, 0, 0));
  for (size_t g = 0; g < G.size(); g++) for (int e = 0; e < GRID_LENGTH_E; e += (g % 6 || c.thorough) && !c.thorough ? 3 : 1) { if (!vc::mine(item++)) continue;
    for (int z = (int)(g + e) % 4; z < GRID_LENGTH_Z; z += c.thorough ? 2 : 4) { int k = (int)(e + z + g); float mg[] = {0, 15, 30, 40, 90};
      V3 pos = POS[k % 2], goal = pos + G[g]; V3 cl = k % 3 ? V3(pos + V3(8, 3, 0)) : goal;
      cmap({{(double)e, (double)z, k % 5 ? 3.0 : 14.0}}, goal, pos, VEL[(k / 2) % 2], cl, P[(k / 4) % 2], mg[k % 5], 15, 0.2f); } }
  for (size_t g = 0; g < G.size(); g++) { if (!vc::mine(item++)) continue;
    for (int m = 0; m < 5; m++) cmap({}, POS[1] + G[g], POS[1], VEL[m % 2], POS[1] + V3(5, 5, 0), P[m % 2], 20.f * m, 15, 0.2f);
    for (int e1 : {0, 3, 14, 15, 25, 29}) for (int z1 : {0, 17, 30, 59}) for (int e2 : {0, 13, 16, 29}) for (int z2 : {1, 29, 31, 58}) { int k = e1 + z1 + e2 + z2; cmap({{(double)e1, (double)z1, 2.5}, {(double)e2, (double)z2, 1.0 + k % 9}}, POS[k % 2] + G[g], POS[k % 2], VEL[k % 2], POS[k % 2] + V3(5, -5, 0), P[(k / 2) % 2], (k % 4) * 20.f, 15, 0.2f); } }
  vc::sample("one obstacle at cell 14,31 at 3 m, goal 20 m at azimuth 50, smoothing margin 40");
  return vc::done();
}
