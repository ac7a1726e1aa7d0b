// C06: field-of-view membership and weights vs geometry, for every camera layout and direction of a lattice.
#include "vc.h"
#include <avoidance/common.h>
#include <avoidance/histogram.h>
using namespace avoidance;
static double wrap(double a) { return a - 360 * std::floor(a / 360 + 0.5); }
static const double T = 2e-3;
// 1 inside, 0 outside, -1 on the border
static int in1(double off, double half) { double m = half - std::fabs(off); if (std::fabs(m) < T) return -1; return m > 0 || half >= 180 ? 1 : 0; }
static int inYaw(const FOV& f, double z) { return f.h_fov_deg >= 360 ? 1 : in1(wrap(z - f.yaw_deg), f.h_fov_deg / 2.); }
static int inAll(const FOV& f, double z, double e) { int a = inYaw(f, z), b = in1(e - f.pitch_deg, f.v_fov_deg / 2.); if (a == 0 || b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }
static int any(const std::vector<FOV>& v, double z, double e, bool yaw) { int r = 0; for (auto& f : v) { int x = yaw ? inYaw(f, z) : inAll(f, z, e); if (x == 1) return 1; if (x < 0) r = -1; } return r; }
static std::string show(const std::vector<FOV>& v) { std::string s; char b[96]; for (auto& f : v) { snprintf(b, sizeof b, "[yaw %g pitch %g h %g v %g] ", f.yaw_deg, f.pitch_deg, f.h_fov_deg, f.v_fov_deg); s += b; } return s; }
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
static std::vector<double> dirs(double step) { std::vector<double> r; for (double z = -180; z < 180; z += step) { r.push_back(z); r.push_back(z + step / 3); } r.push_back(179.99); r.push_back(-179.99); return r; }
static void layout(const std::vector<FOV>& v, const std::vector<double>& Z, const std::vector<double>& E) {
  auto& c = vc::ctx();
  std::string s = show(v);
  vc::cur("cameras %s", s.c_str());
  c.states++;
  for (double z : Z) {
    for (double e : E) {
      PolarPoint p(e, z, 5);
      int w = any(v, z, e, false);
      c.transitions++;
      if (w >= 0) CK(pointInsideFOV(v, p) == (w == 1), "inside", "cameras %s: direction z %g e %g is %s the field of view, reported %d", s.c_str(), z, e, w ? "inside" : "outside", (int)pointInsideFOV(v, p));
      if (v.size() == 1 && w >= 0) CK(pointInsideFOV(v[0], p) == (w == 1), "inside-one", "camera %s: direction z %g e %g is %s the field of view", s.c_str(), z, e, w ? "inside" : "outside");
    }
    PolarPoint p(E[E.size() / 2], z, 5);
    int w = any(v, z, 0, true);
    if (w < 0) continue;
    CK(pointInsideYawFOV(v, p) == (w == 1), "inside-yaw", "cameras %s: azimuth %g is %s the horizontal field of view", s.c_str(), z, w ? "inside" : "outside");
    if (v.size() == 1) CK(pointInsideYawFOV(v[0], p) == (w == 1), "inside-yaw-one", "camera %s: azimuth %g is %s", s.c_str(), z, w ? "inside" : "outside");
    // which single camera sees it
    int n = 0, who = -1; bool border = false;
    for (size_t i = 0; i < v.size(); i++) { int x = inYaw(v[i], z); if (x < 0) border = true; if (x == 1) { n++; who = i; } }
    if (border) continue;
    int idx = 77; bool got = isInWhichFOV(v, p, idx);
    CK(got == (n == 1) && idx == (n == 1 ? who : -1), "which", "cameras %s: azimuth %g seen by %d cameras, isInWhichFOV %d index %d", s.c_str(), z, n, (int)got, idx);
    // edge and weight
    double wantw = n ? 1 : 0; int edge = 0;
    if (n == 1) {
      double off = wrap(z - v[who].yaw_deg);
      if (std::fabs(off) < T || std::fabs(std::fabs(off) - 180) < T) continue;  // both edges equally near
      double o = v[who].yaw_deg + (off > 0 ? 1 : -1) * (v[who].h_fov_deg / 2. + ALPHA_RES / 2.);
      int seen = any(v, wrap(o), 0, true);
      if (seen < 0) continue;
      if (!seen) { edge = 1; wantw = std::max(0.0, 1 - std::fabs(off) / (v[who].h_fov_deg / 2.)); }
    }
    idx = 77; got = isOnEdgeOfFOV(v, p, idx);
    CK(got == (edge == 1) && idx == (edge ? who : -1), "edge", "cameras %s: azimuth %g: outer edge %d expected %d (camera %d)", s.c_str(), z, (int)got, edge, idx);
    float sc = scaleToFOV(v, p);
    CK(std::fabs(sc - wantw) < 1e-3, "weight", "cameras %s: azimuth %g: weight %g, expected %g", s.c_str(), z, sc, wantw);
    vc::outcome(vc::mix(n * 2 + edge, (int)(wantw * 50)));
  }
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  std::vector<double> Z = dirs(3), Z2 = dirs(4), E;
  for (double e = -90; e <= 90; e += 9) E.push_back(e + 0.25);
  const float H[] = {10, 60, 90, 150, 180, 270, 360};
  for (float y0 = -180; y0 < 180; y0 += 15) for (float dy : {0.f, 7.3f}) { if (!vc::mine(item++)) continue;
    for (float h : H) for (float p : {-20.f, 0.f, 15.f}) for (float vv : {20.f, 60.f, 180.f}) layout({FOV(y0 + dy, p, h, vv)}, Z, E); }
  std::vector<double> E2 = {-30, 0.5, 30};
  for (float y1 = -180; y1 < 180; y1 += 30) for (float y2 = -180; y2 < 180; y2 += 15) { if (!vc::mine(item++)) continue;
    for (float h1 : {40.f, 60.f, 90.f, 180.f}) for (float h2 : {40.f, 58.f, 90.f, 200.f}) layout({FOV(y1, 0, h1, 40), FOV(y2 + 1.5f, 10, h2, 50)}, Z2, E2); }
  for (float y1 = -180; y1 < 180; y1 += 45) for (float y2 = -180; y2 < 180; y2 += 30) for (float y3 = -180; y3 < 180; y3 += c.thorough ? 10 : 30) { if (!vc::mine(item++)) continue;
    layout({FOV(y1, 0, 60, 40), FOV(y2, 0, 86, 50), FOV(y3, 0, 120, 45)}, Z2, E2); }
  layout({}, Z, E);
  // histogram columns: seen when one of the two column borders is inside the (horizontal) field of view
  for (float y1 = -180; y1 < 180; y1 += 20) { if (!vc::mine(item++)) continue;
    for (float h : {20.f, 59.f, 90.f, 180.f, 300.f, 360.f}) for (float pitch : {0.f, -10.f}) for (float veh = -180; veh <= 180; veh += 12.5f) for (int two = 0; two < 2; two++) for (int k = 0; k < 2; k++) {
      std::vector<FOV> v{FOV(y1, pitch, h, 60)};
      if (two) v.push_back(FOV(wrap(y1 + 95), 0, 45, 50));
      Eigen::Vector3f pos = k ? Eigen::Vector3f(12, -7, 3) : Eigen::Vector3f(0, 0, 0);
      vc::cur("cameras %s vehicle yaw %g", show(v).c_str(), veh);
      for (int i = 0; i < GRID_LENGTH_Z; i++) {
        double az = 90 - (i * ALPHA_RES - 180 + ALPHA_RES / 2.) - veh;
        auto one = [&](const std::vector<FOV>& f) { int a = any(f, wrap(az + ALPHA_RES / 2.), 0, true), b = any(f, wrap(az - ALPHA_RES / 2.), 0, true); if (a == 1 || b == 1) return 1; return a < 0 || b < 0 ? -1 : 0; };
        bool nearb = false;  // tolerate borders within single precision of the column computation
        for (auto& f : v) for (int sgn : {-1, 1}) if (std::fabs(std::fabs(wrap(az + sgn * 3 - f.yaw_deg)) - f.h_fov_deg / 2.) < 0.02) nearb = true;
        int w = one(v);
        if (w >= 0 && !nearb) CK(histogramIndexYawInsideFOV(v, i, pos, veh) == (w == 1), "column", "cameras %s, vehicle yaw %g: histogram column %d is %s view", show(v).c_str(), veh, i, w ? "in" : "not in");
        if (!two && w >= 0 && !nearb) CK(histogramIndexYawInsideFOV(v[0], i, pos, veh) == (w == 1), "column-one", "camera %s, vehicle yaw %g: histogram column %d is %s view", show(v).c_str(), veh, i, w ? "in" : "not in");
        c.transitions++;
      }
      c.states++;
    } }
  c.traces = c.evals;
  vc::sample("cameras %s x %zu azimuths", show({FOV(165, 0, 60, 40), FOV(-120, 0, 86, 50)}).c_str(), Z.size());
  return vc::done();
}
