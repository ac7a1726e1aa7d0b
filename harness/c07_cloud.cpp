// C07: removing invalid points and estimating the field of view, for every small cloud and cloud sequence.
#include "vc.h"
#include <avoidance/common.h>
using namespace avoidance;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
static const float N = NAN, I = INFINITY;
static const std::vector<std::array<float, 3>> A = {{1, 2, 3}, {-4, 5, -6}, {7, -8, 0.5f}, {0, 0, 0}, {-4, 2, 9}, {12000, -15000, 10500}, {-20000, 11000, -30000}, {N, 1, 1}, {50, I, -60}, {-70, 80, -I}, {90, N, 2}, {-I, 3, 3}, {100, -100, N}};
static std::string show(const std::vector<int>& w) { std::string s; char b[80]; for (int i : w) { snprintf(b, sizeof b, "(%g %g %g) ", A[i][0], A[i][1], A[i][2]); s += b; } return s; }
static void cloudcase(const std::vector<int>& w) {
  auto& c = vc::ctx();
  pcl::PointCloud<pcl::PointXYZ> cl;
  cl.header.frame_id = "cam";
  std::vector<std::array<float, 3>> fin;
  for (int i : w) { cl.push_back(pcl::PointXYZ(A[i][0], A[i][1], A[i][2])); if (std::isfinite(A[i][0]) && std::isfinite(A[i][1]) && std::isfinite(A[i][2])) fin.push_back(A[i]); }
  cl.is_dense = false;
  std::string s = show(w);
  vc::cur("cloud %s", s.c_str());
  auto mx = removeNaNAndGetMaxima(cl);
  c.states++; c.transitions += w.size();
  CK(cl.points.size() == fin.size() && cl.width == fin.size() && cl.height == 1, "kept-count", "cloud %s: %zu of %zu finite points kept (width %u height %u)", s.c_str(), cl.points.size(), fin.size(), cl.width, cl.height);
  for (size_t i = 0; i < fin.size() && i < cl.points.size(); i++) CK(cl.points[i].x == fin[i][0] && cl.points[i].y == fin[i][1] && cl.points[i].z == fin[i][2], "kept-order", "cloud %s: point %zu is (%g %g %g)", s.c_str(), i, cl.points[i].x, cl.points[i].y, cl.points[i].z);
  CK(mx.header.frame_id == "cam", "frame", "cloud %s: extreme points lost their frame (%s)", s.c_str(), mx.header.frame_id.c_str());
  CK(mx.points.empty() == fin.empty(), "maxima-empty", "cloud %s: %zu extreme points reported", s.c_str(), mx.points.size());
  for (auto& p : mx.points) { bool in = false; for (auto& f : fin) in |= p.x == f[0] && p.y == f[1] && p.z == f[2]; CK(in, "maxima-foreign", "cloud %s: extreme point (%g %g %g) is no point of the cloud", s.c_str(), p.x, p.y, p.z); }
  if (!fin.empty() && !mx.points.empty()) for (int k = 0; k < 3; k++) {
    float lo = I, hi = -I, l2 = I, h2 = -I;
    for (auto& f : fin) { lo = std::min(lo, f[k]); hi = std::max(hi, f[k]); }
    for (auto& p : mx.points) { float v = k == 0 ? p.x : k == 1 ? p.y : p.z; l2 = std::min(l2, v); h2 = std::max(h2, v); }
    CK(lo == l2 && hi == h2, "maxima", "cloud %s: axis %d extremes %g..%g, reported %g..%g", s.c_str(), k, lo, hi, l2, h2);
  }
  vc::outcome(vc::mix(fin.size() * 7 + w.size(), mx.points.empty() ? 0 : vc::hashf(mx.points[0].x + 3 * mx.points[0].y)));
}
static void clouds(std::vector<int>& w, int depth) { cloudcase(w); if (!depth) return; for (size_t i = 0; i < A.size(); i++) { w.push_back(i); clouds(w, depth - 1); w.pop_back(); } }

struct Dir { double az, el; };
static double wrap(double a) { return a - 360 * std::floor(a / 360 + 0.5); }
typedef std::vector<Dir> Cl;
static std::string show(const std::vector<const Cl*>& v) { std::string s; char b[64]; for (auto* cl : v) { s += "{"; for (auto& d : *cl) { snprintf(b, sizeof b, "(az %g el %g) ", d.az, d.el); s += b; } s += "} "; } return s; }
static pcl::PointCloud<pcl::PointXYZ> toCloud(const Cl& cl) {
  pcl::PointCloud<pcl::PointXYZ> r; double rad = 3;
  for (auto& d : cl) { double a = d.az * M_PI / 180, e = d.el * M_PI / 180; r.push_back(pcl::PointXYZ(rad * cos(e) * cos(a), rad * cos(e) * sin(a), rad * sin(e))); rad += 1.7; }
  return r;
}
// smallest arc: width and centre
static void arc(const Cl& cl, double& width, double& mid) {
  width = 1e9;
  for (auto& s : cl) { double w = 0; for (auto& d : cl) { double x = wrap(d.az - s.az); if (x < -1e-9) x += 360; w = std::max(w, x); } if (w < width) { width = w; mid = wrap(s.az + w / 2); } }
}
static void seq(const std::vector<const Cl*>& v, FOV f, const std::vector<pcl::PointCloud<pcl::PointXYZ>>& pc, size_t from) {
  auto& c = vc::ctx();
  for (size_t i = from; i < v.size(); i++) {
    FOV b = f;
    updateFOVFromMaxima(f, pc[i]);
    c.transitions++;
    CK(f.h_fov_deg >= b.h_fov_deg && f.v_fov_deg >= b.v_fov_deg, "shrunk", "clouds %s: field of view shrank from %g x %g to %g x %g", show(v).c_str(), b.h_fov_deg, b.v_fov_deg, f.h_fov_deg, f.v_fov_deg);
    CK(std::isfinite(f.yaw_deg) && std::isfinite(f.pitch_deg) && f.yaw_deg >= -180.001 && f.yaw_deg <= 180.001, "axis", "clouds %s: camera axis yaw %g pitch %g", show(v).c_str(), f.yaw_deg, f.pitch_deg);
    if (v[i]->empty()) { CK(f.h_fov_deg == b.h_fov_deg && f.v_fov_deg == b.v_fov_deg && f.yaw_deg == b.yaw_deg && f.pitch_deg == b.pitch_deg, "empty-changes", "clouds %s: a cloud without points changed the field of view", show(v).c_str()); continue; }
    double w, mid; arc(*v[i], w, mid);
    double lo = 1e9, hi = -1e9; for (auto& d : *v[i]) { lo = std::min(lo, -d.el); hi = std::max(hi, -d.el); }
    if (w < 179.5) {
      bool grow = w > b.h_fov_deg + 0.01, same = w < b.h_fov_deg - 0.01;
      if (grow) {
        CK(std::fabs(f.h_fov_deg - w) < 0.02, "h-opening", "clouds %s: horizontal opening %g, the last cloud spans %g", show(v).c_str(), f.h_fov_deg, w);
        for (auto& d : *v[i]) CK(std::fabs(wrap(d.az - f.yaw_deg)) <= f.h_fov_deg / 2 + 0.05, "h-span", "clouds %s: azimuth %g is outside the view it widened (centre %g opening %g)", show(v).c_str(), d.az, f.yaw_deg, f.h_fov_deg);
      } else if (same) CK(f.h_fov_deg == b.h_fov_deg && f.yaw_deg == b.yaw_deg, "h-kept", "clouds %s: a narrower cloud changed the horizontal view", show(v).c_str());
    }
    double vd = hi - lo;
    if (vd > b.v_fov_deg + 0.01) {
      CK(std::fabs(f.v_fov_deg - vd) < 0.02, "v-opening", "clouds %s: vertical opening %g, the last cloud spans %g", show(v).c_str(), f.v_fov_deg, vd);
      CK(lo >= f.pitch_deg - f.v_fov_deg / 2 - 0.05 && hi <= f.pitch_deg + f.v_fov_deg / 2 + 0.05, "v-span", "clouds %s: elevations %g..%g (down) outside pitch %g opening %g", show(v).c_str(), lo, hi, f.pitch_deg, f.v_fov_deg);
    } else if (vd < b.v_fov_deg - 0.01) CK(f.v_fov_deg == b.v_fov_deg && f.pitch_deg == b.pitch_deg, "v-kept", "clouds %s: a narrower cloud changed the vertical view", show(v).c_str());
    vc::outcome(vc::mix(vc::hashf(std::round(f.yaw_deg)), vc::hashf(std::round(f.h_fov_deg + 400 * f.v_fov_deg))));
  }
  c.states++; c.traces++;
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  if (vc::mine(item++)) { std::vector<int> w; clouds(w, 2); }
  for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < A.size(); j++) { if (!vc::mine(item++)) continue; std::vector<int> w{(int)i, (int)j}; clouds(w, c.thorough ? 4 : 3); }
  // field of view: every cloud of up to 4 directions, then every pair / triple of clouds from a reduced set
  std::vector<Cl> S, R;
  std::vector<double> az; for (double a = -177; a < 180; a += 14.5) az.push_back(a); az.push_back(-180); az.push_back(0); az.push_back(90);
  const double el[] = {-20, 10, 35, 4}, el2[] = {15, -50, -12, 0};
  for (size_t i = 0; i < az.size(); i++) { S.push_back({{az[i], el[0]}});
    for (size_t j = 0; j < az.size(); j++) { S.push_back({{az[i], el[0]}, {az[j], el[1]}}); S.push_back({{az[i], el2[0]}, {az[j], el2[1]}});
      for (size_t k = j; k < az.size(); k++) { S.push_back({{az[i], el[0]}, {az[j], el[1]}, {az[k], el[2]}}); if (k % 3 == 0) S.push_back({{az[i], el2[0]}, {az[j], el2[1]}, {az[k], el2[2]}, {az[(j + k) / 2], 0}}); } } }
  R.push_back({});
  for (size_t i = 0; i < az.size(); i += 2) for (double half : {0., 20., 45., 80.}) for (int e = 0; e < 2; e++) R.push_back({{wrap(az[i] - half), e ? -30. : 5.}, {wrap(az[i] + half / 3), 8}, {wrap(az[i] + half), e ? 25. : 5.}});
  std::vector<pcl::PointCloud<pcl::PointXYZ>> pr; for (auto& x : R) pr.push_back(toCloud(x));
  for (size_t i = 0; i < S.size(); i++) { if (!vc::mine(item++)) continue; vc::cur("directions %s", show(std::vector<const Cl*>{&S[i]}).c_str()); for (FOV f : {FOV(0, 0, 0, 0), FOV(120, -5, 60, 30)}) seq({&S[i]}, f, {toCloud(S[i])}, 0); }
  for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < R.size(); j++) { if (!vc::mine(item++)) continue; for (size_t k = 0; k < R.size(); k++) seq({&R[i], &R[j], &R[k]}, FOV(0, 0, 0, 0), {pr[i], pr[j], pr[k]}, 0); }
  vc::sample("cloud %s", show(std::vector<int>{0, 7, 5}).c_str());
  vc::sample("directions %s", show(std::vector<const Cl*>{&R[3], &R[20], &R[7]}).c_str());
  return vc::done();
}
