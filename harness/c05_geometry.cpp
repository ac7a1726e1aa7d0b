// C05: angle, polar and frame conversions vs double-precision definitions, on a lattice of all directions and angles.
#include "vc.h"
#include <avoidance/common.h>
#include <avoidance/histogram.h>
using namespace avoidance;
static const double D = M_PI / 180;
typedef Eigen::Vector3d V;
static V dir(double e, double z) { return V(cos(e * D) * sin(z * D), cos(e * D) * cos(z * D), sin(e * D)); }  // histogram convention: zero azimuth along +y, clockwise, up positive
static V dirF(double e, double z) { return V(cos(e * D) * cos(z * D), cos(e * D) * sin(z * D), -sin(e * D)); }  // vehicle convention: zero along +x, counter-clockwise, down positive
static double wrap(double a) { return a - 360 * std::floor(a / 360 + 0.5); }
static double adiff(double a, double b) { return std::fabs(wrap(a - b)); }
static std::vector<double> azs() {
  std::vector<double> r;
  for (double a = -180; a <= 180; a += 1) r.push_back(a);
  for (double a = -180; a <= 180; a += 6) { r.push_back(a - 0.01); r.push_back(a + 0.01); r.push_back(a + 3); }
  return r;
}
static std::vector<double> els() {
  std::vector<double> r;
  for (double a = -90; a <= 90; a += 3) r.push_back(a);
  for (double a = -84; a < 90; a += 6) { r.push_back(a - 0.01); r.push_back(a + 0.01); }
  r.push_back(-89.5); r.push_back(89.5); r.push_back(1); r.push_back(-2);
  return r;
}
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  uint64_t item = 0;
  const Eigen::Vector3f O[3] = {{0, 0, 0}, {3, -4, 10}, {-120.5f, 33.25f, -2}};
  auto A = azs(); auto E = els();
  for (double z : A) { if (!vc::mine(item++)) continue;
    for (double e : E) for (float r : {0.25f, 1.f, 17.f}) for (auto& o : O) {
      c.states++;
      double tol = 2e-4 + r * 2e-5 + o.norm() * 1e-6;
      vc::cur("elevation %g azimuth %g radius %g origin (%g,%g,%g)", e, z, r, o.x(), o.y(), o.z());
      V want = o.cast<double>() + r * dir(e, z);
      Eigen::Vector3f p = polarHistogramToCartesian(PolarPoint(e, z, r), o);
      CK((p.cast<double>() - want).norm() < tol, "histogram-to-cartesian", "polarHistogramToCartesian(e %g, z %g, r %g) from (%g,%g,%g) = (%g,%g,%g), expected (%g,%g,%g)", e, z, r, o.x(), o.y(), o.z(), p.x(), p.y(), p.z(), want.x(), want.y(), want.z());
      V wantF = o.cast<double>() + r * dirF(e, z);
      Eigen::Vector3f pf = polarFCUToCartesian(PolarPoint(e, z, r), o);
      CK((pf.cast<double>() - wantF).norm() < tol, "fcu-to-cartesian", "polarFCUToCartesian(e %g, z %g, r %g) from (%g,%g,%g) = (%g,%g,%g), expected (%g,%g,%g)", e, z, r, o.x(), o.y(), o.z(), pf.x(), pf.y(), pf.z(), wantF.x(), wantF.y(), wantF.z());
      // back again, from the exact point
      Eigen::Vector3f q = want.cast<float>(), qf = wantF.cast<float>();
      for (int k = 0; k < 4; k++) {
        PolarPoint b = k == 0 ? cartesianToPolarHistogram(q, o) : k == 1 ? cartesianToPolarHistogram(q.x(), q.y(), q.z(), o) : k == 2 ? cartesianToPolarFCU(qf, o) : cartesianToPolarFCU(pcl::PointXYZ(qf.x() - o.x(), qf.y() - o.y(), qf.z() - o.z()));
        V g = (k < 2 ? dir(b.e, b.z) : dirF(b.e, b.z)) * b.r, w = (k < 2 ? dir(e, z) : dirF(e, z)) * r;
        CK((g - w).norm() < tol * 3, k < 2 ? "cartesian-to-histogram" : "cartesian-to-fcu", "cartesian to polar (%s), direction e %g z %g r %g from (%g,%g,%g): got e %g z %g r %g", k < 2 ? "histogram" : "vehicle", e, z, r, o.x(), o.y(), o.z(), b.e, b.z, b.r);
        CK(b.e >= -90.01 && b.e <= 90.01 && b.z >= -180.01 && b.z <= 180.01 && b.r >= 0, "polar-range", "polar point e %g z %g r %g out of range", b.e, b.z, b.r);
      }
      // cell of a direction
      for (int res : {6, 12}) {
        for (int turn = -1; turn <= 1; turn++) {
          Eigen::Vector2i i = polarToHistogramIndex(PolarPoint(e, z + 360.f * turn, r), res);
          bool in = i.x() >= 0 && i.x() < 360 / res && i.y() >= 0 && i.y() < 180 / res;
          CK(in, "index-range", "polarToHistogramIndex(e %g, z %g, res %d) = (%d,%d) outside the grid", e, z + 360. * turn, res, i.x(), i.y());
          if (!in) continue;
          double t = 2e-3, cz = i.x() * res - 180 + res / 2., ce = i.y() * res - 90 + res / 2.;
          CK(adiff(z, cz) <= res / 2. + t && std::fabs(e - ce) <= res / 2. + t, "index-cell", "polarToHistogramIndex(e %g, z %g, res %d) = (%d,%d), whose cell is centred at e %g z %g", e, z + 360. * turn, res, i.x(), i.y(), ce, cz);
          // cells are half open: a direction exactly on a lower border belongs to the upper cell
          if (turn == 0 && std::fmod(z + 180, res) == 0 && z < 180) CK(i.x() == (int)((z + 180) / res), "index-border", "azimuth %g (res %d) is in column %d", z, res, i.x());
          if (std::fmod(e + 90, res) == 0 && e < 90) CK(i.y() == (int)((e + 90) / res), "index-border", "elevation %g (res %d) is in row %d", e, res, i.y());
          vc::outcome(vc::mix(i.x(), i.y() * 100 + res));
        }
      }
    }
  }
  // every cell's centre maps back to the cell
  for (int res : {6, 12}) for (int e = 0; e < 180 / res; e++) for (int z = 0; z < 360 / res; z++) {
    PolarPoint p = histogramIndexToPolar(e, z, res, 2.5f);
    CK(std::fabs(p.e - (e * res + res / 2 - 90)) < 1e-3 && std::fabs(p.z - (z * res + res / 2 - 180)) < 1e-3 && p.r == 2.5f, "index-to-polar", "histogramIndexToPolar(%d,%d,%d) = e %g z %g r %g", e, z, res, p.e, p.z, p.r);
    Eigen::Vector2i i = polarToHistogramIndex(p, res);
    CK(i.x() == z && i.y() == e, "index-roundtrip", "cell (%d,%d) at res %d maps back to (%d,%d)", z, e, res, i.x(), i.y());
  }
  // invalid and far out-of-range input stays inside the grid
  for (float e : {NAN, INFINITY, -INFINITY, 1e9f, -1e9f, 400.f, 0.f}) for (float z : {NAN, INFINITY, -INFINITY, 1e9f, -1e9f, 5000.f, 0.f}) for (int res : {6, 12}) {
    Eigen::Vector2i i = polarToHistogramIndex(PolarPoint(e, z, 1), res);
    CK(i.x() >= 0 && i.x() < 360 / res && i.y() >= 0 && i.y() < 180 / res, "index-range", "polarToHistogramIndex(e %g, z %g) = (%d,%d)", e, z, i.x(), i.y());
  }
  // wrapping
  for (int a10 = -18000; a10 <= 18000; a10++) {
    if (!vc::mine(a10 + 18000)) continue;
    float a = a10 / 10.f;
    float w = wrapAngleToPlusMinus180(a);
    CK(adiff(a, w) < 2e-3 && w >= -180.002 && w < 180.002, "wrap180", "wrapAngleToPlusMinus180(%g) = %g", a, w);
    if (std::fmod(a - 180.0, 360.0) == 0) CK(w == -180.f, "wrap180-border", "wrapAngleToPlusMinus180(%g) = %g, expected -180", a, w);
    float wr = wrapAngleToPlusMinusPI(a * (float)D);
    CK(std::fabs(std::remainder(a * (float)D - wr, 2 * M_PI)) < 1e-4 && wr >= -M_PI - 1e-4 && wr <= M_PI + 1e-4, "wrapPI", "wrapAngleToPlusMinusPI(%g) = %g", a * (float)D, wr);
    c.states++;
  }
  for (int e = -720; e <= 720; e += 15) for (int z = -720; z <= 720; z += 15) for (float de : {0.f, 0.5f, -0.5f}) {
    PolarPoint p(e + de, z, 4);
    wrapPolar(p);
    CK((dir(p.e, p.z) - dir(e + de, z)).norm() < 1e-4 && p.r == 4 && p.e >= -90.001 && p.e <= 90.001 && p.z >= -180.001 && p.z <= 180.001, "wrap-polar", "wrapPolar(e %g, z %d) = e %g z %g", e + (double)de, z, p.e, p.z);
  }
  // differences, over several turns
  for (int a = -720; a <= 720; a += 5) { if (!vc::mine(a + 720)) continue; for (int b = -720; b <= 720; b += 5) for (float s : {0.f, 0.25f}) {
    float d = angleDifference(a + s, b);
    CK(adiff(d, a + s - b) < 2e-3 && std::fabs(d) <= 180.001, "angle-difference", "angleDifference(%g,%d) = %g", a + (double)s, b, d);
    if (a >= -180 && a <= 180 && b >= -180 && b <= 180) {
      float i = indexAngleDifference(a + s, b);
      CK(std::fabs(i - adiff(a + s, b)) < 2e-3, "index-angle-difference", "indexAngleDifference(%g,%d) = %g, expected %g", a + (double)s, b, i, adiff(a + s, b));
    }
    if (a >= -90 && a <= 90 && b >= -180 && b <= 180) for (int e : {-80, -5, 35}) for (int z : {-170, 0, 45}) {
      float d2 = distance2DPolar(PolarPoint(a + s, z, 1), PolarPoint(e, b, 7));
      CK(std::fabs(d2 - std::hypot(a + s - e, (double)z - b)) < 2e-3, "distance-polar", "distance of (e %g, z %d) and (e %d, z %d) is %g", a + (double)s, z, e, b, d2);
    }
    // yaw rate towards the target the shorter way; the current yaw is a wrapped one
    if (b >= -180 && b <= 180) {
      double v = getAngularVelocity((a + s) * (float)D, b * (float)D), w = wrap(a + s - b) * D * 0.5;
      bool opposite = std::fabs(std::fabs(w) - M_PI / 2) < 1e-3;
      CK(opposite ? std::fabs(std::fabs(v) - std::fabs(w)) < 2e-3 : std::fabs(v - w) < 1e-3, "yaw-rate", "getAngularVelocity(%g deg, %d deg) = %g rad/s, expected %g", a + (double)s, b, v, w);
    }
    c.transitions++;
  } }
  for (int i = 0; i < 72; i++) for (int k = 0; k < 3; k++) for (double r : {0.01, 1.0, 500.0}) {
    Eigen::Vector3f u = O[k], v = u + Eigen::Vector3f(r * cos(i * 5 * D), r * sin(i * 5 * D), k - 1);
    double y = nextYaw(u, v);
    CK(std::fabs(std::remainder(y - i * 5 * D, 2 * M_PI)) < (r < 0.1 ? 1e-2 : 1e-3), "next-yaw", "nextYaw towards %d deg = %g rad", i * 5, y);
  }
  // frames
  for (int x = -2; x <= 2; x++) for (int y = -2; y <= 2; y++) for (int z = -2; z <= 2; z++) {
    Eigen::Vector3f p(x * 1.5f, y - 0.25f, z * 3.f);
    Eigen::Vector3f n = toNED(p), u = toENU(p);
    CK(n == Eigen::Vector3f(p.y(), p.x(), -p.z()) && u == n && toENU(n) == p && toNED(u) == p, "ned-enu", "toNED(%g,%g,%g) = (%g,%g,%g)", p.x(), p.y(), p.z(), n.x(), n.y(), n.z());
  }
  for (int yaw = -180; yaw <= 180; yaw += 5) {
    float yn = yawToNEDdeg(yaw), yr = yawToNEDrad(yaw * (float)D);
    // heading of the same ground direction in either frame
    Eigen::Vector3f n = toNED(Eigen::Vector3f(cos(yaw * D), sin(yaw * D), 0));
    CK(adiff(yn, atan2(n.y(), n.x()) / D) < 1e-2 && adiff(yr / D, yn) < 1e-2 && adiff(yawToENUdeg(yn), yaw) < 1e-2 && adiff(yawToENUrad(yr) / D, yaw) < 1e-2, "yaw-ned", "yawToNEDdeg(%d) = %g, yawToNEDrad = %g", yaw, yn, yr);
    CK(pitchtoNED(yaw) == -yaw && pitchToENU(yaw) == -yaw, "pitch-ned", "pitchtoNED(%d)", yaw);
  }
  for (int y = -180; y <= 180; y += 30) { if (!vc::mine(y / 30 + 6)) continue; for (int p = -90; p <= 90; p += 15) for (int r = -180; r <= 180; r += 45) {
    Eigen::Quaterniond q = quaternionFromRPY(V(r * D, p * D, y * D));
    Eigen::Quaterniond qr = Eigen::AngleAxisd(y * D, V::UnitZ()) * Eigen::AngleAxisd(p * D, V::UnitY()) * Eigen::AngleAxisd(r * D, V::UnitX());
    CK(std::fabs(std::fabs(q.dot(qr)) - 1) < 1e-9, "rpy", "quaternionFromRPY(%d,%d,%d)", r, p, y);
    Eigen::Quaterniond n = orientationToNED(q), u = orientationToENU(q);
    for (auto& v : {V(1, 0, 0), V(0, 1, 0), V(0, 0, 1)}) {
      V w = q * v; V e = n * V(v.x(), -v.y(), -v.z());
      CK((e - V(w.y(), w.x(), -w.z())).norm() < 1e-6, "orientation-ned", "orientationToNED of rpy (%d,%d,%d) does not rotate body axes to the same world direction", r, p, y);
    }
    CK(std::fabs(std::fabs(orientationToENU(n).dot(q)) - 1) < 1e-6 && std::fabs(std::fabs(orientationToNED(u).dot(q)) - 1) < 1e-6, "orientation-involution", "orientation conversions of rpy (%d,%d,%d) are not mutually inverse", r, p, y);
    Eigen::Quaternionf f = q.cast<float>();
    if (std::abs(p) < 90) {
      CK(adiff(getYawFromQuaternion(f), y) < 5e-2, "yaw-from-quaternion", "getYawFromQuaternion of rpy (%d,%d,%d) = %g", r, p, y, getYawFromQuaternion(f));
      CK(std::fabs(getPitchFromQuaternion(f) - p) < 5e-2, "pitch-from-quaternion", "getPitchFromQuaternion of rpy (%d,%d,%d) = %g", r, p, y, getPitchFromQuaternion(f));
    } else CK(std::fabs(getPitchFromQuaternion(f) - p) < 0.5, "pitch-from-quaternion", "getPitchFromQuaternion of rpy (%d,%d,%d) = %g", r, p, y, getPitchFromQuaternion(f));
    Eigen::Vector3f ow; Eigen::Quaternionf oq;
    createPoseMsg(ow, oq, Eigen::Vector3f(1, 2, 3), y * (float)D);
    CK(ow == Eigen::Vector3f(1, 2, 3) && adiff(getYawFromQuaternion(oq), y) < 1e-2, "pose", "createPoseMsg with yaw %d", y);
    c.states++;
  } }
  c.traces = c.evals;
  vc::sample("direction e -84.01 z 180 r 17 from (3,-4,10): both conventions and both grid resolutions, over three turns");
  return vc::done();
}
