// C04: transform buffer vs an ordered list per frame pair; all insert sequences, all lookups after every step.
#include "vc.h"
#include <avoidance/transform_buffer.h>
using namespace avoidance;
static const int64_t BASE = 1000LL * 1000000000LL, S = 1000000000LL;
static const int64_t T[9] = {0, S / 2, S, 2 * S, 2 * S + 1, 5 * S / 2, 4 * S, 4 * S + 1, 10 * S};
static ros::Time at(int64_t ns) { ros::Time t; t.fromNSec(BASE + ns); return t; }
static Eigen::Vector3d org(int p, int t) { return Eigen::Vector3d(1.5 * t + p, -t * (p + 1.0), t * t - 20.0 * p); }
static Eigen::Quaterniond rot(int p, int t) { return Eigen::AngleAxisd(0.35 * t, Eigen::Vector3d(p == 0, p == 1, 0.5).normalized()) * Eigen::AngleAxisd(0.2 * t * (p + 1), Eigen::Vector3d::UnitX()); }
static tf::StampedTransform make(int p, int t) {
  tf::StampedTransform s;
  s.stamp_ = at(T[t]);
  Eigen::Vector3d o = org(p, t); Eigen::Quaterniond q = rot(p, t);
  s.setOrigin(tf::Vector3(o.x(), o.y(), o.z())); s.setRotation(tf::Quaternion(q.x(), q.y(), q.z(), q.w()));
  return s;
}
struct Op { int p, t; };
typedef std::vector<std::pair<std::string, std::string>> Pairs;
static Pairs PS[2] = {{{"cam", "local_origin"}, {"cam", "fcu"}, {"fcu", "cam"}}, {{"c", "f_to_x"}, {"c_to_f", "x"}, {"c_to_f_to", "x"}}};
static std::vector<int64_t> probes;
static void run(const Pairs& P, const std::vector<Op>& h, int64_t window) {
  auto& c = vc::ctx();
  tf_buffer::TransformBuffer b((float)(window * 1e-9));
  std::vector<int> model[3];
  std::string desc;
  for (size_t k = 0; k < h.size(); k++) {
    const Op& o = h[k];
    auto& m = model[o.p];
    bool want = m.empty() || T[o.t] > T[m.back()];
    if (k + 1 == h.size()) { desc.clear(); for (auto& x : h) { char z[128]; snprintf(z, sizeof z, "insert(%s->%s, %.9f) ", P[x.p].first.c_str(), P[x.p].second.c_str(), T[x.t] * 1e-9); desc += z; } vc::cur("window %.1f: %s", window * 1e-9, desc.c_str()); }
    bool got = b.insertTransform(P[o.p].first, P[o.p].second, make(o.p, o.t));
    if (got != want) { std::string d; for (size_t i = 0; i <= k; i++) { char z[96]; snprintf(z, sizeof z, "insert(%s->%s, %.9f) ", P[h[i].p].first.c_str(), P[h[i].p].second.c_str(), T[h[i].t] * 1e-9); d += z; } vc::fail("insert", "%s: last insertion %s, expected %s", d.c_str(), got ? "accepted" : "rejected", want ? "accepted" : "rejected"); }
    if (want) { m.push_back(o.t); while (T[o.t] - T[m.front()] > window) m.erase(m.begin()); }
    c.transitions++;
  }
  // every shorter history is enumerated on its own, so it is enough to probe at the end
  for (size_t p = 0; p < P.size(); p++) for (int64_t t : probes) {
    auto& m = model[p];
    bool in = !m.empty() && t >= T[m.front()] && t <= T[m.back()];
    bool single = in && m.size() == 1;  // one stored transform cannot bracket; either answer is accepted
    tf::StampedTransform r; r.setIdentity();
    bool got = b.getTransform(P[p].first, P[p].second, at(t), r);
    c.evals++;
    if (!single && got != in) { vc::fail(got ? "lookup-unfounded" : "lookup-missed", "%s: lookup %s->%s at %.9f %s", desc.c_str(), P[p].first.c_str(), P[p].second.c_str(), t * 1e-9, got ? "succeeds without bracketing transforms" : "fails although stored transforms bracket it"); continue; }
    vc::outcome(vc::mix(vc::mix(p, t), got));
    if (!got) continue;
    size_t i = 0;
    while (i + 1 < m.size() && T[m[i + 1]] < t) i++;
    size_t j = T[m[i]] == t ? i : std::min(i + 1, m.size() - 1);
    double tau = T[m[j]] > T[m[i]] ? (double)(t - T[m[i]]) / (T[m[j]] - T[m[i]]) : 0;
    Eigen::Vector3d eo = org(p, m[i]) * (1 - tau) + org(p, m[j]) * tau;
    Eigen::Quaterniond eq = rot(p, m[i]).slerp(tau, rot(p, m[j]));
    tf::Vector3 go = r.getOrigin(); tf::Quaternion gq = r.getRotation();
    double d = (Eigen::Vector3d(go.x(), go.y(), go.z()) - eo).norm();
    double dot = std::fabs(gq.x() * eq.x() + gq.y() * eq.y() + gq.z() * eq.z() + gq.w() * eq.w());
    if (!(d < 1e-3) || !(dot > 1 - 1e-5)) vc::fail("interpolation", "%s: lookup %s->%s at %.9f returns origin (%g,%g,%g), expected (%g,%g,%g); rotation match %g", desc.c_str(), P[p].first.c_str(), P[p].second.c_str(), t * 1e-9, go.x(), go.y(), go.z(), eo.x(), eo.y(), eo.z(), dot);
    if (r.stamp_ != at(t)) vc::fail("stamp", "%s: lookup at %.9f is stamped %.9f", desc.c_str(), t * 1e-9, r.stamp_.toSec() - 1000);
  }
  c.traces++; c.states++;
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  for (int64_t t : T) probes.push_back(t);
  for (int64_t t : {-S, S / 4, 3 * S / 2, 9 * S / 4, 3 * S, 4 * S - 1, 6 * S, 8 * S - 1, 8 * S, 10 * S + 1, 12 * S}) probes.push_back(t);
  uint64_t item = 0;
  auto all = [&](const Pairs& P, int np, int depth, int64_t w) {
    std::vector<Op> h;
    std::function<void(int)> rec = [&](int d) {
      run(P, h, w);
      if (d == depth) return;
      for (int p = 0; p < np; p++) for (int t = 0; t < 9; t++) { if (d == 1 && !vc::mine(item++)) continue; h.push_back({p, t}); rec(d + 1); h.pop_back(); }
    };
    rec(0);
  };
  int x = c.thorough;
  all(PS[0], 1, 6, 2 * S); all(PS[0], 1, 5 + x, 4 * S); all(PS[0], 3, 4, 2 * S); if (x) all(PS[0], 2, 5, 2 * S);
  all(PS[1], 2, 4 + x, 2 * S); all(PS[1], 3, 3, 10 * S);
  vc::sample("insert(cam->fcu, 0.5) insert(cam->local_origin, 2.0) insert(cam->fcu, 2.000000001), lookups at %zu times for 3 pairs", probes.size());
  return vc::done();
}
