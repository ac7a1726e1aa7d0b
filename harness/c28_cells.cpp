// C28: cells, positions, neighbours, ordering and turning of the global planner on exhaustive lattices of cells, points and motions.
#include "vc.h"
#include <global_planner/global_planner.h>
using namespace global_planner;
#define CK(cond, key, ...) do { c.evals++; if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
typedef std::array<int, 3> I3;
static Cell mk(int x, int y, int z) { return Cell(std::tuple<int, int, int>(x, y, z)); }
static I3 ix(const Cell& k) { return {k.xIndex(), k.yIndex(), k.zIndex()}; }
static const double SC[] = {1.0, 0.5, 2.0, 0.75};
static geometry_msgs::Point pt(double x, double y, double z) { geometry_msgs::Point p; p.x = x; p.y = y; p.z = z; return p; }

static void points() {
  auto& c = vc::ctx();
  for (double s : SC) {
    CELL_SCALE = s;
    std::vector<double> v;
    for (int k = -6; k <= 6; k++) { double b = k * s; v.push_back(b); v.push_back(std::nextafter(b, -1e9)); v.push_back(std::nextafter(b, 1e9)); v.push_back(b + 0.5 * s); v.push_back(b + 0.3 * s); }
    for (double b : {1234.56, -1234.56, 40000.25, -40000.25}) v.push_back(b);
    for (size_t a = 0; a < v.size(); a++) {
      if (!vc::mine(a)) continue;
      for (size_t b = 0; b < v.size(); b++)
        for (size_t d = 0; d < v.size(); d++) {
          double q[3] = {v[a], v[b], v[d]};
          vc::cur("point (%.17g %.17g %.17g) scale %g", q[0], q[1], q[2], s);
          Cell k(q[0], q[1], q[2]); I3 i = ix(k); c.transitions++;
          for (int t = 0; t < 3; t++) {
            // the cell [i*s, (i+1)*s) contains the coordinate (division and product may round at the border itself)
            double tol = 1e-12 * (std::fabs(q[t]) + 1);
            CK(i[t] * s <= q[t] + tol && q[t] < (i[t] + 1) * s + tol && (long)i[t] == (long)std::floor(q[t] / s), "point_not_in_cell", "point (%.17g %.17g %.17g) cell size %g is put into cell %s", q[0], q[1], q[2], s, k.asString().c_str());
          }
          if (b == d) { Cell k2(q[0], q[1]); CK(ix(k2) == (I3{i[0], i[1], 0}), "cell2d", "Cell(%g, %g) is %s", q[0], q[1], k2.asString().c_str()); }
          Cell k3(pt(q[0], q[1], q[2])); CK(k3 == k, "cell_from_point", "point (%g %g %g): %s and %s", q[0], q[1], q[2], k3.asString().c_str(), k.asString().c_str());
        }
    }
    for (int x : {-40000, -1025, -7, -2, -1, 0, 1, 2, 5, 1024, 40000}) for (int y : {-33000, -3, -1, 0, 1, 4, 33000}) for (int z : {-5, -1, 0, 1, 2, 30}) {
      if (!vc::mine((uint64_t)(x + y + z + 200000))) continue;
      Cell k = mk(x, y, z); auto p = k.toPoint(); vc::cur("cell %s scale %g", k.asString().c_str(), s); c.transitions++;
      CK(p.x == k.xPos() && p.y == k.yPos() && p.z == k.zPos() && vc::near(p.x, s * x + s / 2, 1e-9) && vc::near(p.y, s * y + s / 2, 1e-9) && vc::near(p.z, s * z + s / 2, 1e-9), "center", "center of %s at scale %g is (%g %g %g)", k.asString().c_str(), s, p.x, p.y, p.z);
      CK(Cell(p) == k && ix(Cell(p.x, p.y, p.z)) == (I3{x, y, z}), "cell_roundtrip", "cell %s at scale %g -> (%g %g %g) -> %s", k.asString().c_str(), s, p.x, p.y, p.z, Cell(p).asString().c_str());
      char b[80]; snprintf(b, sizeof b, "(%d,%d,%d)", x, y, z); CK(k.asString() == b, "cell_name", "%s named %s", b, k.asString().c_str());
    }
  }
  CELL_SCALE = 1.0;
}

static void neighbours() {
  auto& c = vc::ctx();
  uint64_t it = 0;
  for (double s : SC) for (int x = -3; x <= 3; x++) for (int y = -3; y <= 3; y++) for (int z = -2; z <= 3; z++) {
    if (!vc::mine(it++)) continue;
    CELL_SCALE = s; Cell k = mk(x, y, z); const std::string S = k.asString() + " scale " + std::to_string(s); vc::cur("neighbours of %s", S.c_str()); c.states++;
    auto off = [&](const Cell& n) { return I3{n.xIndex() - x, n.yIndex() - y, n.zIndex() - z}; };
    std::set<I3> want; for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) if (a || b) want.insert({a, b, 0});
    want.insert({0, 0, 1}); want.insert({0, 0, -1});
    auto ns = k.getNeighbors(); std::set<I3> got; for (auto& n : ns) got.insert(off(n));
    CK(got == want && ns.size() == want.size(), "neighbours", "neighbours of %s: %zu, %zu distinct", S.c_str(), ns.size(), got.size());
    auto ds = k.getDiagonalNeighbors(); std::set<I3> dg; for (auto& n : ds) dg.insert(off(n));
    CK(dg == (std::set<I3>{{1, 1, 0}, {1, -1, 0}, {-1, 1, 0}, {-1, -1, 0}}) && ds.size() == 4, "diagonal_neighbours", "diagonal neighbours of %s: %zu", S.c_str(), ds.size());
    for (int r = 0; r <= (x == 0 && y == 0 ? 8 : 3); r++) {
      auto fs = k.getFlowNeighbors(r); std::set<I3> f; for (auto& n : fs) f.insert(off(n));
      CK(f.size() == fs.size(), "flow_twice", "cells within %d of %s: some are listed twice", r, S.c_str());
      for (auto& o : f) {
        CK(std::abs(o[0]) <= r && std::abs(o[1]) <= r && std::abs(o[2]) <= r, "flow_far", "cells within %d of %s contain offset (%d %d %d)", r, S.c_str(), o[0], o[1], o[2]);
        CK(f.count({-o[0], o[1], o[2]}) && f.count({o[0], -o[1], o[2]}) && f.count({o[0], o[1], -o[2]}), "flow_asymmetric", "cells within %d of %s contain offset (%d %d %d) but not its mirror image", r, S.c_str(), o[0], o[1], o[2]);
      }
      for (int a = -r; a <= r; a++) for (int b = -r; b <= r; b++) for (int d = -r; d <= r; d++) if (a * a + b * b + d * d <= r * r) CK(f.count({a, b, d}), "flow_missing", "cells within %d of %s lack offset (%d %d %d)", r, S.c_str(), a, b, d);
    }
    for (int q = -720; q <= 720; q += 5) {
      double yaw = q * M_PI / 360 * 2; I3 o = off(k.getNeighborFromYaw(yaw));
      double err = std::fabs(std::remainder(std::atan2(o[1], o[0]) - yaw, 2 * M_PI));
      CK(o[2] == 0 && std::abs(o[0]) <= 1 && std::abs(o[1]) <= 1 && (o[0] || o[1]) && err <= M_PI / 6 + 1e-6, "neighbour_from_yaw", "neighbour of %s in direction %d degrees is at offset (%d %d %d)", S.c_str(), q, o[0], o[1], o[2]);
    }
    // nodes and search neighbours
    for (auto& pm : std::vector<I3>{{0, 0, 0}, {1, 0, 0}, {-1, 1, 0}, {0, 0, 1}, {2, -1, 1}, {-3, 2, 0}, {4, 0, 0}, {0, 0, -2}}) {
      Cell par = mk(x - pm[0], y - pm[1], z - pm[2]);
      Node n(k, par); NodeWithoutSmooth w(k, par); SpeedNode sp(k, par);
      for (const Node* nd : std::vector<const Node*>{&n, &w}) {
        std::set<I3> g; auto v = nd->getNeighbors(); bool par_ok = true; for (auto& m : v) { g.insert(off(m->cell_)); par_ok &= m->parent_ == k && typeid(*m) == typeid(*nd); }
        CK(g == want && v.size() == want.size() && par_ok, "search_neighbours", "node %s: %zu search neighbours", nd->asString().c_str(), v.size());
      }
      for (double R : {5.0, 0.0, 1.2, 3.0}) {
        SPEEDNODE_RADIUS = R;
        std::set<I3> ws{pm}; for (auto& o : want) { I3 q{pm[0] + o[0], pm[1] + o[1], pm[2] + o[2]}; double d = s * std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]); if (d > 0 && d < R) ws.insert(q); }
        std::set<I3> g; auto v = sp.getNeighbors(); bool par_ok = true; for (auto& m : v) { g.insert(off(m->cell_)); par_ok &= m->parent_ == k && typeid(*m) == typeid(sp); }
        CK(g == ws && v.size() == ws.size() && par_ok, "speed_neighbours", "speed node %s radius %g: %zu search neighbours instead of %zu", sp.asString().c_str(), R, v.size(), ws.size());
        SPEEDNODE_RADIUS = 5.0;
      }
    }
  }
  CELL_SCALE = 1.0;
}

static int sgn(int v) { return (v > 0) - (v < 0); }
static void order() {
  auto& c = vc::ctx();
  std::vector<I3> L; for (int x = -2; x <= 2; x++) for (int y = -2; y <= 2; y++) for (int z = -1; z <= 2; z++) L.push_back({x, y, z});
  for (auto& e : {I3{-4096, 7, 1}, I3{4096, -7, 1}, I3{0, 1024, 0}, I3{1, 0, 0}, I3{1 << 20, 1 << 20, 1 << 10}}) L.push_back(e);
  for (size_t a = 0; a < L.size(); a++) {
    if (!vc::mine(a)) continue;
    for (size_t b = 0; b < L.size(); b++) {
      Cell p = mk(L[a][0], L[a][1], L[a][2]), q = mk(L[b][0], L[b][1], L[b][2]); vc::cur("cells %s %s", p.asString().c_str(), q.asString().c_str()); c.transitions++;
      bool eq = L[a] == L[b], lt = L[a] < L[b];
      CK((p == q) == eq && (p != q) == !eq, "equality", "%s == %s", p.asString().c_str(), q.asString().c_str());
      CK((p < q) + (q < p) + (p == q) == 1 && (p > q) == (q < p) && (p <= q) == !(q < p) && (p >= q) == !(p < q) && (p < q) == lt, "ordering", "order of %s and %s", p.asString().c_str(), q.asString().c_str());
      std::hash<Cell> h; if (eq) CK(h(p) == h(q), "hash", "equal cells %s have two hashes", p.asString().c_str());
      I3 su = ix(p + q), di = ix(p - q);
      bool ar = true; for (int t = 0; t < 3; t++) ar &= su[t] == L[a][t] + L[b][t] && di[t] == L[a][t] - L[b][t];
      CK(ar, "arithmetic", "%s + and - %s", p.asString().c_str(), q.asString().c_str());
      for (double s : {1.0, 0.5, 2.0}) {
        CELL_SCALE = s; double dx = std::abs(L[a][0] - L[b][0]) * s, dy = std::abs(L[a][1] - L[b][1]) * s, dz = std::abs(L[a][2] - L[b][2]) * s;
        double diag = std::max(dx, dy) + (M_SQRT2 - 1) * std::min(dx, dy);
        CK(vc::near(p.distance2D(q), std::hypot(dx, dy), 1e-9) && vc::near(p.distance3D(q), std::sqrt(dx * dx + dy * dy + dz * dz), 1e-9) && vc::near(p.diagDistance2D(q), diag, 1e-8) && vc::near(p.diagDistance3D(q), diag + dz, 1e-8) && vc::near(p.manhattanDist(q.xPos(), q.yPos(), q.zPos()), dx + dy + dz, 1e-9), "distances", "distances between %s and %s at scale %g", p.asString().c_str(), q.asString().c_str(), s);
        for (double R : {0.0, 1.0, 2.0, 4.0, 7.5}) {
          GoalCell g(q, R); auto m = dx + dy + dz;
          CK(g == q && g.withinPlanRadius(p) == (m < R / 2) && g.withinPositionRadius(p.toPoint()) == (m < R), "goal_radius", "cell %s in goal %s radius %g scale %g", p.asString().c_str(), q.asString().c_str(), R, s);
        }
        CELL_SCALE = 1.0;
      }
      double an = std::atan2((double)L[a][1], (double)L[a][0]); CK(vc::near(p.angle(), an, 1e-12), "angle", "angle of %s is %g", p.asString().c_str(), p.angle());
    }
  }
  // nodes: a node is its cell and where it came from; without smoothness only its cell
  std::vector<I3> S; for (int x = -1; x <= 1; x++) for (int y = 0; y <= 1; y++) for (int z = 0; z <= 1; z++) S.push_back({x, y, z});
  uint64_t it = 0;
  for (auto& a : S) for (auto& b : S) { if (!vc::mine(it++)) continue; for (auto& d : S) for (auto& e : S) {
    Cell A = mk(a[0], a[1], a[2]), B = mk(b[0], b[1], b[2]), D = mk(d[0], d[1], d[2]), E = mk(e[0], e[1], e[2]); c.transitions++;
    Node m(A, B), n(D, E); bool eq = a == d && b == e; vc::cur("nodes %s %s", m.asString().c_str(), n.asString().c_str());
    CK((m == n) == eq && (m != n) == !eq && (m < n) + (n < m) + (m == n) == 1 && (m > n) == (n < m) && (m <= n) == !(n < m) && (m >= n) == !(m < n), "node_order", "nodes %s and %s", m.asString().c_str(), n.asString().c_str());
    if (eq) CK(m.hash() == n.hash() && std::hash<Node>()(m) == std::hash<Node>()(n), "node_hash", "equal nodes %s have two hashes", m.asString().c_str());
    NodeWithoutSmooth u(A, B), v(D, E); CK((u == v) == (a == d), "smoothless_equality", "nodes without smoothness %s and %s", u.asString().c_str(), v.asString().c_str());
    if (a == d) CK(u.hash() == v.hash(), "smoothless_hash", "equal nodes without smoothness %s %s have two hashes", u.asString().c_str(), v.asString().c_str());
    SpeedNode sa(A, B), sb(D, E); CK((sa == sb) == eq && (!eq || sa.hash() == sb.hash()), "speed_equality", "speed nodes %s and %s", sa.asString().c_str(), sb.asString().c_str());
    NodePtr pa(new Node(A, B)), pb(new Node(D, E)); CK((bool)EqualsNodePtr()(pa, pb) == eq && (!eq || HashNodePtr()(pa) == HashNodePtr()(pb)), "nodeptr_equality", "node pointers %s and %s", m.asString().c_str(), n.asString().c_str());
  } }
}

static void turning() {
  auto& c = vc::ctx();
  std::vector<I3> M; for (int x = -3; x <= 3; x++) for (int y = -3; y <= 3; y++) for (int z = -1; z <= 1; z++) if (x || y || z) M.push_back({x, y, z});
  GlobalPlanner gp;
  auto rot = [&](const I3& a, const I3& b, int ox, int oy) { Cell p = mk(ox, oy, 2), q = mk(ox + a[0], oy + a[1], 2 + a[2]), r = mk(ox + a[0] + b[0], oy + a[1] + b[1], 2 + a[2] + b[2]); return Node(q, p).getRotation(Node(r, q)); };
  for (size_t i = 0; i < M.size(); i++) {
    if (!vc::mine(i)) continue;
    for (size_t j = 0; j < M.size(); j++) {
      auto &a = M[i], &b = M[j]; c.transitions++; vc::cur("turn from (%d %d %d) to (%d %d %d)", a[0], a[1], a[2], b[0], b[1], b[2]);
      double r = rot(a, b, 0, 0); bool ha = a[0] || a[1], hb = b[0] || b[1], za = a[2] != 0, zb = b[2] != 0;
      double ang = ha && hb ? std::fabs(std::atan2((double)(a[0] * b[1] - a[1] * b[0]), (double)(a[0] * b[0] + a[1] * b[1]))) : 0;
      double want = ang / (M_PI / 4) + (za != zb ? 0.5 : 0);
#define W "turn from (%d %d %d) to (%d %d %d): %g", a[0], a[1], a[2], b[0], b[1], b[2], r
      CK(vc::near(r, want, 1e-6), "turn", W);
      if (!za && !zb) {
        bool straight = a[0] * b[1] == a[1] * b[0] && sgn(a[0]) == sgn(b[0]) && sgn(a[1]) == sgn(b[1]), rev = a[0] * b[1] == a[1] * b[0] && sgn(a[0]) == -sgn(b[0]) && sgn(a[1]) == -sgn(b[1]);
        CK((r < 1e-9) == straight && r <= 4 + 1e-9 && (std::fabs(r - 4) < 1e-9) == rev, "turn_straight_or_back", W);
      }
      CK(vc::near(r, rot(b, a, 0, 0), 1e-9) && vc::near(r, rot({-a[1], a[0], a[2]}, {-b[1], b[0], b[2]}, 0, 0), 1e-9) && vc::near(r, rot({-a[0], a[1], a[2]}, {-b[0], b[1], b[2]}, 0, 0), 1e-9) && vc::near(r, rot({a[0], -a[1], -a[2]}, {b[0], -b[1], -b[2]}, 0, 0), 1e-9) && vc::near(r, rot(a, b, -7, 11), 1e-9), "turn_symmetry", W);
      Cell p = mk(0, 0, 2), q = mk(a[0], a[1], 2 + a[2]), e = mk(a[0] + b[0], a[1] + b[1], 2 + a[2] + b[2]);
      Node u(q, p), v(e, q); CK(vc::near(gp.getTurnSmoothness(u, v), r * r, 1e-9), "turn_cost", W);
      NodeWithoutSmooth us(q, p); CK(us.getRotation(v) == 0, "turn_without_smooth", W);
      SpeedNode ss(q, p); CK(ss.getRotation(v) == r, "turn_speed", W);
      vc::outcome(vc::hashf(r));
    }
  }
  for (int k = vc::ctx().shard; k <= 40000; k += vc::ctx().nshards) { double a = (k - 20000) * 0.001; double r = angleToRange(a); CK(r >= -M_PI - 1e-9 && r <= M_PI + 1e-9 && std::fabs(std::remainder(r - a, 2 * M_PI)) < 1e-9, "angle_range", "angle %g becomes %g", a, r); }
  for (int k = -16; k <= 16; k++) { double a = k * M_PI / 4, r = angleToRange(a); CK(r >= -M_PI - 1e-9 && r <= M_PI + 1e-9 && std::fabs(std::remainder(r - a, 2 * M_PI)) < 1e-9, "angle_range", "angle %g becomes %g", a, r); }
}

// cells passed by a straight step
static void cells() {
  auto& c = vc::ctx();
  uint64_t it = 0; const int R = c.thorough ? 5 : 4;
  for (double s : {1.0, 0.5, 2.0}) for (int x = -R; x <= R; x++) for (int y = -R; y <= R; y++) for (int z = -R; z <= R; z++) for (int o = 0; o < 2; o++) {
    if (!vc::mine(it++) || (!x && !y && !z)) continue;
    CELL_SCALE = s; Cell p = mk(o ? -3 : 0, o ? 5 : 0, o ? 1 : 2), q = mk(p.xIndex() + x, p.yIndex() + y, p.zIndex() + z);
    Node n(q, p); auto cs = n.getCells(); c.transitions++; vc::cur("cells of %s scale %g", n.asString().c_str(), s);
    CK(cs.count(q), "step_misses_end", "step %s (scale %g) does not contain its end", n.asString().c_str(), s);
    CK(vc::near(n.getLength(), s * std::sqrt(x * x + y * y + z * z), 1e-9), "step_length", "step %s has length %g", n.asString().c_str(), n.getLength());
    // the segment between the two centers, in cells
    double a[3] = {p.xIndex() + .5, p.yIndex() + .5, p.zIndex() + .5}, d[3] = {(double)x, (double)y, (double)z};
    int lo[3], hi[3]; for (int t = 0; t < 3; t++) { lo[t] = (int)std::floor(std::min(a[t], a[t] + d[t])) - 1; hi[t] = (int)std::floor(std::max(a[t], a[t] + d[t])) + 1; }
    double len = std::sqrt(x * x + y * y + z * z);
    size_t seen = 0;
    for (int i = lo[0]; i <= hi[0]; i++) for (int j = lo[1]; j <= hi[1]; j++) for (int k = lo[2]; k <= hi[2]; k++) {
      double t0 = 0, t1 = 1; int b[3] = {i, j, k}; double grow = 0.1 / s + 1e-6, g0 = 0, g1 = 1;
      for (int t = 0; t < 3; t++) {
        double e = t < 2 ? grow : 1e-6;
        if (d[t] == 0) { if (a[t] < b[t] || a[t] >= b[t] + 1) t1 = -1; if (a[t] < b[t] - e || a[t] > b[t] + 1 + e) g1 = -1; continue; }
        double u = (b[t] - a[t]) / d[t], v = (b[t] + 1 - a[t]) / d[t]; if (u > v) std::swap(u, v); t0 = std::max(t0, u); t1 = std::min(t1, v);
        u = (b[t] - e - a[t]) / d[t]; v = (b[t] + 1 + e - a[t]) / d[t]; if (u > v) std::swap(u, v); g0 = std::max(g0, u); g1 = std::min(g1, v);
      }
      bool in = cs.count(mk(i, j, k)); seen += in; bool isp = mk(i, j, k) == p;
      // passed over more than the sampling distance of half a cell: it must be there; not touched at all: it must not
      if (!isp && (t1 - t0) * std::max(std::abs(x), std::max(std::abs(y), std::abs(z))) > 0.5 + 1e-6) CK(in, "step_skips_cell", "step %s (scale %g) passes %.2f cells through (%d %d %d) without noticing", n.asString().c_str(), s, (t1 - t0) * len, i, j, k);
      if (g1 < g0) CK(!in, "step_far_cell", "step %s (scale %g) contains (%d %d %d) which it does not touch", n.asString().c_str(), s, i, j, k);
    }
    CK(seen == cs.size(), "step_far_cell", "step %s (scale %g) contains cells far away", n.asString().c_str(), s);
    vc::outcome(cs.size());
  }
  CELL_SCALE = 1.0;
}
int main(int argc, char** argv) {
  vc::init(argc, argv);
  points(); neighbours(); order(); turning(); cells();
  vc::sample("cell borders, neighbours, turns between every pair of motions, cells of every step up to 4 cells");
  vc::ctx().states += vc::ctx().outcomes.size();
  return vc::done();
}
