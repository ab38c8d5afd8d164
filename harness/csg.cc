// P23 Boolean operations on PLCs (BSP csg_* in 2D and 3D, Boost boost_* in 2D); P28 simplifyPLCfacets, ReducedPLC.
#include "polytope.hh"
#include "PLC_CSG_2d.hh"
#include "PLC_CSG_3d.hh"
#include "PLC_Boost_2d.hh"
#include "simplifyPLCfacets.hh"
#include "mc.hh"
#include "geomref.hh"
using namespace polytope;
static mc::Run R;
typedef ReducedPLC<2, double> P2;
typedef ReducedPLC<3, double> P3;
struct Edge { double x0, y0, x1, y1; };
typedef std::vector<Edge> Edges;
static void addEdges(Edges& e, const P2& p, const std::vector<std::vector<int>>& f) { for (auto& g : f) e.push_back({p.points[2*g[0]], p.points[2*g[0] + 1], p.points[2*g[1]], p.points[2*g[1] + 1]}); }
static Edges edgesOf(const P2& p) { Edges e; addEdges(e, p, p.facets); for (auto& h : p.holes) addEdges(e, p, h); return e; }
static bool indicesOk(const P2& p) {
  auto ok = [&](const std::vector<std::vector<int>>& f) { for (auto& g : f) { if (g.size() != 2) return false; for (int v : g) if (v < 0 || 2*v + 1 >= (int)p.points.size()) return false; } return true; };
  if (p.points.size() % 2 || !ok(p.facets)) return false;
  for (auto& h : p.holes) if (!ok(h)) return false;
  return true;
}
// Each position is left as often as it is entered (positions compared within tol).
static bool closedLoops(const Edges& e, double tol) {
  std::vector<std::pair<std::pair<double, double>, int>> p;
  for (auto& g : e) { p.push_back({{g.x0, g.y0}, 1}); p.push_back({{g.x1, g.y1}, -1}); }
  std::vector<char> used(p.size(), 0);
  for (size_t i = 0; i < p.size(); ++i) if (!used[i]) {
    int s = 0;
    for (size_t j = i; j < p.size(); ++j) if (!used[j] && std::abs(p[i].first.first - p[j].first.first) < tol && std::abs(p[i].first.second - p[j].first.second) < tol) { used[j] = 1; s += p[j].second; }
    if (s) return false;
  }
  return true;
}
// Integrates over the plane by strips between all vertices and crossings of the edge sets: f(w) with w[i] the winding
// number of set i is called for each elementary piece; returns the area where f is true.
template <class F> static double areaWhere(const std::vector<Edges>& E, double unit, F f) {
  std::vector<std::pair<Edge, int>> all; std::vector<double> ys;
  for (size_t s = 0; s < E.size(); ++s) for (auto& e : E[s]) { all.push_back({e, (int)s}); ys.push_back(e.y0); ys.push_back(e.y1); }
  for (size_t i = 0; i < all.size(); ++i) for (size_t j = i + 1; j < all.size(); ++j) {
    const Edge &a = all[i].first, &b = all[j].first;
    const double rx = a.x1 - a.x0, ry = a.y1 - a.y0, sx = b.x1 - b.x0, sy = b.y1 - b.y0, d = rx*sy - ry*sx;
    if (std::abs(d) <= 1e-13*unit*unit) continue;
    const double t = ((b.x0 - a.x0)*sy - (b.y0 - a.y0)*sx)/d, u = ((b.x0 - a.x0)*ry - (b.y0 - a.y0)*rx)/d;
    if (t > 0 && t < 1 && u > 0 && u < 1) ys.push_back(a.y0 + t*ry);
  }
  std::sort(ys.begin(), ys.end());
  double area = 0; std::vector<int> w(E.size());
  std::vector<std::pair<double, std::pair<int, int>>> x;
  for (size_t k = 0; k + 1 < ys.size(); ++k) {
    const double h = ys[k + 1] - ys[k], y = 0.5*(ys[k] + ys[k + 1]);
    if (h < 1e-11*unit) continue;
    x.clear();
    for (auto& q : all) { const Edge& e = q.first; if ((e.y0 > y) != (e.y1 > y)) x.push_back({e.x0 + (e.x1 - e.x0)*(y - e.y0)/(e.y1 - e.y0), {q.second, e.y1 < e.y0 ? 1 : -1}}); }
    std::sort(x.begin(), x.end()); std::fill(w.begin(), w.end(), 0);
    for (size_t i = 0; i + 1 < x.size(); ++i) { w[x[i].second.first] += x[i].second.second; if (f(w)) area += h*(x[i + 1].first - x[i].first); }
  }
  return area;
}
struct Xf { const char* name; double s, ox, oy, c, sn; };
static const Xf XF[] = {{"id", 1, 0, 0, 1, 0}, {"off", 1, 1000, -2000, 1, 0}, {"tiny", 1./(1 << 20), 0, 0, 1, 0}, {"huge", 1 << 20, 0, 0, 1, 0}, {"rot", 1, 0.3, 0.7, 0.8, 0.6}};
struct Shape { const char* name; std::vector<I2> out; std::vector<std::vector<I2>> holes; };
static P2 make(const Shape& s, const Xf& t, LL dx, LL dy) {
  P2 p;
  auto loop = [&](const std::vector<I2>& l, std::vector<std::vector<int>>& f) {
    const int o = p.points.size()/2, n = l.size();
    for (auto& q : l) { const double x = q.x + dx, y = q.y + dy; p.points.push_back(t.ox + t.s*(t.c*x - t.sn*y)); p.points.push_back(t.oy + t.s*(t.sn*x + t.c*y)); }
    for (int i = 0; i < n; ++i) f.push_back({o + i, o + (i + 1) % n});
  };
  loop(s.out, p.facets); p.holes.resize(s.holes.size());
  for (size_t h = 0; h < s.holes.size(); ++h) loop(s.holes[h], p.holes[h]);
  return p;
}
static std::vector<Shape> shapes(bool withHoles) {
  std::vector<Shape> s;
  s.push_back({"sq", {{0,0},{4,0},{4,4},{0,4}}, {}});
  s.push_back({"bar", {{0,0},{6,0},{6,1},{0,1}}, {}});
  s.push_back({"tri", {{0,0},{5,1},{1,4}}, {}});
  s.push_back({"dia", {{2,0},{4,2},{2,4},{0,2}}, {}});
  s.push_back({"L", {{0,0},{5,0},{5,2},{2,2},{2,5},{0,5}}, {}});
  s.push_back({"notch", {{0,0},{6,0},{6,4},{3,1},{0,4}}, {}});
  s.push_back({"comb", {{0,0},{5,0},{5,3},{4,3},{4,1},{3,1},{3,3},{2,3},{2,1},{1,1},{1,3},{0,3}}, {}});
  s.push_back({"coll", {{0,0},{2,0},{4,0},{4,1},{4,3},{2,3},{0,3}}, {}});
  if (withHoles) {
    s.push_back({"ring", {{0,0},{6,0},{6,6},{0,6}}, {{{2,2},{4,2},{4,4},{2,4}}}});
    s.push_back({"two", {{0,0},{7,0},{7,5},{0,5}}, {{{1,1},{1,3},{3,3},{3,1}}, {{4,1},{6,2},{5,4}}}});
  }
  return s;
}
static const char* OP[] = {"union", "intersect", "subtract"};
static bool boolOp(int op, bool a, bool b) { return op == 0 ? a || b : op == 1 ? a && b : a && !b; }
static P2 csg(int op, const P2& a, const P2& b) { return op == 0 ? CSG::csg_union(a, b) : op == 1 ? CSG::csg_intersect(a, b) : CSG::csg_subtract(a, b); }
static std::vector<P2> bop(int op, const P2& a, const P2& b) { return op == 0 ? BG::boost_union(a, b) : op == 1 ? BG::boost_intersect(a, b) : BG::boost_subtract(a, b); }

typedef boost::geometry::model::polygon<Point2<double>, false> BPoly;
static BPoly toBoost(const P2& p) {
  BPoly r; auto at = [&](int i) { return Point2<double>(p.points[2*i], p.points[2*i + 1]); };
  for (auto& f : p.facets) r.outer().push_back(at(f[0]));
  r.outer().push_back(r.outer()[0]); r.inners().resize(p.holes.size());
  for (size_t h = 0; h < p.holes.size(); ++h) { for (auto& f : p.holes[h]) r.inners()[h].push_back(at(f[0])); r.inners()[h].push_back(r.inners()[h][0]); }
  boost::geometry::correct(r); return r;
}
static std::vector<BPoly> boostItself(int op, const P2& a, const P2& b) {
  const BPoly p = toBoost(a), q = toBoost(b); std::vector<BPoly> r;
  if (op == 0) boost::geometry::union_(p, q, r); else if (op == 1) boost::geometry::intersection(p, q, r); else boost::geometry::difference(p, q, r);
  return r;
}
static Edges edgesOf(const BPoly& p) {
  Edges e; auto add = [&](const BPoly::ring_type& r) { for (size_t i = 0; i + 1 < r.size(); ++i) e.push_back({r[i].x, r[i].y, r[i + 1].x, r[i + 1].y}); };
  add(p.outer()); for (auto& h : p.inners()) add(h); return e;
}
static bool sameEdges(Edges a, Edges b) {
  auto k = [](const Edge& e) { return std::make_tuple(e.x0, e.y0, e.x1, e.y1); };
  auto lt = [&](const Edge& x, const Edge& y) { return k(x) < k(y); };
  std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt);
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (k(a[i]) != k(b[i])) return false;
  return true;
}
// ---------------------------------------------------------------- P23
static void booleans2(const std::string& id, const Shape& A, const Shape& B, const Xf& t, LL dx, LL dy, bool holes) {
  const P2 a = make(A, t, 0, 0), b = make(B, t, dx, dy);
  const Edges ea = edgesOf(a), eb = edgesOf(b);
  const double u = t.s*8, tol = 1e-7*u*u;
  auto in = [](int w) { return w % 2 != 0; };
  for (int op = 0; op < 3; ++op) {
    R.describe(mc::fmt("%s %s %s moved by (%lld,%lld), transform %s", A.name, OP[op], B.name, dx, dy, t.name));
    const double want = areaWhere({ea, eb}, u, [&](const std::vector<int>& w) { return boolOp(op, in(w[0]), in(w[1])); });
    if (!holes) {
      P2 c; { mc::Quiet q; c = csg(op, a, b); }
      R.transitions++;
      MC_REQUIRE(R, indicesOk(c) && c.holes.empty(), "csg_%s: bad facets", OP[op]);
      const Edges ec = edgesOf(c);
      const double bad = areaWhere({ea, eb, ec}, u, [&](const std::vector<int>& w) { return w[2] != (boolOp(op, in(w[0]), in(w[1])) ? 1 : 0); });
      MC_CHECK(R, bad <= tol, "csg_%s: the result is wrong on an area of %g (expected area %g)", OP[op], bad/(t.s*t.s), want/(t.s*t.s));
      MC_CHECK(R, closedLoops(ec, 1e-6*u), "csg_%s: the boundary is not closed", OP[op]);
      R.seen(mc::mix(op, (uint64_t)std::llround(want*16/(t.s*t.s)))); R.nontrivial += want > tol;
    }
    if (t.sn == 0) {
      std::vector<P2> v; { mc::Quiet q; v = bop(op, a, b); }
      R.transitions++;
      std::vector<Edges> all = {ea, eb, {}}; bool ok = true, loops = true;
      for (auto& p : v) { if (!indicesOk(p)) { ok = false; break; } Edges e = edgesOf(p); all[2].insert(all[2].end(), e.begin(), e.end()); Edges o; addEdges(o, p, p.facets); loops &= closedLoops(o, 1e-6*u); for (auto& h : p.holes) { Edges g; addEdges(g, p, h); loops &= closedLoops(g, 1e-6*u); } }
      MC_REQUIRE(R, ok, "boost_%s: bad facets", OP[op]);
      // Boost 1.83 itself loses regions that touch in a point: where its own result is wrong only the conversion is judged.
      std::vector<BPoly> bv = boostItself(op, a, b); std::vector<Edges> ball = {ea, eb, {}}; for (auto& p : bv) { Edges e = edgesOf(p); ball[2].insert(ball[2].end(), e.begin(), e.end()); }
      if (areaWhere(ball, u, [&](const std::vector<int>& w) { return in(w[2]) != boolOp(op, in(w[0]), in(w[1])); }) > tol) { R.count("wrong in Boost itself"); MC_CHECK(R, sameEdges(ball[2], all[2]), "boost_%s: not what Boost returned", OP[op]); continue; }
      const double bad = areaWhere(all, u, [&](const std::vector<int>& w) { return in(w[2]) != boolOp(op, in(w[0]), in(w[1])); });
      MC_CHECK(R, bad <= tol, "boost_%s: the result is wrong on an area of %g (expected area %g)", OP[op], bad/(t.s*t.s), want/(t.s*t.s));
      MC_CHECK(R, loops, "boost_%s: a boundary or hole is not closed", OP[op]);
      MC_CHECK(R, want <= tol ? true : !v.empty(), "boost_%s: nothing returned", OP[op]);
    }
    if (op == 1 && t.sn == 0) {
      bool meet; { mc::Quiet q; meet = BG::boost_intersects(a, b); }
      if (want > tol) MC_CHECK(R, meet, "boost_intersects is false for overlapping regions");
      if (want > tol) {
        // a point where two pieces of the intersection touch: one of them is the result, the others are orphans
        std::vector<BPoly> pc = boostItself(1, a, b); std::map<std::pair<double, double>, int> at;
        for (auto& p : pc) for (size_t i = 0; i + 1 < p.outer().size(); ++i) at[{p.outer()[i].x, p.outer()[i].y}]++;
        for (auto& pt : at) if (pt.second > 1) {
          std::vector<P2> orph; P2 c; { mc::Quiet q(false); c = BG::boost_clip(a, b, Point2<double>(pt.first.first, pt.first.second), orph); }
          std::vector<Edges> all = {ea, eb, edgesOf(c)}; for (auto& o : orph) { Edges e = edgesOf(o); all[2].insert(all[2].end(), e.begin(), e.end()); }
          const double bad = areaWhere(all, u, [&](const std::vector<int>& w) { return in(w[2]) != (in(w[0]) && in(w[1])); });
          MC_CHECK(R, bad <= tol, "boost_clip at the touching point of two pieces: result and orphans are wrong on an area of %g", bad/(t.s*t.s));
          R.count("clips at touching points");
        }
        for (LL X = -1; X <= 13; ++X) for (LL Y = -1; Y <= 13; ++Y) {
          const double x = X*0.5 + 0.13, y = Y*0.5 + 0.17; Point2<double> p(t.ox + t.s*x, t.oy + t.s*y);
          auto inside = [&](const Edges& e) { bool r = false; for (auto& g : e) if ((g.y0 > p.y) != (g.y1 > p.y) && p.x < g.x0 + (g.x1 - g.x0)*(p.y - g.y0)/(g.y1 - g.y0)) r = !r; return r; };
          const bool ia = inside(ea), ib = inside(eb);
          bool w; { mc::Quiet q(false); w = BG::boost_within(p, a); }
          MC_CHECK(R, w == ia, "boost_within (%g,%g) = %d", x, y, w);
          if (!ia || !ib) continue;
          std::vector<P2> orph; P2 c; { mc::Quiet q(false); c = BG::boost_clip(a, b, p, orph); }
          R.transitions++;
          MC_REQUIRE(R, indicesOk(c), "boost_clip: bad facets");
          std::vector<Edges> all = {ea, eb, edgesOf(c)}; MC_CHECK(R, inside(all[2]), "boost_clip: the result does not hold the point (%g,%g)", x, y);
          for (auto& o : orph) { MC_REQUIRE(R, indicesOk(o), "boost_clip: bad orphan"); Edges e = edgesOf(o); all[2].insert(all[2].end(), e.begin(), e.end()); }
          const double bad = areaWhere(all, u, [&](const std::vector<int>& w) { return in(w[2]) != (in(w[0]) && in(w[1])); });
          MC_CHECK(R, bad <= tol, "boost_clip: result and orphans are wrong on an area of %g", bad/(t.s*t.s));
          R.count("clips");
        }
      }
    }
  }
}
// -------- 3D reference: convex parts cut by half-spaces, in doubles on integer data
struct V3 { double x, y, z; };
typedef std::vector<std::vector<V3>> Faces;
static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V3 crs(V3 a, V3 b) { return {a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}; }
static double dt3(V3 a, V3 b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
static Faces facesOf(const Poly3& p) { Faces f; for (auto& g : p.f) { std::vector<V3> l; for (int i : g) l.push_back({(double)p.v[i].x, (double)p.v[i].y, (double)p.v[i].z}); f.push_back(l); } return f; }
static void moments(const Faces& f, double m[4]) {   // volume and first moments
  m[0] = m[1] = m[2] = m[3] = 0;
  for (auto& l : f) for (size_t k = 1; k + 1 < l.size(); ++k) {
    const double v = dt3(l[0], crs(l[k], l[k + 1]))/6;
    m[0] += v; m[1] += v*(l[0].x + l[k].x + l[k + 1].x)/4; m[2] += v*(l[0].y + l[k].y + l[k + 1].y)/4; m[3] += v*(l[0].z + l[k].z + l[k + 1].z)/4;
  }
}
static Faces cutBy(const Faces& f, V3 o, V3 n) {   // keeps n.(x-o) <= 0
  Faces r; std::vector<V3> cap;
  for (auto& l : f) {
    std::vector<V3> q;
    for (size_t i = 0; i < l.size(); ++i) {
      V3 a = l[i], b = l[(i + 1) % l.size()]; const double da = dt3(n, a - o), db = dt3(n, b - o);
      if (da <= 1e-12) q.push_back(a);
      if ((da < -1e-12 && db > 1e-12) || (da > 1e-12 && db < -1e-12)) { const double t = da/(da - db); V3 c = {a.x + t*(b.x - a.x), a.y + t*(b.y - a.y), a.z + t*(b.z - a.z)}; q.push_back(c); cap.push_back(c); }
      if (std::abs(da) <= 1e-12) cap.push_back(a);
    }
    bool flat = true; for (auto& v : q) if (std::abs(dt3(n, v - o)) > 1e-12) flat = false;
    if (q.size() >= 3 && !flat) r.push_back(q);
  }
  if (r.empty()) return r;
  std::vector<V3> u; for (auto& c : cap) { bool k = false; for (auto& v : u) { V3 d = v - c; if (dt3(d, d) < 1e-16) k = true; } if (!k) u.push_back(c); }
  if (u.size() >= 3) {
    V3 m = {0, 0, 0}; for (auto& v : u) { m.x += v.x/u.size(); m.y += v.y/u.size(); m.z += v.z/u.size(); }
    V3 e = u[0] - m, g = crs(n, e); const double le = std::sqrt(dt3(e, e)), lg = std::sqrt(dt3(g, g));
    std::sort(u.begin(), u.end(), [&](const V3& a, const V3& b) { return std::atan2(dt3(a - m, g)/lg, dt3(a - m, e)/le) < std::atan2(dt3(b - m, g)/lg, dt3(b - m, e)/le); });
    r.push_back(u);
  }
  return r;
}
struct Solid { const char* name; Poly3 surf; std::vector<Poly3> parts; };
static std::vector<Solid> solids3() {
  std::vector<Solid> s;
  for (auto& p : solids()) s.push_back({p.name, p, {p}});
  auto box = [](LL x0, LL y0, LL z0, LL x1, LL y1, LL z1) { return Poly3{"", {{x0,y0,z0},{x1,y0,z0},{x1,y1,z0},{x0,y1,z0},{x0,y0,z1},{x1,y0,z1},{x1,y1,z1},{x0,y1,z1}}, {{0,3,2,1},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}}; };
  Poly3 L = {"Lprism", {{0,0,0},{4,0,0},{4,2,0},{2,2,0},{2,4,0},{0,4,0},{0,0,2},{4,0,2},{4,2,2},{2,2,2},{2,4,2},{0,4,2}},
             {{0,3,2,1},{0,5,4,3},{6,7,8,9},{6,9,10,11},{0,1,7,6},{1,2,8,7},{2,3,9,8},{3,4,10,9},{4,5,11,10},{5,0,6,11}}};
  s.push_back({"Lprism", L, {box(0,0,0,4,2,2), box(0,2,0,2,4,2)}});
  // a box with extra vertices in the middle of edges, where some facets start
  Poly3 H = {"hang", {{0,0,0},{2,0,0},{2,2,0},{0,2,0},{0,0,4},{2,0,4},{2,2,4},{0,2,4},{1,0,0},{2,0,1},{0,2,3}},
             {{0,3,2,1,8},{4,5,6,7},{0,8,1,9,5,4},{1,2,6,5,9},{2,3,10,7,6},{10,3,0,4,7}}};
  s.push_back({"hang", H, {box(0,0,0,2,2,4)}});
  return s;
}
static P3 plc3(const Poly3& p, double s) { P3 r; for (auto& v : p.v) { r.points.push_back(s*v.x); r.points.push_back(s*v.y); r.points.push_back(s*v.z); } r.facets = p.f; return r; }
static bool facetsOf(const P3& p, Faces& f, double s) {
  for (auto& g : p.facets) { if (g.size() < 3) return false; std::vector<V3> l; for (int i : g) { if (i < 0 || 3*i + 2 >= (int)p.points.size()) return false; l.push_back({p.points[3*i]/s, p.points[3*i + 1]/s, p.points[3*i + 2]/s}); } f.push_back(l); }
  return true;
}
// signed crossings of the ray from p along +x, nudged off the grid: 1 inside, 0 outside
static int windings(const Faces& f, V3 p) {
  int w = 0;
  for (auto& l : f) for (size_t k = 1; k + 1 < l.size(); ++k) {
    const V3 q[3] = {l[0], l[k], l[k + 1]};
    auto side = [&](const V3& a, const V3& b) { return (b.y - a.y)*(p.z - a.z) - (b.z - a.z)*(p.y - a.y); };
    const double s0 = side(q[0], q[1]), s1 = side(q[1], q[2]), s2 = side(q[2], q[0]), A = s0 + s1 + s2;
    if (!((s0 > 0 && s1 > 0 && s2 > 0) || (s0 < 0 && s1 < 0 && s2 < 0))) continue;
    const double x = (q[0].x*s1 + q[1].x*s2 + q[2].x*s0)/A;
    if (x > p.x) w += A > 0 ? 1 : -1;
  }
  return w;
}
static bool inParts(const std::vector<Faces>& parts, V3 p) {
  for (auto& f : parts) { bool in = true; for (auto& l : f) if (dt3(crs(l[1] - l[0], l[2] - l[0]), p - l[0]) > 0) in = false; if (in) return true; }
  return false;
}
static P3 csg(int op, const P3& a, const P3& b) { return op == 0 ? CSG::csg_union(a, b) : op == 1 ? CSG::csg_intersect(a, b) : CSG::csg_subtract(a, b); }
static Solid placeS(const Solid& s, int rot, I3 o) { Solid r = s; r.surf = place(s.surf, rot, o); for (auto& p : r.parts) p = place(p, rot, o); return r; }
static void chain3(const Solid* S, const P3* p, int o1, int o2) {
  std::vector<Faces> part[3]; for (int i = 0; i < 3; ++i) for (auto& q : S[i].parts) part[i].push_back(facesOf(q));
  // moments of the intersections of every subset of the three solids, then of the combination by inclusion and exclusion
  double M[8][4] = {}, m[4], want[4] = {0, 0, 0, 0};
  for (int k = 1; k < 8; ++k) {
    std::vector<Faces> cur; bool first = true;
    for (int i = 0; i < 3; ++i) if (k >> i & 1) {
      if (first) { cur = part[i]; first = false; continue; }
      std::vector<Faces> nx;
      for (auto& f : cur) for (auto& g : part[i]) { Faces c = f; for (auto& l : g) { c = cutBy(c, l[0], crs(l[1] - l[0], l[2] - l[0])); if (c.empty()) break; } if (!c.empty()) nx.push_back(c); }
      cur = nx;
    }
    for (auto& f : cur) { moments(f, m); for (int q = 0; q < 4; ++q) M[k][q] += m[q]; }
  }
  for (int k = 1; k < 8; ++k) {
    int c = 0; for (int j = k; ; j = (j - 1) & k) { const bool v = boolOp(o2, boolOp(o1, j & 1, j & 2), j & 4); if (v) c += (__builtin_popcount(k ^ j) & 1) ? -1 : 1; if (!j) break; }
    for (int q = 0; q < 4; ++q) want[q] += c*M[k][q];
  }
  P3 r; { mc::Quiet q; P3 ab = csg(o1, p[0], p[1]); if (ab.facets.empty()) return; r = csg(o2, ab, p[2]); }
  R.transitions += 2; R.nontrivial++;
  Faces f; MC_REQUIRE(R, facetsOf(r, f, 1), "chain: bad facets");
  moments(f, m);
  for (int k = 0; k < 4; ++k) MC_CHECK(R, std::abs(m[k] - want[k]) < 1e-4*(1 + std::abs(want[k])), "chain: %s is %g instead of %g", k ? "first moment" : "volume", m[k], want[k]);
  R.seen(mc::mix(o1*3 + o2, std::llround(m[0]*1000)));
}
static void booleans3(const Solid& A, const Solid& B, double s) {
  std::vector<Faces> pa, pb; for (auto& p : A.parts) pa.push_back(facesOf(p)); for (auto& p : B.parts) pb.push_back(facesOf(p));
  double va[4] = {0, 0, 0, 0}, vb[4] = {0, 0, 0, 0}, vi[4] = {0, 0, 0, 0}, m[4];
  for (auto& f : pa) { moments(f, m); for (int k = 0; k < 4; ++k) va[k] += m[k]; }
  for (auto& f : pb) { moments(f, m); for (int k = 0; k < 4; ++k) vb[k] += m[k]; }
  for (auto& f : pa) for (auto& g : pb) { Faces c = f; for (auto& l : g) { c = cutBy(c, l[0], crs(l[1] - l[0], l[2] - l[0])); if (c.empty()) break; } moments(c, m); for (int k = 0; k < 4; ++k) vi[k] += m[k]; }
  const P3 a = plc3(A.surf, s), b = plc3(B.surf, s);
  for (int op = 0; op < 3; ++op) {
    P3 c; { mc::Quiet q; c = csg(op, a, b); }
    R.transitions++;
    Faces f; MC_REQUIRE(R, facetsOf(c, f, s), "csg_%s: bad facets", OP[op]);
    moments(f, m);
    for (int k = 0; k < 4; ++k) { const double w = op == 0 ? va[k] + vb[k] - vi[k] : op == 1 ? vi[k] : va[k] - vi[k]; MC_CHECK(R, std::abs(m[k] - w) < 1e-5*(1 + std::abs(w)), "csg_%s: %s is %g instead of %g", OP[op], k ? "first moment" : "volume", m[k], w); }
    for (double x = -7.77; x < 8; x += 1.5) for (double y = -7.83; y < 8; y += 1.5) for (double z = -7.71; z < 8; z += 1.5) {
      const V3 p = {x + 0.0123*y, y + 0.0177*z, z + 0.0191*x}; const bool w = boolOp(op, inParts(pa, p), inParts(pb, p));
      const int g = windings(f, p);
      MC_CHECK(R, g == (w ? 1 : 0), "csg_%s: winding number %d at (%g,%g,%g), which is %s", OP[op], g, p.x, p.y, p.z, w ? "inside" : "outside");
    }
    R.nontrivial += vi[0] > 1e-9; R.seen(mc::mix(op, std::llround(m[0]*1000)*7 + std::llround(m[1]*1000)));
  }
}
static void p23() {
  const bool T = R.thorough();
  for (int holes = 0; holes < 2; ++holes) {
    auto S = shapes(holes);
    for (size_t i = 0; i < S.size(); ++i) for (size_t j = 0; j < S.size(); ++j) for (int t = 0; t < 5; ++t) {
      if (holes && ((S[i].holes.empty() && S[j].holes.empty()) || t == 4)) continue;
      const LL st = T || t == 0 ? 1 : 2;
      for (LL dx = -6; dx <= 6; dx += st) {
        if (!R.begin(mc::fmt("%s:%s:%s:%s:%lld", holes ? "holes" : "plain", S[i].name, S[j].name, XF[t].name, dx))) continue;
        for (LL dy = -6; dy <= 6; dy += T || (t == 0 && !holes) ? 1 : 3) booleans2("", S[i], S[j], XF[t], dx, dy, holes);
        R.end();
      }
    }
  }
  // chains of two operations, and the reduction of three regions
  auto S = shapes(false);
  auto in = [](int w) { return w % 2 != 0; };
  for (size_t i = 0; i < S.size(); ++i) for (size_t j = 0; j < S.size(); ++j) for (size_t k = 0; k < S.size(); ++k) {
    if (!T && (i > 5 || j > 5 || k > 5)) continue;
    if (!R.begin(mc::fmt("chain:%s:%s:%s", S[i].name, S[j].name, S[k].name))) continue;
    const Xf& t = XF[0];
    for (int d1 = 0; d1 < 3; ++d1) for (int d2 = 0; d2 < 3; ++d2) {
      const LL D[3][2] = {{2, 1}, {-1, 3}, {4, 0}}, E[3][2] = {{1, -2}, {3, 2}, {0, 0}};
      const P2 a = make(S[i], t, 0, 0), b = make(S[j], t, D[d1][0], D[d1][1]), c = make(S[k], t, E[d2][0], E[d2][1]);
      const std::vector<Edges> e = {edgesOf(a), edgesOf(b), edgesOf(c)};
      for (int o1 = 0; o1 < 3; ++o1) {
        P2 ab; { mc::Quiet q; ab = csg(o1, a, b); }
        if (ab.facets.empty()) continue;
        for (int o2 = 0; o2 < 3; ++o2) {
          R.describe(mc::fmt("(%s %s %s+(%lld,%lld)) %s %s+(%lld,%lld)", S[i].name, OP[o1], S[j].name, D[d1][0], D[d1][1], OP[o2], S[k].name, E[d2][0], E[d2][1]));
          P2 r; { mc::Quiet q; r = csg(o2, ab, c); }
          R.transitions += 2; R.nontrivial++;
          MC_REQUIRE(R, indicesOk(r), "chain: bad facets");
          std::vector<Edges> g = e; g.push_back(edgesOf(r));
          const double bad = areaWhere(g, 8, [&](const std::vector<int>& w) { return w[3] != (boolOp(o2, boolOp(o1, in(w[0]), in(w[1])), in(w[2])) ? 1 : 0); });
          MC_CHECK(R, bad <= 1e-6, "chain of csg operations is wrong on an area of %g", bad);
        }
      }
      R.describe(mc::fmt("unionReduce of %s, %s+(%lld,%lld), %s+(%lld,%lld)", S[i].name, S[j].name, D[d1][0], D[d1][1], S[k].name, E[d2][0], E[d2][1]));
      std::vector<P2> v; { mc::Quiet q; v = BG::boost_unionReduce(std::vector<P2>{a, b, c}); }
      std::vector<Edges> g = e; g.push_back({}); bool ok = true;
      for (auto& p : v) { ok &= indicesOk(p); if (ok) { Edges x = edgesOf(p); g[3].insert(g[3].end(), x.begin(), x.end()); } }
      MC_REQUIRE(R, ok, "unionReduce: bad facets");
      const double bad = areaWhere(g, 8, [&](const std::vector<int>& w) { return in(w[3]) != (in(w[0]) || in(w[1]) || in(w[2])); });
      MC_CHECK(R, bad <= 1e-6, "boost_unionReduce is wrong on an area of %g", bad);
      R.transitions++;
    }
    R.end();
  }
  auto V = solids3();
  for (size_t i = 0; i < V.size(); ++i) for (size_t j = 0; j < V.size(); ++j) for (int rot = 0; rot < (T ? 6 : 2); ++rot) for (LL ox = -4; ox <= 4; ox += T ? 1 : 2) for (int sc = 0; sc < 3; ++sc) {
    const double s = sc == 0 ? 1 : sc == 1 ? 1./1024 : 1024;
    if (!R.begin(mc::fmt("solid:%s:%s:%d:%lld:%d", V[i].name, V[j].name, rot, ox, sc))) continue;
    for (LL oy = -4; oy <= 4; oy += T ? 2 : 4) for (LL oz = -4; oz <= 4; oz += T ? 2 : 4) {
      R.describe(mc::fmt("%s and %s turned %d moved by (%lld,%lld,%lld) times %g", V[i].name, V[j].name, rot, ox, oy, oz, s));
      booleans3(V[i], placeS(V[j], rot, {ox, oy, oz}), s);
    }
    R.end();
  }
  for (size_t i = 0; i < V.size(); ++i) for (size_t j = 0; j < V.size(); ++j) for (size_t k = 0; k < V.size(); ++k) for (int o1 = 0; o1 < 3; ++o1) for (int o2 = 0; o2 < 3; ++o2) {
    if (!R.begin(mc::fmt("chain3:%s:%s:%s:%d:%d", V[i].name, V[j].name, V[k].name, o1, o2))) continue;
    for (int d1 = 0; d1 < (T ? 4 : 2); ++d1) for (int d2 = 0; d2 < (T ? 4 : 2); ++d2) {
      const I3 D[4] = {{1, 1, -1}, {-1, 0, 1}, {0, 0, 0}, {2, -1, 1}}, E[4] = {{-1, 1, 1}, {1, -1, 0}, {1, 0, 0}, {0, 2, -2}};
      const Solid s[3] = {V[i], placeS(V[j], 1, D[d1]), placeS(V[k], 2, E[d2])};
      const P3 p[3] = {plc3(s[0].surf, 1), plc3(s[1].surf, 1), plc3(s[2].surf, 1)};
      R.describe(mc::fmt("(%s %s %s#%d) %s %s#%d", V[i].name, OP[o1], V[j].name, d1, OP[o2], V[k].name, d2));
      chain3(s, p, o1, o2);
    }
    R.end();
  }
}
int main(int argc, char** argv) {
  R.parse(argc, argv);
  if (R.prop == "P23") p23();
  return R.finish();
}
