// Enumeration of bounded 2D tessellation inputs: domains, generator sets, and
// similarity transforms of both.
#ifndef VERIF_CASES_HH
#define VERIF_CASES_HH
#include "meshcheck.hh"
#include <boost/geometry.hpp>
#include <boost/geometry/geometries/point_xy.hpp>
#include <boost/geometry/geometries/polygon.hpp>
namespace cs {
using mc::fmt;
typedef std::vector<double> Vec;
struct Shape { std::string name; orc::Domain d; };
inline orc::Poly poly(const Vec& v) { orc::Poly p; for (size_t i = 0; i < v.size(); i += 2) p.push_back({v[i], v[i + 1]}); return p; }
// Shapes live in [0,12]^2.
inline const std::vector<Shape>& shapes() {
  static std::vector<Shape> D;
  if (D.empty()) {
    D.push_back({"box", {poly({0,0,12,0,12,12,0,12}), {}}});
    D.push_back({"tri", {poly({0,0,12,0,6,12}), {}}});
    D.push_back({"hex", {poly({3,0,9,0,12,6,9,12,3,12,0,6}), {}}});
    D.push_back({"boxcol", {poly({0,0,6,0,12,0,12,12,0,12,0,5}), {}}});     // collinear boundary vertices
    D.push_back({"boxcw", {poly({0,0,0,12,12,12,12,0}), {}}});              // clockwise outer loop
    D.push_back({"L", {poly({0,0,12,0,12,6,6,6,6,12,0,12}), {}}});
    D.push_back({"U", {poly({0,0,12,0,12,12,8,12,8,3,4,3,4,12,0,12}), {}}});
    D.push_back({"star", {poly({0,0,6,3,12,0,9,6,12,12,6,9,0,12,3,6}), {}}});
    D.push_back({"hole", {poly({0,0,12,0,12,12,0,12}), {poly({4,4,4,8,8,8,8,4})}}});
    D.push_back({"holeT", {poly({0,0,12,0,12,12,0,12}), {poly({3,5,6,9,10,4})}}});
    D.push_back({"hole2", {poly({0,0,12,0,12,12,0,12}), {poly({2,4,2,8,5,8,5,4}), poly({7,4,10,4,10,8,7,8})}}});
    D.push_back({"Lhole", {poly({0,0,12,0,12,7,7,7,7,12,0,12}), {poly({2,2,2,5,5,5,5,2})}}});
  }
  return D;
}
inline const Shape& shape(const std::string& n) { for (auto& s : shapes()) if (s.name == n) return s; abort(); }

// Candidate generators of a shape: variant 0 regular, 1 and 2 tilted lattices.
inline orc::P latticePoint(int variant, int i, int j) {
  switch (variant) {
    case 0: return {1.5L + 3 * i, 1.5L + 3 * j};
    case 1: return {1.1L + 3.07L * i + 0.13L * j, 0.9L + 3.11L * j - 0.17L * i};
    default: return {0.9L + 2.93L * i + 0.41L * j, 2.05L + 2.71L * j - 0.29L * i};
  }
}
inline std::vector<orc::P> candidates(const orc::Domain& d, int variant) {
  std::vector<orc::P> c;
  for (int j = 0; j < 4; ++j) for (int i = 0; i < 4; ++i) {
    orc::P p = latticePoint(variant, i, j);
    if (d.where(p, 1e-3L) == 1) c.push_back(p);
  }
  return c;
}

struct Xf { std::string name; long double s, ang, ox, oy; };
inline const std::vector<Xf>& xforms() {
  static std::vector<Xf> x = {
    {"id", 1, 0, 0, 0}, {"micro", 1e-6L, 0, 0, 0}, {"mega", 1e6L, 0, 0, 0}, {"far", 1, 0, 4000.5L, -7000.25L},
    {"neg", 1, 0, -6, -6}, {"rot", 1, 0.5235987755982988L, 0, 0}, {"rotfar", 37.0L, 1.1L, -900, 411}, {"tiny", 1.0L/64, 0, 0.25L, 0.5L}};
  return x;
}
inline orc::P apply(const Xf& x, orc::P p) {
  long double c = std::cos(x.ang), s = std::sin(x.ang);
  // round to double: these are the numbers the implementation sees
  return {(long double)(double)(x.s * (c * p.x - s * p.y) + x.ox), (long double)(double)(x.s * (s * p.x + c * p.y) + x.oy)};
}

struct Case {
  std::string id;
  orc::Domain dom;
  std::vector<orc::P> gen;
  Vec pts, plcpts;
  polytope::PLC<2, double> plc;
  double lo[2], hi[2];
  double L = 1;            // domain extent
  bool convex = true, axisBox = false;
  void finish() {
    pts.clear(); plcpts.clear(); plc = polytope::PLC<2, double>();
    for (auto p : gen) { pts.push_back(p.x); pts.push_back(p.y); }
    auto add = [&](const orc::Poly& q, std::vector<std::vector<int> >& f) {
      int o = plcpts.size() / 2, n = q.size();
      for (int i = 0; i < n; ++i) { plcpts.push_back(q[i].x); plcpts.push_back(q[i].y); f.push_back({o + i, o + (i + 1) % n}); }
    };
    add(dom.outer, plc.facets);
    plc.holes.resize(dom.holes.size());
    for (size_t h = 0; h < dom.holes.size(); ++h) add(dom.holes[h], plc.holes[h]);
    lo[0] = lo[1] = 1e300; hi[0] = hi[1] = -1e300;
    for (auto p : dom.outer) { lo[0] = std::min<double>(lo[0], p.x); hi[0] = std::max<double>(hi[0], p.x); lo[1] = std::min<double>(lo[1], p.y); hi[1] = std::max<double>(hi[1], p.y); }
    L = std::max(hi[0] - lo[0], hi[1] - lo[1]);
    orc::Domain dd = dom; if (orc::areaRel(dd.outer) < 0) std::reverse(dd.outer.begin(), dd.outer.end());
    convex = dd.convex();
    axisBox = false;
    if (dom.holes.empty() && dom.outer.size() == 4) { axisBox = true; for (auto p : dom.outer) if (!((p.x == lo[0] || p.x == hi[0]) && (p.y == lo[1] || p.y == hi[1]))) axisBox = false; }
  }
  // General position with respect to a nonconvex boundary: no boundary vertex
  // equidistant (to within tol) from two generators, and no hole lying in the
  // Voronoi cell of a single generator (its region would not be simply connected).
  bool generalPosition() const {
    if (convex) return true;
    for (auto v : dom.verts()) for (size_t a = 0; a < gen.size(); ++a) for (size_t b = a + 1; b < gen.size(); ++b)
      if (std::fabs(orc::dist(v, gen[a]) - orc::dist(v, gen[b])) < 1e-6L * L) return false;
    for (auto& h : dom.holes) for (size_t i = 0; i < gen.size(); ++i) {
      bool all = true;
      for (auto v : h) for (size_t j = 0; j < gen.size(); ++j) if (j != i && orc::dist(v, gen[j]) < orc::dist(v, gen[i])) all = false;
      if (all) return false;
    }
    return true;
  }
};
inline orc::Domain transform(const orc::Domain& d, const Xf& x) {
  orc::Domain r = d;
  for (auto& p : r.outer) p = apply(x, p);
  for (auto& h : r.holes) for (auto& p : h) p = apply(x, p);
  return r;
}
inline orc::Domain boxDomain(double a, double b, double c, double d) { return {poly({a, b, c, b, c, d, a, d}), {}}; }

typedef std::function<void(const Case&)> Fn;
// Enumerate cases; `want(id)` decides cheaply whether this process executes it.
struct Enum {
  mc::Run& R;
  Fn f;
  void go(Case& c) {
    c.finish();
    if (!c.generalPosition()) { R.count("outside_general_position"); return; }
    if (!R.begin(c.id)) return;
    R.describe(c.id + fmt(" n=%zu L=%g", c.gen.size(), c.L));
    f(c);
    R.end();
  }
};

// All generator subsets of K x K unit lattices in boxes with the given margins.
inline void latticeBoxes(Enum& E, int K, int maxn, const Vec& margins) {
  for (int n = 1; n <= maxn && n <= K * K; ++n) mc::subsets(K * K, n, [&](const std::vector<int>& s) {
    for (double m : margins) {
      Case c; c.id = fmt("lat%d:%g:%s", K, m, mc::join(s).c_str());
      c.dom = boxDomain(-m, -m, K - 1 + m, K - 1 + m);
      for (int i : s) c.gen.push_back({(long double)(i % K), (long double)(i / K)});
      E.go(c);
    }
  });
}
// All subsets (up to maxn) of the candidate generators of every shape.
inline void shapeSubsets(Enum& E, int maxn, const std::vector<int>& variants, const std::vector<std::string>& names, const std::vector<std::string>& xf) {
  for (auto& sh : shapes()) {
    if (!names.empty() && std::find(names.begin(), names.end(), sh.name) == names.end()) continue;
    for (int v : variants) {
      auto cand = candidates(sh.d, v);
      for (auto& x : xforms()) {
        if (std::find(xf.begin(), xf.end(), x.name) == xf.end()) continue;
        for (int n = 1; n <= maxn; ++n) mc::subsets(cand.size(), n, [&](const std::vector<int>& s) {
          Case c; c.id = fmt("%s:%d:%s:%s", sh.name.c_str(), v, x.name.c_str(), mc::join(s).c_str());
          c.dom = transform(sh.d, x);
          for (int i : s) c.gen.push_back(apply(x, cand[i]));
          E.go(c);
        });
      }
    }
  }
}
// Structured generator sets of increasing size: lattices, hexagonal lattices,
// circles, lines, close pairs, all in a box, a hexagon and an L.
inline void structured(Enum& E, int scale) {
  const int NL = scale ? 24 : 12, NC = scale ? 40 : 20, NLINE = scale ? 60 : 25;
  auto emit = [&](const std::string& id, const orc::Domain& d, const std::vector<orc::P>& g) {
    Case c; c.id = id; c.dom = d; c.gen = g; for (auto& p : c.gen) p = {(long double)(double)p.x, (long double)(double)p.y};
    E.go(c);
  };
  const orc::Domain &box = shape("box").d, &L = shape("L").d, &hex = shape("hex").d;
  for (int n = 1; n <= NL; ++n) {
    for (int m : {1, 2, 3, n}) {
      std::vector<orc::P> g;
      for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) g.push_back({12.0L * (i + 0.5L) / n, 12.0L * (j + 0.5L) / m});
      if (m != n || n > 3) emit(fmt("grid:%dx%d", n, m), box, g);
      std::vector<orc::P> h;
      for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) h.push_back({12.0L * (i + 0.5L + (j % 2 ? 0.2L : -0.2L)) / n, 12.0L * (j + 0.5L) / m});
      if (m > 1 && (m != n || n > 3)) emit(fmt("honey:%dx%d", n, m), box, h);
      std::vector<orc::P> l;
      for (auto p : h) { orc::P q = {p.x * 0.98L + 0.117L, p.y * 0.97L + 0.133L}; if (L.where(q, 0.01L) == 1) l.push_back(q); }
      if (m > 1 && (m != n || n > 3) && !l.empty()) emit(fmt("honeyL:%dx%d", n, m), L, l);
    }
  }
  for (int n = 2; n <= NC; ++n) for (double r : {1.0, 5.0}) for (int ctr = 0; ctr < 2; ++ctr) {
    if (!scale && !ctr && n > 9) continue;
    std::vector<orc::P> g;
    for (int i = 0; i < n; ++i) g.push_back({6 + r * std::cos(2 * M_PIl * i / n + 0.1L), 6 + r * std::sin(2 * M_PIl * i / n + 0.1L)});
    if (ctr) g.push_back({6, 6});
    emit(fmt("circle:%d:%g:%d", n, r, ctr), box, g);
    if (r < 4) emit(fmt("circleHex:%d:%g:%d", n, r, ctr), hex, g);
  }
  for (int n = 2; n <= NLINE; ++n) for (int k = 0; k < 3; ++k) {
    std::vector<orc::P> g;
    for (int i = 0; i < n; ++i) { long double t = (i + 0.5L) / n; g.push_back(k == 0 ? orc::P{12 * t, 5} : k == 1 ? orc::P{12 * t, 12 * t} : orc::P{1 + 10 * t, 2 + 3.3L * t}); }
    emit(fmt("line:%d:%d", n, k), box, g);
  }
  for (int k = 1; k <= 6; ++k) for (int q = 0; q < 8; ++q) {
    long double e = 12 * std::pow(10.0L, -k), a = q * M_PIl / 4 + 0.05L;
    std::vector<orc::P> g = {{5, 7}, {5 + e * std::cos(a), 7 + e * std::sin(a)}};
    emit(fmt("pair:%d:%d", k, q), box, g);
    if (k <= 4) { g.push_back({9, 3}); g.push_back({2, 2}); emit(fmt("pair+2:%d:%d", k, q), box, g); }
  }
}

// Domains much longer than they are wide (and the converse): boxes, slanted
// quadrilaterals and wedges, generators in lines, zigzags and clusters at one end.
// The wedges' sharp tips amplify rounding, so comparisons of positions leave them out.
inline void slender(Enum& E, int scale, bool wedges = true) {
  const std::vector<double> asp = scale ? std::vector<double>{3, 12, 100, 400, 1000} : std::vector<double>{12, 400};
  for (double a : asp) for (int up = 0; up < 2; ++up) for (int sh = 0; sh < 4; ++sh) for (int gp = 0; gp < 4; ++gp) for (int n = 1; n <= (scale ? 12 : 7); ++n) {
    if ((gp == 1 && n < 2) || (sh == 2 && !wedges)) continue;
    Case c; c.id = fmt("slender:%g:%d:%d:%d:%d", a, up, sh, gp, n);
    orc::Poly q = sh == 0 ? poly({0, 0, a, 0, a, 1, 0, 1}) : sh == 1 ? poly({0.003 * a, 0.1, a, 0, 0.997 * a, 0.9, 0, 1.1}) : sh == 2 ? poly({0, 0, a, 0.45, 0.01 * a, 1}) : poly({0, 0, a / 3, 0.02, a, 0, a, 1, a / 2, 0.93, 0, 1});
    std::vector<orc::P> g;
    for (int i = 0; i < n; ++i) {
      double t = (i + 0.41) / n * (sh == 2 ? 0.6 : 0.98);
      if (gp == 0) g.push_back({(sh == 2 ? 0.03L : 0.01L) * a + t * a, sh == 2 ? 0.47L : 0.5L});
      if (gp == 1) g.push_back({(sh == 2 ? 0.03L : 0.01L) * a + t * a, (sh == 2 ? 0.47L : 0.5L) + (i % 2 ? 0.11L : -0.13L)});
      if (gp == 2) g.push_back({0.03L * a + 0.2L * (i / 2), sh == 2 ? 0.45L + 0.11L * (i % 2) : 0.31L + 0.4L * (i % 2)});
      if (gp == 3) g.push_back({(sh == 2 ? 0.5L : 0.93L) * a + (i % 3) * 0.017L * a, 0.46L + 0.03L * i / 3});
    }
    c.dom.outer = q;
    if (up) { for (auto& p : c.dom.outer) { std::swap(p.x, p.y); p.x = -p.x; } for (auto& p : g) { std::swap(p.x, p.y); p.x = -p.x; } }
    for (auto& p : g) p = {(long double)(double)p.x, (long double)(double)p.y};
    for (auto& p : c.dom.outer) p = {(long double)(double)p.x, (long double)(double)p.y};
    bool in = true; for (auto p : g) in &= c.dom.where(p, 1e-4L) == 1;
    if (!in) continue;
    c.gen = g; E.go(c);
  }
}

// ---- component of V_i ∩ D containing the generator, via Boost.Geometry -----
namespace bgm = boost::geometry::model;
typedef bgm::d2::point_xy<double> BP;
typedef bgm::polygon<BP, false, false> BPoly;
typedef bgm::multi_polygon<BPoly> BMulti;
struct Comp { bool ok = false; double total = 0, own = 0, orphan = 0; int n = 0; bool simple = true; };
inline Comp component(const Case& c, size_t i) {
  namespace bg = boost::geometry;
  Comp r;
  // shift to the origin and scale to unit size for robustness
  auto T = [&](orc::P p) { return BP((p.x - c.lo[0]) / c.L, (p.y - c.lo[1]) / c.L); };
  BPoly D; for (auto p : c.dom.outer) D.outer().push_back(T(p));
  D.inners().resize(c.dom.holes.size());
  for (size_t h = 0; h < c.dom.holes.size(); ++h) for (auto p : c.dom.holes[h]) D.inners()[h].push_back(T(p));
  bg::correct(D);
  orc::Poly big = {{c.lo[0] - c.L, c.lo[1] - c.L}, {c.hi[0] + c.L, c.lo[1] - c.L}, {c.hi[0] + c.L, c.hi[1] + c.L}, {c.lo[0] - c.L, c.hi[1] + c.L}};
  orc::Poly v = orc::vorClip(c.gen, i, big);
  BPoly V; for (auto p : v) V.outer().push_back(T(p));
  bg::correct(V);
  BMulti out; bg::intersection(D, V, out);
  BP g = T(c.gen[i]);
  for (auto& q : out) {
    double a = bg::area(q) * c.L * c.L;
    if (a < 1e-13 * c.L * c.L) continue;
    ++r.n; r.total += a;
    if (bg::covered_by(g, q)) { r.own += a; if (!q.inners().empty()) r.simple = false; } else r.orphan += a;
  }
  // self-check of the oracle against exact half-plane clipping
  orc::Poly s = c.dom.outer; if (orc::areaRel(s) < 0) std::reverse(s.begin(), s.end());
  long double want = orc::areaRel(orc::vorClip(c.gen, i, s));
  for (auto h : c.dom.holes) { if (orc::areaRel(h) < 0) std::reverse(h.begin(), h.end()); want -= orc::areaRel(orc::vorClip(c.gen, i, h)); }
  r.ok = std::fabs(want - r.total) < 1e-9 * c.L * c.L && r.own > 0;
  return r;
}
// the exact area of V_i ∩ D by signed clipping
inline long double vorArea(const Case& c, size_t i) {
  orc::Poly s = c.dom.outer; if (orc::areaRel(s) < 0) std::reverse(s.begin(), s.end());
  long double want = orc::areaRel(orc::vorClip(c.gen, i, s));
  for (auto h : c.dom.holes) { if (orc::areaRel(h) < 0) std::reverse(h.begin(), h.end()); want -= orc::areaRel(orc::vorClip(c.gen, i, h)); }
  return want;
}
} // namespace cs
#endif
