// P18 convex hulls, P19 boundary queries, P20 convex set predicates, P21 exact predicates, P22 geometric measures.
// Inputs are enumerated on small integer grids, where exact integer arithmetic is the reference.
#include "polytope.hh"
#include "within.hh"
#include "intersect.hh"
#include "nearestPoint.hh"
#include "convexWithin.hh"
#include "convexHull_2d.hh"
#include "convexIntersect.hh"
#include <boost/multiprecision/cpp_int.hpp>
#include "mc.hh"
#include "geomref.hh"
using namespace polytope;
typedef boost::multiprecision::cpp_int Big;
extern double exactinit();
extern double orient2d(double*, double*, double*);
extern double orient3d(double*, double*, double*, double*);
extern double incircle(double*, double*, double*, double*);
extern double insphere(double*, double*, double*, double*, double*);
static mc::Run R;
// ------------------------------------------------------------------ P18
struct Xf { const char* name; double s, ox, oy, c, sn; };
static const Xf XF[] = {{"id", 1, 0, 0, 1, 0}, {"off", 1, 1000, -2000, 1, 0}, {"tiny", 1e-6, 0, 0, 1, 0}, {"huge", 1e6, 0, 0, 1, 0},
                        {"rot", 1, 0.3, 0.7, 0.8, 0.6}, {"rotoff", 37.7, -512.5, 77.25, -0.28, 0.96}};
static void hullCase(const std::string& id, const std::vector<I2>& p, const Xf& t, double reldx, const std::vector<int>& jitter) {
  if (!R.begin(id)) return;
  R.describe(mc::fmt("%s transform %s dx %g", str(p).c_str(), t.name, reldx));
  const int n = p.size();
  std::vector<double> pts(2*n);
  LL lo = 1e9, hi = -1e9, lo2 = 1e9, hi2 = -1e9;
  for (auto& q : p) { lo = std::min(lo, q.x); hi = std::max(hi, q.x); lo2 = std::min(lo2, q.y); hi2 = std::max(hi2, q.y); }
  const double ext = std::max<double>(1, std::max(hi - lo, hi2 - lo2)) * t.s, dx = t.sn == 0 && t.s == 1 ? std::exp2(std::floor(std::log2(reldx*ext))) : reldx*ext;
  for (int i = 0; i < n; ++i) {
    double x = p[i].x, y = p[i].y;
    pts[2*i] = t.ox + t.s*(t.c*x - t.sn*y); pts[2*i + 1] = t.oy + t.s*(t.sn*x + t.c*y);
    if (!jitter.empty() && jitter[i]) { pts[2*i] += 0.3*dx*((jitter[i] & 1) ? 1 : -1); pts[2*i + 1] += 0.3*dx*((jitter[i] & 2) ? 1 : -1); }
  }
  double low[2] = {1e300, 1e300};
  for (int i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) low[k] = std::min(low[k], pts[2*i + k]);
  PLC<2, double> plc;
  { mc::Quiet q; plc = convexHull_2d(pts, low, dx); }
  R.transitions++;
  std::vector<I2> h = hullI(p);
  std::vector<I2> got;
  for (auto& f : plc.facets) {
    MC_REQUIRE(R, f.size() == 2 && f[0] >= 0 && f[0] < n && f[1] >= 0 && f[1] < n, "bad facet index");
    got.push_back(p[f[0]]);
  }
  MC_REQUIRE(R, plc.holes.empty(), "hull with holes");
  const int m = plc.facets.size();
  if (h.size() <= 2) {
    MC_REQUIRE(R, m == 1, "collinear points: %d facets instead of one", m);
    std::vector<I2> e = {p[plc.facets[0][0]], p[plc.facets[0][1]]}; std::sort(e.begin(), e.end());
    std::vector<I2> w = {h.front(), h.back()}; std::sort(w.begin(), w.end());
    MC_CHECK(R, e == w, "segment hull %s instead of %s", str(e).c_str(), str(w).c_str());
    MC_CHECK(R, h.size() > 1 || !jitter.empty() || plc.facets[0][0] == plc.facets[0][1] || n == 2, "hull of one position is not a point");
  } else {
    for (int i = 0; i < m; ++i) MC_CHECK(R, plc.facets[i][1] == plc.facets[(i + 1) % m][0], "facets do not form a loop");
    // same cycle up to rotation
    std::vector<I2> g = got;
    auto it = std::min_element(g.begin(), g.end()); std::rotate(g.begin(), it, g.end());
    std::vector<I2> w = h; std::rotate(w.begin(), std::min_element(w.begin(), w.end()), w.end());
    if (t.sn != 0 || t.s != 1) {   // with t.s == 1 the positions are multiples of dx
      // rounding to the grid bends straight sides: points of a side may stay as corners
      std::vector<I2> strict;
      for (auto& q : g) {
        if (std::find(w.begin(), w.end(), q) != w.end()) { strict.push_back(q); continue; }
        bool on = false;
        for (size_t i = 0; i < w.size(); ++i) if (crossI(w[i], w[(i + 1) % w.size()], q) == 0) on = true;
        MC_CHECK(R, on, "hull %s has a point inside %s", str(g).c_str(), str(w).c_str());
      }
      g = strict;
    }
    MC_CHECK(R, g == w, "hull %s instead of %s", str(g).c_str(), str(w).c_str());
    R.nontrivial++;
  }
  uint64_t z = 7; for (auto& q : got) z = mc::mix(z, q.x*100 + q.y);
  R.seen(mc::mix(z, m)); R.end();
}
static void p18() {
  std::vector<I2> grid;
  const bool T = R.thorough();
  const int W = 4, maxk = T ? 7 : 6;
  for (int x = 0; x < W; ++x) for (int y = 0; y < W; ++y) grid.push_back({x, y});
  for (int k = 1; k <= maxk; ++k)
    mc::subsets(grid.size(), k, [&](const std::vector<int>& c) {
      std::vector<I2> p; for (int i : c) p.push_back(grid[i]);
      const std::string base = mc::join(c, ".");
      for (int t = 0; t < 6; ++t) if (k <= 4 || t == 0 || (T && k <= 6)) {
        hullCase(mc::fmt("%s:%s:a", base.c_str(), XF[t].name), p, XF[t], 1e-8, {});
        if (k < 3) continue;
        std::vector<I2> r(p.rbegin(), p.rend());
        hullCase(mc::fmt("%s:%s:r", base.c_str(), XF[t].name), r, XF[t], 1e-8, {});
        if (t == 0 || t == 4) {
          std::vector<I2> m; for (int i = 0; i < k; ++i) m.push_back(p[(i*2 + 1) % k]); // rotated order (k odd), with repeats otherwise
          if (k % 2 == 0) m.insert(m.end(), p.begin(), p.end());
          hullCase(mc::fmt("%s:%s:m", base.c_str(), XF[t].name), m, XF[t], 1e-8, {});
        }
      }
      // each point repeated, exactly and within the tolerance
      if (k <= (T ? 5 : 4)) for (int i = 0; i < k; ++i) for (int pos = 0; pos < 2; ++pos) for (int j = 0; j < 5; ++j) {
        std::vector<I2> d = p; std::vector<int> jit(k, 0);
        d.insert(pos ? d.end() : d.begin(), p[i]); jit.insert(pos ? jit.end() : jit.begin(), j);
        hullCase(mc::fmt("%s:dup%d%s%d", base.c_str(), i, pos ? "e" : "b", j), d, XF[0], 1e-8, jit);
      }
    });
  // all orders of small sets
  for (int k = 3; k <= (T ? 5 : 4); ++k)
    mc::subsets(9, k, [&](const std::vector<int>& c) {
      std::vector<int> o = c;
      do { std::vector<I2> p; for (int i : o) p.push_back({i/3, i%3}); hullCase("perm:" + mc::join(o, "."), p, XF[0], 1e-8, {}); } while (std::next_permutation(o.begin(), o.end()));
    });
  // wide and flat sets at several tolerances and scales: a hull that is 1/aspect as high as wide is still two-dimensional
  for (int a : {10, 100, 1000, 10000})
    for (int t = 0; t < 6; ++t)
      for (int e = 6; e <= 9; ++e)
        for (int k = 3; k <= 5; ++k)
          mc::subsets(8, k, [&](const std::vector<int>& c) {
            std::vector<I2> p; for (int i : c) p.push_back({(i % 4)*(LL)a/3, (LL)(i / 4)});
            if (hullI(p).size() < 3) return;
            hullCase(mc::fmt("flat%d:%s:%d:%s", a, XF[t].name, e, mc::join(c, ".").c_str()), p, XF[t], std::pow(10., -e), {});
          });
}

// ------------------------------------------------------------------ P19
struct Shape { const char* name; std::vector<I2> out; std::vector<std::vector<I2>> holes; };
static std::vector<Shape> shapes() {
  std::vector<Shape> s;
  s.push_back({"square", {{0,0},{6,0},{6,6},{0,6}}, {}});
  s.push_back({"tri", {{0,0},{6,1},{2,6}}, {}});
  s.push_back({"cw", {{0,6},{6,6},{6,0},{0,0}}, {}});
  s.push_back({"L", {{0,0},{6,0},{6,2},{2,2},{2,6},{0,6}}, {}});
  s.push_back({"notch", {{0,0},{6,0},{6,6},{3,3},{0,6}}, {}});
  s.push_back({"coll", {{0,0},{3,0},{6,0},{6,3},{6,6},{0,6},{0,2}}, {}});
  s.push_back({"star", {{0,3},{2,2},{3,0},{4,2},{6,3},{4,4},{3,6},{2,4}}, {}});
  s.push_back({"hole", {{0,0},{6,0},{6,6},{0,6}}, {{{2,2},{4,2},{4,4},{2,4}}}});
  s.push_back({"holetri", {{0,0},{6,0},{6,6},{0,6}}, {{{1,1},{1,5},{3,3}}}});
  s.push_back({"hole2", {{0,0},{6,0},{6,6},{0,6}}, {{{1,1},{2,1},{2,2},{1,2}}, {{4,3},{5,5},{3,4}}}});
  s.push_back({"comb", {{0,0},{6,0},{6,5},{5,5},{5,2},{4,2},{4,5},{3,5},{3,2},{1,2},{1,5},{0,5}}, {}});
  s.push_back({"hole3", {{0,0},{6,0},{6,6},{0,6}}, {{{1,1},{2,1},{3,2},{3,3},{2,3},{1,2}}, {{4,1},{5,1},{5,2}}, {{3,5},{4,4},{5,4},{5,5},{4,5}}}});
  // one to three holes of every kind in three places (the names are kept for the run)
  static std::vector<std::string> names;
  const std::vector<std::vector<I2>> kinds = {{{0,0},{1,0},{0,1}}, {{0,1},{1,1},{1,0}}, {{0,0},{1,0},{2,1},{1,1}}, {{0,0},{1,0},{2,1},{2,2},{1,2},{0,1}}, {{0,0},{2,0},{1,1},{2,2},{0,2}}, {{0,2},{1,2},{2,2},{2,1},{2,0},{1,0},{0,0},{0,1}}};
  const I2 at[3] = {{1,1},{4,2},{1,4}};
  const int K = kinds.size(); names.clear(); names.reserve(400);
  for (int c = 1; c < (K + 1)*(K + 1)*(K + 1); ++c) {
    Shape q; q.out = {{0,0},{7,0},{7,7},{0,7}}; int k[3] = {c % (K + 1), c/(K + 1) % (K + 1), c/(K + 1)/(K + 1)};
    for (int i = 0; i < 3; ++i) if (k[i]) { std::vector<I2> h; for (auto& v : kinds[k[i] - 1]) h.push_back({v.x + at[i].x, v.y + at[i].y}); q.holes.push_back(h); }
    names.push_back(mc::fmt("holes%d%d%d", k[0], k[1], k[2])); q.name = names.back().c_str(); s.push_back(q);
  }
  return s;
}
static bool simpleI(const std::vector<I2>& l) {
  const int n = l.size();
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
    I2 a = l[i], b = l[(i + 1) % n], c = l[j], d = l[(j + 1) % n];
    const LL s1 = crossI(a, b, c), s2 = crossI(a, b, d), s3 = crossI(c, d, a), s4 = crossI(c, d, b);
    auto on = [](I2 p, I2 q, I2 r) { return crossI(p, q, r) == 0 && std::min(p.x, q.x) <= r.x && r.x <= std::max(p.x, q.x) && std::min(p.y, q.y) <= r.y && r.y <= std::max(p.y, q.y); };
    const bool nb = j == i + 1 || (i == 0 && j == n - 1);
    if (nb) { I2 x = j == i + 1 ? d : c, y = j == i + 1 ? a : b; if (on(a, b, x) || on(c, d, y)) return false; continue; }
    if (((s1 > 0) != (s2 > 0) && s1 && s2 && (s3 > 0) != (s4 > 0) && s3 && s4) || on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b)) return false;
  }
  return true;
}
// Ways to write the same boundary.
static void present(const Shape& s, int how, std::vector<double>& pts, PLC<2, double>& plc) {
  std::vector<std::vector<I2>> loops(1, s.out); loops.insert(loops.end(), s.holes.begin(), s.holes.end());
  std::vector<std::vector<int>> idx(loops.size());
  std::vector<I2> all;
  if (how == 3) for (int l = (int)loops.size() - 1; l >= 0; --l) { idx[l].resize(loops[l].size()); for (size_t i = loops[l].size(); i-- > 0;) { idx[l][i] = all.size(); all.push_back(loops[l][i]); } }
  else if (how == 4) { // interleaved storage: even vertices of all loops first
    for (size_t l = 0; l < loops.size(); ++l) idx[l].resize(loops[l].size());
    for (int par = 0; par < 2; ++par) for (size_t l = 0; l < loops.size(); ++l) for (size_t i = par; i < loops[l].size(); i += 2) { idx[l][i] = all.size(); all.push_back(loops[l][i]); }
  }
  else for (size_t l = 0; l < loops.size(); ++l) for (auto& q : loops[l]) { idx[l].push_back(all.size()); all.push_back(q); }
  for (auto& q : all) { pts.push_back(q.x); pts.push_back(q.y); }
  plc.holes.resize(s.holes.size());
  for (size_t l = 0; l < loops.size(); ++l) {
    auto& f = l ? plc.holes[l - 1] : plc.facets;
    const int n = idx[l].size();
    for (int i = 0; i < n; ++i) {
      int k = how == 1 ? (i + 2) % n : how == 2 ? n - 1 - i : i;
      int a = idx[l][k], b = idx[l][how == 2 ? (k + n - 1) % n : (k + 1) % n];
      if (how == 5 && i % 2) std::swap(a, b);
      f.push_back({a, b});
    }
    if (how == 5) std::rotate(f.begin(), f.begin() + n/2, f.end()), std::swap(f[0], f[n - 2]);   // any order, any direction
  }
}
// position of q (coordinates times D) relative to a loop: 0 out, 1 in, 2 on
static int locate(const std::vector<I2>& l, I2 q, LL D) {
  bool in = false;
  for (size_t i = 0; i < l.size(); ++i) {
    I2 a = {l[i].x*D, l[i].y*D}, b = {l[(i + 1) % l.size()].x*D, l[(i + 1) % l.size()].y*D};
    LL c = crossI(a, b, q);
    if (c == 0 && std::min(a.x, b.x) <= q.x && q.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= q.y && q.y <= std::max(a.y, b.y)) return 2;
    if ((a.y > q.y) != (b.y > q.y)) { if ((c > 0) == (b.y > a.y)) in = !in; }
  }
  return in;
}
struct Fr { LL n, d; bool operator<(const Fr& o) const { return n*o.d < o.n*d; } bool operator==(const Fr& o) const { return n*o.d == o.n*d; } };
// crossing of segment pq with ab; 0 none, 1 point (fractions of D), 2 overlap or parallel touch
static int crossing(I2 p, I2 q, I2 a, I2 b, Fr& x, Fr& y) {
  LL rx = q.x - p.x, ry = q.y - p.y, sx = b.x - a.x, sy = b.y - a.y, den = rx*sy - ry*sx;
  LL tn = (a.x - p.x)*sy - (a.y - p.y)*sx, un = (a.x - p.x)*ry - (a.y - p.y)*rx;
  if (den == 0) {
    if (tn != 0 || un != 0) return 0;
    if (std::max(p.x, q.x) < std::min(a.x, b.x) || std::max(a.x, b.x) < std::min(p.x, q.x) || std::max(p.y, q.y) < std::min(a.y, b.y) || std::max(a.y, b.y) < std::min(p.y, q.y)) return 0;
    return 2;
  }
  if (den < 0) { den = -den; tn = -tn; un = -un; }
  if (tn < 0 || tn > den || un < 0 || un > den) return 0;
  x = {p.x*den + tn*rx, den}; y = {p.y*den + tn*ry, den};
  return 1;
}
static void p19() {
  const bool T = R.thorough();
  const LL D = T ? 4 : 2;                    // query points on a grid of spacing 1/D
  auto S = shapes();
  { // all simple polygons of 3 to 5 (6) vertices of a 4x4 (3x3 for 6) lattice
    static std::vector<std::string> names; names.clear(); names.reserve(2000000); int id = 0;
    for (int n = 3; n <= (T ? 6 : 5); ++n) { const int L = n == 6 ? 3 : n == 5 && !T ? 3 : 4; mc::subsets(L*L, n, [&](const std::vector<int>& c) {
      std::vector<int> o(c); 
      do {
        if (o[1] > o[n - 1]) continue;                       // one direction of each
        std::vector<I2> l; for (int i : o) l.push_back({2*(i % L), 2*(i/L)});
        if (!simpleI(l)) continue;
        if (id++ & 1) std::reverse(l.begin(), l.end());
        names.push_back("poly" + mc::join(o, "-")); S.push_back({names.back().c_str(), l, {}});
      } while (std::next_permutation(o.begin() + 1, o.end()));
    }); }
  }
  for (auto& s : S) for (int how = 0; how < 9; ++how) {
    const bool plain = s.name[0] != 'p' && strncmp(s.name, "holes", 5);
    if (!plain && how && how != 1 + int(mc::fnv(s.name) % 8)) continue;   // the plain one and another one
    // presentations 6-8 are the plain one in other units or off the origin; the factors are exact
    const double sc = how == 6 ? 1./(1 << 20) : how == 7 ? 1 << 20 : 1, of = how == 8 ? 4096 : 0;
    std::vector<double> pts; PLC<2, double> plc; present(s, how < 6 ? how : 0, pts, plc);
    for (auto& v : pts) v = v*sc + of;
    const unsigned nv = pts.size()/2;
    std::vector<std::vector<I2>> loops(1, s.out); loops.insert(loops.end(), s.holes.begin(), s.holes.end());
    for (LL X = -D; X <= 7*D; ++X) {
      if (!R.begin(mc::fmt("point:%s:%d:%lld/%lld", s.name, how, X, D))) continue;
      for (LL Y = -D; Y <= 7*D; ++Y) {
        I2 q = {X, Y}; double p[2] = {double(X)/D, double(Y)/D}; double ps[2] = {p[0]*sc + of, p[1]*sc + of};
        R.describe(mc::fmt("%s, presentation %d, point (%g,%g)", s.name, how, p[0], p[1]));
        bool want = locate(s.out, q, D) != 0;
        for (auto& h : s.holes) if (locate(h, q, D) == 1) want = false;
        bool got; { mc::Quiet z(false); got = within(ps, nv, &pts[0], plc); }
        MC_CHECK(R, got == want, "within(%g,%g) says %d, is %d", p[0], p[1], got, want);
        long double best = 1e30L;
        for (auto& l : loops) for (size_t i = 0; i < l.size(); ++i) {
          I2 a = l[i], b = l[(i + 1) % l.size()];
          long double ux = b.x - a.x, uy = b.y - a.y, t = ((p[0] - a.x)*ux + (p[1] - a.y)*uy)/(ux*ux + uy*uy);
          t = std::max(0.0L, std::min(1.0L, t));
          best = std::min(best, std::hypot(p[0] - a.x - t*ux, p[1] - a.y - t*uy));
        }
        double r[2] = {1e30, 1e30}; const double d = nearestPoint(ps, nv, &pts[0], plc, r)/sc; r[0] = (r[0] - of)/sc; r[1] = (r[1] - of)/sc;
        MC_CHECK(R, std::abs((double)(d - best)) < 1e-11, "nearestPoint(%g,%g) distance %g, is %g", p[0], p[1], d, (double)best);
        MC_CHECK(R, std::abs(std::hypot(r[0] - p[0], r[1] - p[1]) - d) < 1e-11, "nearestPoint(%g,%g): returned point is not at the returned distance", p[0], p[1]);
        long double on = 1e30L;
        for (auto& l : loops) for (size_t i = 0; i < l.size(); ++i) {
          I2 a = l[i], b = l[(i + 1) % l.size()];
          long double ux = b.x - a.x, uy = b.y - a.y, t = ((r[0] - a.x)*ux + (r[1] - a.y)*uy)/(ux*ux + uy*uy);
          t = std::max(0.0L, std::min(1.0L, t));
          on = std::min(on, std::hypot(r[0] - a.x - t*ux, r[1] - a.y - t*uy));
        }
        MC_CHECK(R, on < 1e-11, "nearestPoint(%g,%g): returned point (%g,%g) is off the boundary", p[0], p[1], r[0], r[1]);
        R.transitions += 2;
        R.seen(mc::mix(mc::fnv(s.name), (X + 99)*1000 + Y + 99)); R.nontrivial++;
      }
      R.end();
    }
    // Segments between grid points.
    const LL st = T ? (plain ? 1 : 2) : plain ? 2 : 4;
    if (!plain && how) continue;
    for (LL ax = -1; ax <= 7; ax += 1) for (LL ay = -1; ay <= 7; ay += st) {
      if (!R.begin(mc::fmt("segment:%s:%d:%lld,%lld", s.name, how, ax, ay))) continue;
      for (LL bx = -1; bx <= 7; ++bx) for (LL by = -1; by <= 7; ++by) if ((bx != ax || by != ay) && (plain || T || (bx + by) % 2)) {
        R.describe(mc::fmt("%s, presentation %d, segment (%lld,%lld)-(%lld,%lld)", s.name, how, ax, ay, bx, by));
        std::set<std::pair<Fr, Fr>> want; bool overlap = false;
        for (auto& l : loops) for (size_t i = 0; i < l.size(); ++i) {
          Fr x, y; int c = crossing({ax, ay}, {bx, by}, l[i], l[(i + 1) % l.size()], x, y);
          if (c == 2) overlap = true;
          if (c == 1) want.insert({x, y});
        }
        if (overlap) { R.count("segments along the boundary (not decided)"); continue; }
        double p1[2] = {ax*sc + of, ay*sc + of}, p2[2] = {bx*sc + of, by*sc + of};
        std::vector<double> res; const unsigned n = intersect(p1, p2, nv, &pts[0], plc, res); for (auto& v : res) v = (v - of)/sc;
        R.transitions++;
        MC_CHECK(R, n == want.size(), "intersect (%lld,%lld)-(%lld,%lld): %u intersections, there are %zu", ax, ay, bx, by, n, want.size());
        if (R.failedThis) continue;
        MC_CHECK(R, res.size() == 2*n, "intersect returns %zu coordinates for %u points", res.size(), n);
        for (auto& w : want) {
          bool f = false;
          for (unsigned k = 0; k < n; ++k) if (std::abs(res[2*k] - double(w.first.n)/w.first.d) < 1e-6 && std::abs(res[2*k + 1] - double(w.second.n)/w.second.d) < 1e-6) f = true;
          MC_CHECK(R, f, "intersect (%lld,%lld)-(%lld,%lld) misses (%g,%g)", ax, ay, bx, by, double(w.first.n)/w.first.d, double(w.second.n)/w.second.d);
        }
        R.seen(mc::mix(mc::fnv(s.name), ((ax*10 + ay)*10 + bx)*10 + by)); R.nontrivial += n > 0;
      }
      R.end();
    }
  }
}

// ------------------------------------------------------------------ P20
static ReducedPLC<2, double> rplc(const std::vector<I2>& h, const Xf& t) {
  ReducedPLC<2, double> r;
  const int n = h.size();
  for (auto& q : h) { r.points.push_back(t.ox + t.s*(t.c*q.x - t.sn*q.y)); r.points.push_back(t.oy + t.s*(t.sn*q.x + t.c*q.y)); }
  for (int i = 0; i < n; ++i) r.facets.push_back({i, (i + 1) % n});
  return r;
}
static bool sepI(const std::vector<I2>& a, const std::vector<I2>& b) {  // an edge of a strictly separates
  for (size_t i = 0; i < a.size(); ++i) {
    bool all = true;
    for (auto& q : b) if (crossI(a[i], a[(i + 1) % a.size()], q) >= 0) all = false;
    if (all) return true;
  }
  return false;
}
static ReducedPLC<3, double> rplc3(const Poly3& p, double s) {
  ReducedPLC<3, double> r;
  for (auto& v : p.v) { r.points.push_back(s*v.x); r.points.push_back(s*v.y); r.points.push_back(s*v.z); }
  r.facets = p.f;
  return r;
}
static bool disjoint3(const Poly3& a, const Poly3& b) {   // exact separating axis test: true if strictly separated
  std::vector<I3> axes;
  auto norms = [&](const Poly3& p) { for (auto& f : p.f) axes.push_back(cr(sub(p.v[f[1]], p.v[f[0]]), sub(p.v[f[2]], p.v[f[0]]))); };
  auto edges = [&](const Poly3& p) { std::vector<I3> e; for (auto& f : p.f) for (size_t i = 0; i < f.size(); ++i) e.push_back(sub(p.v[f[(i + 1) % f.size()]], p.v[f[i]])); return e; };
  norms(a); norms(b);
  for (auto& x : edges(a)) for (auto& y : edges(b)) { I3 c = cr(x, y); if (c.x || c.y || c.z) axes.push_back(c); }
  for (auto& n : axes) {
    LL a0 = 1LL << 60, a1 = -a0, b0 = a0, b1 = -a0;
    for (auto& v : a.v) { a0 = std::min(a0, dt(n, v)); a1 = std::max(a1, dt(n, v)); }
    for (auto& v : b.v) { b0 = std::min(b0, dt(n, v)); b1 = std::max(b1, dt(n, v)); }
    if (a1 < b0 || b1 < a0) return true;
  }
  return false;
}
static void p20() {
  const bool T = R.thorough();
  // all convex polygons on a 3x3 (4x4) grid, pairwise under offsets
  std::set<std::vector<std::pair<LL, LL>>> seen; std::vector<std::vector<I2>> H;
  const int W = T ? 4 : 3;
  for (int k = 3; k <= 5; ++k) mc::subsets(W*W, k, [&](const std::vector<int>& c) {
    std::vector<I2> p; for (int i : c) p.push_back({i/W*2, i%W*2});
    auto h = hullI(p); if (h.size() < 3 || h.size() != p.size()) return;
    std::vector<std::pair<LL, LL>> key; for (auto& q : h) key.push_back({q.x, q.y});
    if (T && k == 5) return;
    if (seen.insert(key).second) H.push_back(h);
  });
  for (size_t i = 0; i < H.size(); ++i) for (int t : {0, 3, 4}) for (LL ox = -5; ox <= 5; ox += 1) {
    if (!R.begin(mc::fmt("convex2:%zu:%s:%lld", i, XF[t].name, ox))) continue;
    auto ra = rplc(H[i], XF[t]);
    for (size_t j = 0; j < H.size(); ++j) for (LL oy : {-5LL, -4LL, -1LL, 0LL, 1LL, 3LL, 4LL}) {
      std::vector<I2> b = H[j]; for (auto& q : b) { q.x += ox; q.y += oy; }
      auto rb = rplc(b, XF[t]);
      const bool meet = !sepI(H[i], b) && !sepI(b, H[i]);
      bool touch = false;   // rounding decides touching pairs in rotated coordinates
      { std::vector<std::vector<I2>> ab = {H[i], b};
        bool strict = false;  // strictly overlapping: no edge has all others on its closed outside
        for (int s = 0; s < 2; ++s) for (size_t e = 0; e < ab[s].size(); ++e) { bool all = true; for (auto& q : ab[1 - s]) if (crossI(ab[s][e], ab[s][(e + 1) % ab[s].size()], q) > 0) all = false; strict |= all; }
        touch = strict && meet; }
      if (touch && t == 4) continue;
      bool got = convexIntersect(ra, rb), got2 = convexIntersect(rb, ra);
      MC_CHECK(R, got == meet && got2 == meet, "convexIntersect(%s, %s) = %d/%d, they %s", str(H[i]).c_str(), str(b).c_str(), got, got2, meet ? "meet" : "do not meet");
      bool in = true, onb = false;
      for (auto& q : H[i]) for (size_t e = 0; e < b.size(); ++e) { LL c = crossI(b[e], b[(e + 1) % b.size()], q); if (c <= 0) in = false; if (c == 0) onb = true; }
      if (!(onb && t == 4)) { bool w = convexWithin(ra, rb); MC_CHECK(R, w == in, "convexWithin(%s, %s) = %d", str(H[i]).c_str(), str(b).c_str(), w); }
      R.transitions += 3; R.nontrivial++; R.seen((i*1000 + j)*10000 + (ox + 50)*100 + oy + 50);
    }
    R.end();
  }
  // 3D solids against each other under rotations and offsets
  auto S = solids();
  for (size_t i = 0; i < S.size(); ++i) for (size_t j = 0; j < S.size(); ++j) for (int rot = 0; rot < (T ? 6 : 4); ++rot)
    for (LL ox = -7; ox <= 7; ox += T ? 1 : 2) {
      if (!R.begin(mc::fmt("convex3:%s:%s:%d:%lld", S[i].name, S[j].name, rot, ox))) continue;
      auto ra = rplc3(S[i], 1);
      for (LL oy = -7; oy <= 7; oy += T ? 1 : 2) for (LL oz = -7; oz <= 7; oz += T ? 1 : 2) {
        Poly3 b = place(S[j], rot, {ox, oy, oz}); auto rb = rplc3(b, 1);
        R.describe(mc::fmt("%s and %s turned %d at (%lld,%lld,%lld)", S[i].name, S[j].name, rot, ox, oy, oz));
        const bool meet = !disjoint3(S[i], b);
        bool got = convexIntersect(ra, rb);
        MC_CHECK(R, got == meet, "convexIntersect says %d for %s and %s turned %d at (%lld,%lld,%lld)", got, S[i].name, S[j].name, rot, ox, oy, oz);
        bool in = true;
        for (auto& q : b.v) for (auto& f : S[i].f) if (dt(cr(sub(S[i].v[f[1]], S[i].v[f[0]]), sub(S[i].v[f[2]], S[i].v[f[0]])), sub(q, S[i].v[f[0]])) >= 0) in = false;
        bool w = convexWithin(rb, ra);
        MC_CHECK(R, w == in, "convexWithin says %d for %s turned %d at (%lld,%lld,%lld) in %s", w, S[j].name, rot, ox, oy, oz, S[i].name);
        R.transitions += 2; R.nontrivial++; R.seen(mc::mix(i*100 + j*10 + rot, ((ox + 9)*20 + oy + 9)*20 + oz + 9));
      }
      R.end();
    }
  // small solids strictly inside large ones
  for (size_t i = 0; i < S.size(); ++i) for (size_t j = 0; j < S.size(); ++j) {
    if (!R.begin(mc::fmt("within3:%s:%s", S[i].name, S[j].name))) continue;
    Poly3 a = S[i]; for (auto& v : a.v) v = {v.x*8, v.y*8, v.z*8};
    auto ra = rplc3(a, 1);
    for (LL ox = -4; ox <= 20; ox += 2) for (LL oy = -4; oy <= 20; oy += 2) for (LL oz = -4; oz <= 20; oz += 2) {
      Poly3 b = place(S[j], 0, {ox, oy, oz}); auto rb = rplc3(b, 1);
      bool in = true;
      for (auto& q : b.v) for (auto& f : a.f) if (dt(cr(sub(a.v[f[1]], a.v[f[0]]), sub(a.v[f[2]], a.v[f[0]])), sub(q, a.v[f[0]])) >= 0) in = false;
      bool w = convexWithin(rb, ra), m = convexIntersect(rb, ra);
      MC_CHECK(R, w == in, "convexWithin says %d for %s at (%lld,%lld,%lld) in 8 x %s", w, S[j].name, ox, oy, oz, S[i].name);
      MC_CHECK(R, m == !disjoint3(a, b), "convexIntersect says %d for %s at (%lld,%lld,%lld) and 8 x %s", m, S[j].name, ox, oy, oz, S[i].name);
      R.transitions += 2; R.nontrivial += in; R.seen(mc::mix(777 + i*10 + j, (ox*30 + oy)*30 + oz));
    }
    R.end();
  }
}

// ------------------------------------------------------------------ P21
static Big bigOf(double v) { int e; double m = frexp(v, &e); LL k = (LL)ldexp(m, 53); return Big(k) << (e - 53 + 200); } // exact multiple of 2^-200
static int sgn(const Big& b) { return b < 0 ? -1 : b > 0 ? 1 : 0; }
static int sgd(double v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
static int ref2(double* a, double* b, double* c) { Big x0 = bigOf(a[0]) - bigOf(c[0]), y0 = bigOf(a[1]) - bigOf(c[1]), x1 = bigOf(b[0]) - bigOf(c[0]), y1 = bigOf(b[1]) - bigOf(c[1]); return sgn(x0*y1 - y0*x1); }
template <int N> static Big det(Big m[N][N]);
template <> Big det<2>(Big m[2][2]) { return m[0][0]*m[1][1] - m[0][1]*m[1][0]; }
template <int N> static Big det(Big m[N][N]) {
  Big s = 0;
  for (int c = 0; c < N; ++c) {
    Big k[N - 1][N - 1];
    for (int i = 1; i < N; ++i) for (int j = 0, q = 0; j < N; ++j) if (j != c) k[i - 1][q++] = m[i][j];
    Big d = det<N - 1>(k)*m[0][c];
    if (c % 2) s -= d; else s += d;
  }
  return s;
}
static int refCircle(double* a, double* b, double* c, double* d) {
  Big m[3][3]; double* p[3] = {a, b, c};
  for (int i = 0; i < 3; ++i) { Big x = bigOf(p[i][0]) - bigOf(d[0]), y = bigOf(p[i][1]) - bigOf(d[1]); m[i][0] = x; m[i][1] = y; m[i][2] = x*x + y*y; }
  return sgn(det<3>(m));
}
static int ref3(double* a, double* b, double* c, double* d) {
  Big m[3][3]; double* p[3] = {a, b, c};
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) m[i][k] = bigOf(p[i][k]) - bigOf(d[k]);
  return sgn(det<3>(m));
}
static int refSphere(double* a, double* b, double* c, double* d, double* e) {
  Big m[4][4]; double* p[4] = {a, b, c, d};
  for (int i = 0; i < 4; ++i) { m[i][3] = 0; for (int k = 0; k < 3; ++k) { m[i][k] = bigOf(p[i][k]) - bigOf(e[k]); m[i][3] += m[i][k]*m[i][k]; } }
  return sgn(det<4>(m));
}
static void p21() {
  exactinit();
  const bool T = R.thorough();
  const int N = T ? 48 : 16;
  const double U = ldexp(1, -53);
  const double B[][4] = {{12, 12, 24, 24}, {12, 12, 24.5, 24.5}, {3.1, 3.1, 7.3, 7.3}, {0.1, 0.2, 0.3, 0.6}, {17.3, 1e-9, -3e5, 11}, {8, 8, -4, -4}};
  for (int b = 0; b < 6; ++b) for (int i = 0; i < N; ++i) {
    if (!R.begin(mc::fmt("orient2d:%d:%d", b, i))) continue;
    for (int j = 0; j < N; ++j) for (int sw = 0; sw < 3; ++sw) {
      double p[3][2] = {{0.5 + i*U, 0.5 + j*U}, {B[b][0], B[b][1]}, {B[b][2], B[b][3]}};
      double *x = p[sw], *y = p[(sw + 1) % 3], *z = p[(sw + 2) % 3];
      int g = sgd(orient2d(x, y, z)), w = ref2(x, y, z);
      MC_CHECK(R, g == w, "orient2d base %d, offset %d,%d, turn %d: sign %d instead of %d", b, i, j, sw, g, w);
      R.transitions++; R.nontrivial += w != 0; R.seen(b*10 + w + 1);
    }
    R.end();
  }
  const double C[][6] = {{1, 0, 0, 1, -1, 0}, {0.5, 0.5, -0.5, 0.5, -0.5, -0.5}, {12, 12, 24, 24, 12, 24}, {0.6, 0.8, -0.8, 0.6, -0.6, -0.8}, {3e4, 0, 0, 3e4, -3e4, 0}, {5, 0, 3, 4, -4, 3}};
  const double Q[][2] = {{0, -1}, {0.5, -0.5}, {24, 12}, {0.8, -0.6}, {0, -3e4}, {0, -5}};
  for (int b = 0; b < 6; ++b) for (int i = -N/2; i < N/2; ++i) {
    if (!R.begin(mc::fmt("incircle:%d:%d", b, i))) continue;
    const double u = std::max(std::abs(Q[b][0]), std::abs(Q[b][1]))*ldexp(1, -52);
    for (int j = -N/2; j < N/2; ++j) for (int sw = 0; sw < 4; ++sw) {
      double p[4][2] = {{C[b][0], C[b][1]}, {C[b][2], C[b][3]}, {C[b][4], C[b][5]}, {Q[b][0] + i*u, Q[b][1] + j*u}};
      double *a = p[sw], *c = p[(sw + 1) % 4], *d = p[(sw + 2) % 4], *e = p[(sw + 3) % 4];
      int g = sgd(incircle(a, c, d, e)), w = refCircle(a, c, d, e);
      MC_CHECK(R, g == w, "incircle base %d, offset %d,%d, turn %d: sign %d instead of %d", b, i, j, sw, g, w);
      R.transitions++; R.nontrivial += w != 0; R.seen(100 + b*10 + w + 1);
    }
    R.end();
  }
  const double O[][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {12, 12, 12, 24, 24, 25, 7, 9, 8}, {3, 0, 0, 0, 3, 0, 1, 1, 1}, {0.1, 0.2, 0.7, 0.4, 0.4, 0.2, 0.9, 0.05, 0.05}};
  const double P[][3] = {{1./3, 1./3, 1./3}, {14.25, 15, 15}, {0.5, 1.5, 1}, {0.4, 0.4, 0.2}};
  for (int b = 0; b < 4; ++b) for (int i = -N/2; i < N/2; ++i) {
    if (!R.begin(mc::fmt("orient3d:%d:%d", b, i))) continue;
    for (int j = -N/4; j < N/4; ++j) for (int k = -N/4; k < N/4; ++k) for (int sw = 0; sw < 4; ++sw) {
      double p[4][3]; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) p[r][c] = O[b][3*r + c];
      const int ijk[3] = {i, j, k};
      for (int c = 0; c < 3; ++c) p[3][c] = P[b][c] + ijk[c]*std::max(1e-300, std::abs(P[b][c])*ldexp(1, -52));
      double *a = p[sw], *c = p[(sw + 1) % 4], *d = p[(sw + 2) % 4], *e = p[(sw + 3) % 4];
      int g = sgd(orient3d(a, c, d, e)), w = ref3(a, c, d, e);
      MC_CHECK(R, g == w, "orient3d base %d, offset %d,%d,%d, turn %d: sign %d instead of %d", b, i, j, k, sw, g, w);
      R.transitions++; R.nontrivial += w != 0; R.seen(200 + b*10 + w + 1);
    }
    R.end();
  }
  const double SP[][12] = {{1, 0, 0, 0, 1, 0, 0, 0, 1, -1, 0, 0}, {0.5, 0.5, 0.5, -0.5, 0.5, 0.5, 0.5, -0.5, 0.5, 0.5, 0.5, -0.5}, {3, 4, 12, -3, 4, 12, 4, -3, 12, 12, 3, 4}};
  const double SQ[][3] = {{0, -1, 0}, {-0.5, -0.5, -0.5}, {0, 5, -12}};
  for (int b = 0; b < 3; ++b) for (int i = -N/4; i < N/4; ++i) {
    if (!R.begin(mc::fmt("insphere:%d:%d", b, i))) continue;
    for (int j = -N/8; j < N/8; ++j) for (int k = -N/8; k < N/8; ++k) for (int sw = 0; sw < 5; ++sw) {
      double p[5][3]; for (int r = 0; r < 4; ++r) for (int c = 0; c < 3; ++c) p[r][c] = SP[b][3*r + c];
      const double u = (b == 2 ? 12 : 1)*ldexp(1, -52); const int ijk[3] = {i, j, k};
      for (int c = 0; c < 3; ++c) p[4][c] = SQ[b][c] + ijk[c]*u;
      double* q[5]; for (int r = 0; r < 5; ++r) q[r] = p[(sw + r) % 5];
      int g = sgd(insphere(q[0], q[1], q[2], q[3], q[4])), w = refSphere(q[0], q[1], q[2], q[3], q[4]);
      MC_CHECK(R, g == w, "insphere base %d, offset %d,%d,%d, turn %d: sign %d instead of %d", b, i, j, k, sw, g, w);
      R.transitions++; R.nontrivial += w != 0; R.seen(300 + b*10 + w + 1);
    }
    R.end();
  }
}
// ------------------------------------------------------------------ P22
static const double SC[] = {1, 1e-6, 1e6, 0.37};
static std::vector<std::vector<I3>> dirs26() { std::vector<std::vector<I3>> d(1); for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) d[0].push_back({x, y, z}); return d; }
static bool near(double a, double b, double tol) { return std::abs(a - b) <= tol; }   // false for NaN
// one closed solid or polygon as a one-cell tessellation; bit i of flip reverses the storage of face i
static void cell2(Tessellation<2, double>& m, const std::vector<I2>& h, unsigned flip, double s, double ox, double oy) {
  const unsigned n = h.size();
  for (auto& q : h) { m.nodes.push_back(ox + s*q.x); m.nodes.push_back(oy + s*q.y); }
  m.cells.resize(1);
  for (unsigned i = 0; i < n; ++i) {
    unsigned a = i, b = (i + 1) % n; const bool f = flip >> i & 1;
    m.faces.push_back({f ? b : a, f ? a : b}); m.cells[0].push_back(f ? ~(int)i : (int)i); m.faceCells.push_back({f ? ~0 : 0});
  }
}
static void cell3(Tessellation<3, double>& m, const Poly3& p, unsigned flip, double s, double o) {
  for (auto& q : p.v) { m.nodes.push_back(o + s*q.x); m.nodes.push_back(-o + s*q.y); m.nodes.push_back(o/2 + s*q.z); }
  m.cells.resize(1);
  for (size_t i = 0; i < p.f.size(); ++i) {
    std::vector<unsigned> f(p.f[i].begin(), p.f[i].end()); const bool r = flip >> i & 1;
    if (r) std::reverse(f.begin(), f.end());
    m.faces.push_back(f); m.cells[0].push_back(r ? ~(int)i : (int)i); m.faceCells.push_back({r ? ~0 : 0});
  }
}
static void p22() {
  const bool T = R.thorough();
  // lines: collinear, between, side of a line
  const int W = T ? 5 : 4;
  std::vector<I2> g; for (int x = 0; x < W; ++x) for (int y = 0; y < W; ++y) g.push_back({x, y});
  for (int sc = 0; sc < 4; ++sc) for (size_t i = 0; i < g.size(); ++i) for (int off = 0; off < 2; ++off) {
    if (!R.begin(mc::fmt("line2:%d:%zu:%d", sc, i, off))) continue;
    for (auto& b : g) for (auto& c : g) {
      I2 a = g[i]; const double s = SC[sc], o = off ? -8*s : 0;
      double A[2] = {o + s*a.x, o + s*a.y}, B[2] = {o + s*b.x, o + s*b.y}, C[2] = {o + s*c.x, o + s*c.y};
      R.describe(str({a, b, c}) + mc::fmt(" times %g", s));
      const LL x = crossI(a, b, c);
      MC_CHECK(R, (geometry::collinear<2, double>(A, B, C, 1e-10)) == (x == 0), "collinear %s wrong", str({a, b, c}).c_str());
      const bool btw = x == 0 && (c == a || c == b || (!(a == b) && std::min(a.x, b.x) <= c.x && c.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= c.y && c.y <= std::max(a.y, b.y)));
      MC_CHECK(R, (geometry::between<2, double>(A, B, C, 1e-10)) == btw, "between %s is not %d", str({a, b, c}).c_str(), btw);
      if (sc == 0) MC_CHECK(R, geometry::aboveBelow(A[0], A[1], B[0], B[1], C[0], C[1]) == -sg(x), "aboveBelow %s wrong", str({a, b, c}).c_str());
      MC_CHECK(R, near(geometry::triangleVolume2(A, B, C), -s*s*x, 1e-9*s*s) || near(geometry::triangleVolume2(A, B, C), s*s*x, 1e-9*s*s), "triangleVolume2 %s wrong", str({a, b, c}).c_str());
      if (x) {
        double X[2], Y[2]; geometry::computeCircumcenter(A, B, C, X); geometry::computeCircumcenter2d(A, B, C, Y);
        const double tol = 1e-9*s, cx = X[0], cy = X[1];
        const double r = std::hypot(cx - A[0], cy - A[1]);
        MC_CHECK(R, near(std::hypot(cx - B[0], cy - B[1]), r, tol) && near(std::hypot(cx - C[0], cy - C[1]), r, tol), "computeCircumcenter %s is not equidistant", str({a, b, c}).c_str());
        MC_CHECK(R, near(X[0], Y[0], tol) && near(X[1], Y[1], tol), "computeCircumcenter2d %s differs from computeCircumcenter", str({a, b, c}).c_str());
        double Z[2]; geometry::computeTriangleCentroid2d(A, B, C, Z);
        MC_CHECK(R, near(3*Z[0], A[0] + B[0] + C[0], tol) && near(3*Z[1], A[1] + B[1] + C[1], tol), "triangle centroid %s", str({a, b, c}).c_str());
      }
      R.transitions += 5; R.nontrivial += x != 0; R.seen(mc::mix(i*1000 + sc, (a.x*7 + b.x)*1000 + b.y*100 + c.x*10 + c.y));
    }
    // clouds: every set of up to four points
    if (!off) for (int k = 2; k <= 3; ++k) mc::subsets(g.size(), k, [&](const std::vector<int>& c) {
      std::vector<I2> p = {g[i]}; for (int q : c) p.push_back(g[q]);
      std::vector<double> pts; for (auto& q : p) { pts.push_back(SC[sc]*q.x); pts.push_back(SC[sc]*q.y); }
      if (p[0] == p[1]) return;
      bool flat = true; for (size_t q = 2; q < p.size(); ++q) if (crossI(p[0], p[1], p[q])) flat = false;
      R.describe(str(p));
      MC_CHECK(R, (geometry::collinear<2, double>(pts, 1e-10)) == flat, "collinear of the cloud %s is not %d", str(p).c_str(), flat);
      R.transitions++;
    });
    R.end();
  }
  // 3D triangles and tetrahedra on a 3x3x3 grid
  std::vector<I3> g3; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int z = 0; z < 3; ++z) g3.push_back({x, y, z});
  for (int sc = 0; sc < 4; ++sc) for (int i = 0; i < 27; ++i) for (int j = 0; j < 27; ++j) if (i != j) {
    if (!R.begin(mc::fmt("tet:%d:%d:%d", sc, i, j))) continue;
    const double s = SC[sc], o = 3*s;
    auto at = [&](int q, double* P) { P[0] = s*g3[q].x - o; P[1] = s*g3[q].y + o; P[2] = s*g3[q].z; };
    double A[3], B[3], C[3], D[3]; at(i, A); at(j, B);
    for (int k = 0; k < 27; ++k) {
      at(k, C);
      const I3 n = cr(sub(g3[j], g3[i]), sub(g3[k], g3[i])); const bool flat = !n.x && !n.y && !n.z;
      R.describe(mc::fmt("points %d %d %d times %g", i, j, k, s));
      MC_CHECK(R, (geometry::collinear<3, double>(A, B, C, 1e-10)) == flat, "collinear in 3D");
      const LL ab = dt(sub(g3[j], g3[i]), sub(g3[j], g3[i])), ac = dt(sub(g3[k], g3[i]), sub(g3[k], g3[i])), th = dt(sub(g3[j], g3[i]), sub(g3[k], g3[i]));
      MC_CHECK(R, (geometry::between<3, double>(A, B, C, 1e-10)) == (flat && th >= 0 && ac <= ab), "between in 3D");
      double X[3]; const bool ok = geometry::computeTriangleCircumcenter3d(A, B, C, X);
      MC_CHECK(R, ok == !flat, "computeTriangleCircumcenter3d returns %d", ok);
      if (!flat && ok) {
        const double r = geometry::distance<3, double>(X, A);
        MC_CHECK(R, near(geometry::distance<3, double>(X, B), r, 1e-9*s) && near(geometry::distance<3, double>(X, C), r, 1e-9*s), "triangle circumcentre is not equidistant");
        MC_CHECK(R, near((X[0] - A[0])*n.x + (X[1] - A[1])*n.y + (X[2] - A[2])*n.z, 0, 1e-8*s), "triangle circumcentre is off the plane");
        double nx, ny, nz; geometry::computeNormal(A[0], A[1], A[2], B[0], B[1], B[2], C[0], C[1], C[2], nx, ny, nz);
        MC_CHECK(R, near(nx, s*s*n.x, 1e-9*s*s) && near(ny, s*s*n.y, 1e-9*s*s) && near(nz, s*s*n.z, 1e-9*s*s), "computeNormal (%g,%g,%g) is not (%lld,%lld,%lld)", nx/s/s, ny/s/s, nz/s/s, n.x, n.y, n.z);
        double Z[3]; geometry::computeTriangleCentroid3d(A, B, C, Z);
        MC_CHECK(R, near(3*Z[0], A[0] + B[0] + C[0], 1e-9*s) && near(3*Z[1], A[1] + B[1] + C[1], 1e-9*s) && near(3*Z[2], A[2] + B[2] + C[2], 1e-9*s), "triangle centroid in 3D");
      }
      R.transitions += 4;
      for (int l = 0; l < 27; ++l) {
        at(l, D); const LL v = dt(n, sub(g3[l], g3[i]));
        R.describe(mc::fmt("points %d %d %d %d times %g", i, j, k, l, s));
        double vol, cen[3], v6 = geometry::tetrahedralVolume6(A, B, C, D); geometry::tetrahedralVolumeAndCentroid6(A, B, C, D, vol, cen);
        MC_CHECK(R, near(v6, -s*s*s*v, 1e-9*s*s*s) && near(vol, v6, 1e-12*s*s*s), "tetrahedron volume %g / %g instead of %g", v6, vol, -s*s*s*v);
        double Q[3]; geometry::computeTetCentroid(A, B, C, D, Q);
        for (int c = 0; c < 3; ++c) MC_CHECK(R, near(4*cen[c], A[c] + B[c] + C[c] + D[c], 1e-9*s) && near(cen[c], Q[c], 1e-9*s), "tetrahedron centroid");
        if (sc == 0) MC_CHECK(R, geometry::aboveBelow(A[0], A[1], A[2], (double)n.x, (double)n.y, (double)n.z, D[0], D[1], D[2]) == sg(v), "aboveBelow in 3D");
        if (v) {
          geometry::computeCircumcenter3d(A, B, C, D, X);
          const double r = geometry::distance<3, double>(X, A);
          MC_CHECK(R, near(geometry::distance<3, double>(X, B), r, 1e-8*s) && near(geometry::distance<3, double>(X, C), r, 1e-8*s) && near(geometry::distance<3, double>(X, D), r, 1e-8*s), "tetrahedron circumcentre is not equidistant");
          R.nontrivial++;
        }
        R.transitions += 3; R.seen(mc::mix(i*27 + j, (v + 50)*1000 + k));
      }
    }
    R.end();
  }
  // crossing segments
  for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g.size(); ++j) if (i != j) for (int sc = 0; sc < 3; ++sc) {
    if (!R.begin(mc::fmt("cross:%d:%zu:%zu", sc, i, j))) continue;
    const double s = SC[sc];
    for (auto& c : g) for (auto& d : g) if (!(c == d)) {
      R.describe(str({g[i], g[j], c, d}) + mc::fmt(" times %g", s));
      Fr x, y; const int w = crossing(g[i], g[j], c, d, x, y);
      double P[4][2] = {{s*g[i].x, s*g[i].y}, {s*g[j].x, s*g[j].y}, {s*c.x, s*c.y}, {s*d.x, s*d.y}}, X[2];
      const bool got = geometry::segmentIntersection2D(P[0], P[1], P[2], P[3], X);
      R.transitions++;
      if (w == 2) { R.count("overlapping segments (not decided)"); continue; }
      MC_CHECK(R, got == (w == 1), "segmentIntersection2D %s = %d", str({g[i], g[j], c, d}).c_str(), got);
      if (w == 1 && got) MC_CHECK(R, near(X[0], s*x.n/x.d, 1e-7*s) && near(X[1], s*y.n/y.d, 1e-7*s), "segmentIntersection2D %s at (%g,%g)", str({g[i], g[j], c, d}).c_str(), X[0]/s, X[1]/s);
      // the nearest point of a segment to a grid point
      double Z[2]; geometry::closestPointOnSegment2D(P[2], P[0], P[1], Z);
      double ux = g[j].x - g[i].x, uy = g[j].y - g[i].y, t = ((c.x - g[i].x)*ux + (c.y - g[i].y)*uy)/(ux*ux + uy*uy); t = std::max(0.0, std::min(1.0, t));
      MC_CHECK(R, near(Z[0], s*(g[i].x + t*ux), 1e-9*s) && near(Z[1], s*(g[i].y + t*uy), 1e-9*s), "closestPointOnSegment2D");
      R.nontrivial += w; R.seen(mc::mix(i*100 + j, c.x*1000 + c.y*100 + d.x*10 + d.y));
    }
    R.end();
  }
  // crossings near the ends of the segments
  const double par[] = {-0.5, -1e-2, -1e-4, -1e-6, -1e-7, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 0.9, 1 - 1e-2, 1 - 1e-3, 1 - 1e-4, 1 - 1e-5, 1 - 1e-6, 1 - 1e-7, 1 + 1e-7, 1 + 1e-6, 1 + 1e-4, 1.5};
  for (auto& u : g) for (auto& w : g) if (!(u == I2{0, 0}) && !(w == I2{0, 0})) for (int sc = 0; sc < 3; ++sc) {
    const LL det = u.x*w.y - u.y*w.x; if (!det) continue;
    if (!R.begin(mc::fmt("ends:%d:%lld,%lld:%lld,%lld", sc, u.x, u.y, w.x, w.y))) continue;
    const double s = SC[sc], lu = std::hypot(u.x, u.y), lw = std::hypot(w.x, w.y);
    for (double p1 : par) for (double p2 : par) for (int f = 0; f < 4; ++f) {
      double P[4][2] = {{0, 0}, {s*u.x, s*u.y}, {0, 0}, {0, 0}}, X[2] = {0, 0};
      const double wx = f & 1 ? -w.x : w.x, wy = f & 1 ? -w.y : w.y, C[2] = {s*p1*u.x, s*p1*u.y};
      P[2][0] = C[0] - s*p2*wx; P[2][1] = C[1] - s*p2*wy; P[3][0] = P[2][0] + s*wx; P[3][1] = P[2][1] + s*wy;
      const int a = f & 2 ? 2 : 0;
      R.describe(mc::fmt("(%lld,%lld) x (%lld,%lld) at %g, %g", u.x, u.y, w.x, w.y, p1, p2));
      const bool got = geometry::segmentIntersection2D(P[a], P[a + 1], P[2 - a], P[3 - a], X), want = p1 > 0 && p1 < 1 && p2 > 0 && p2 < 1;
      R.transitions++;
      MC_CHECK(R, got == want, "segmentIntersection2D at parameters %.9g, %.9g = %d", p1, p2, got);
      if (got && want) MC_CHECK(R, std::hypot(X[0] - C[0], X[1] - C[1]) < 3e-8*s*(lu + lw), "segmentIntersection2D at parameters %.9g, %.9g is off by %g", p1, p2, std::hypot(X[0] - C[0], X[1] - C[1])/s);
    }
    R.nontrivial++; R.seen(mc::mix(u.x*5 + u.y, (w.x*5 + w.y)*10 + sc));
    R.end();
  }
  // areas and centroids of polygons: every convex lattice polygon of up to 6 corners, every pattern of face directions
  std::vector<std::vector<I2>> H; std::set<std::vector<LL>> known;
  for (int k = 3; k <= (T ? 6 : 5); ++k) mc::subsets(g.size(), k, [&](const std::vector<int>& c) {
    std::vector<I2> p; for (int q : c) p.push_back(g[q]);
    auto h = hullI(p); if (h.size() != p.size()) return;
    H.push_back(h);
  });
  H.push_back({{0,0},{6,0},{6,2},{2,2},{2,6},{0,6}}); H.push_back({{0,0},{6,0},{6,6},{3,3},{0,6}}); H.push_back({{0,3},{2,2},{3,0},{4,2},{6,3},{4,4},{3,6},{2,4}});
  for (size_t i = 0; i < H.size(); ++i) for (int sc = 0; sc < 4; ++sc) {
    if (!R.begin(mc::fmt("area:%zu:%d", i, sc))) continue;
    const double s = SC[sc], ox = 5*s, oy = -3*s; const auto& h = H[i];
    LL A = 0, X = 0, Y = 0, vx = 0, vy = 0;
    for (size_t k = 0; k < h.size(); ++k) { I2 p = h[k], q = h[(k + 1) % h.size()]; LL d = p.x*q.y - p.y*q.x; A += d; X += d*(p.x + q.x); Y += d*(p.y + q.y); vx += p.x; vy += p.y; }
    const double cx = ox + s*X/(3.0*A), cy = oy + s*Y/(3.0*A);
    for (unsigned fl = 0; fl < 1u << h.size(); ++fl) {
      R.describe(str(h) + mc::fmt(" times %g, faces reversed %x", s, fl));
      Tessellation<2, double> m; cell2(m, h, fl, s, ox, oy);
      double c[2], a; geometry::computeCellCentroidAndSignedArea(m, 0u, 0.0, c, a);
      MC_CHECK(R, near(a, s*s*A/2.0, 1e-10*s*s), "area %g instead of %g", a, s*s*A/2.0);
      MC_CHECK(R, near(c[0], cx, 1e-8*s) && near(c[1], cy, 1e-8*s), "centroid (%g,%g) instead of (%g,%g)", c[0], c[1], cx, cy);
      geometry::computeCellCentroid(m, 0u, c);
      MC_CHECK(R, near(c[0], ox + s*vx/h.size(), 1e-9*s) && near(c[1], oy + s*vy/h.size(), 1e-9*s), "mean vertex (%g,%g)", c[0], c[1]);
      auto r = geometry::cellToReducedPLC<2, double>(m, 0u);
      MC_CHECK(R, r.points.size() == m.nodes.size() && r.facets.size() == h.size() && r.valid(), "cellToReducedPLC has %zu points and %zu facets", r.points.size()/2, r.facets.size());
      double ra = 0; std::set<int> used; bool fine = true;
      for (auto& f : r.facets) { if (f.size() != 2 || f[0] < 0 || f[1] < 0 || 2*f[0] + 1 >= (int)r.points.size() || 2*f[1] + 1 >= (int)r.points.size()) { fine = false; break; } used.insert(f[0]); ra += (r.points[2*f[0]] - ox)*(r.points[2*f[1] + 1] - oy) - (r.points[2*f[0] + 1] - oy)*(r.points[2*f[1]] - ox); }
      MC_CHECK(R, fine && used.size() == h.size() && near(ra, s*s*A, 1e-9*s*s), "cellToReducedPLC is another polygon");
      R.transitions += 3; R.nontrivial++; R.seen(mc::mix(i*10 + sc, fl));
    }
    R.end();
  }
  // volumes and centroids of solids, every pattern of face directions
  auto S = solids();
  for (size_t i = 0; i < S.size(); ++i) for (int sc = 0; sc < 4; ++sc) for (int off = 0; off < 2; ++off) {
    if (!R.begin(mc::fmt("volume:%s:%d:%d", S[i].name, sc, off))) continue;
    const double s = SC[sc], o = off ? 4*s : 0;
    double V = 0, c0[3] = {0, 0, 0}, mean[3] = {0, 0, 0}; LL V6 = 0;
    for (auto& f : S[i].f) for (size_t k = 1; k + 1 < f.size(); ++k) {
      I3 a = S[i].v[f[0]], b = S[i].v[f[k]], c = S[i].v[f[k + 1]]; LL v = dt(a, cr(b, c)); V6 += v;
      c0[0] += v*(a.x + b.x + c.x)/4.; c0[1] += v*(a.y + b.y + c.y)/4.; c0[2] += v*(a.z + b.z + c.z)/4.;
    }
    V = V6/6.; const double of[3] = {o, -o, o/2};
    for (int k = 0; k < 3; ++k) { c0[k] = of[k] + s*c0[k]/V6; for (auto& q : S[i].v) mean[k] += k == 0 ? q.x : k == 1 ? q.y : q.z; mean[k] = of[k] + s*mean[k]/S[i].v.size(); }
    for (unsigned fl = 0; fl < 1u << S[i].f.size(); ++fl) {
      R.describe(mc::fmt("%s times %g offset %g, faces reversed %x", S[i].name, s, o, fl));
      Tessellation<3, double> m; cell3(m, S[i], fl, s, o);
      double c[3], v; geometry::computeCellCentroidAndSignedVolume(m, 0u, c, v);
      MC_CHECK(R, near(v, s*s*s*V, 1e-9*s*s*s), "volume %g instead of %g", v, s*s*s*V);
      for (int k = 0; k < 3; ++k) MC_CHECK(R, near(c[k], c0[k], 1e-8*s), "centroid component %d is %g instead of %g", k, c[k], c0[k]);
      geometry::computeCellCentroid(m, 0u, c);
      for (int k = 0; k < 3; ++k) MC_CHECK(R, near(c[k], mean[k], 1e-9*s), "mean vertex component %d is %g instead of %g", k, c[k], mean[k]);
      for (size_t f = 0; f < S[i].f.size(); ++f) {
        double fc[3], fh[3], n[3]; geometry::computeFaceCentroidAndNormal(m, (unsigned)f, fc, fh);
        I3 e = cr(sub(S[i].v[S[i].f[f][1]], S[i].v[S[i].f[f][0]]), sub(S[i].v[S[i].f[f][2]], S[i].v[S[i].f[f][0]]));
        const double l = std::sqrt(dt(e, e)), sn = (fl >> f & 1) ? -1 : 1; n[0] = sn*e.x/l; n[1] = sn*e.y/l; n[2] = sn*e.z/l;
        for (int k = 0; k < 3; ++k) {
          double w = 0; for (int q : S[i].f[f]) w += k == 0 ? S[i].v[q].x : k == 1 ? S[i].v[q].y : S[i].v[q].z;
          MC_CHECK(R, near(fc[k], of[k] + s*w/S[i].f[f].size(), 1e-9*s), "face %zu centroid", f);
          MC_CHECK(R, near(fh[k], n[k], 1e-9), "face %zu normal component %d is %g instead of %g", f, k, fh[k], n[k]);
        }
      }
      auto r = geometry::cellToReducedPLC<3, double>(m, 0u);
      MC_CHECK(R, r.points.size() == m.nodes.size() && r.facets.size() == S[i].f.size() && r.valid(), "cellToReducedPLC in 3D has %zu points", r.points.size()/3);
      double rv = 0;
      for (auto& f : r.facets) for (size_t k = 1; k + 1 < f.size(); ++k) {
        const double* a = &r.points[3*f[0]]; const double* b = &r.points[3*f[k]]; const double* d = &r.points[3*f[k + 1]];
        const double A[3] = {a[0] - of[0], a[1] - of[1], a[2] - of[2]}, B[3] = {b[0] - of[0], b[1] - of[1], b[2] - of[2]}, D[3] = {d[0] - of[0], d[1] - of[1], d[2] - of[2]};
        rv += A[0]*(B[1]*D[2] - B[2]*D[1]) + A[1]*(B[2]*D[0] - B[0]*D[2]) + A[2]*(B[0]*D[1] - B[1]*D[0]);
      }
      MC_CHECK(R, near(rv, s*s*s*V6, 1e-8*s*s*s), "cellToReducedPLC has volume %g instead of %g", rv/6, s*s*s*V);
      R.transitions += 4; R.nontrivial++; R.seen(mc::mix(i*100 + sc*10 + off, fl));
    }
    R.end();
  }
  // rays against planes, boxes, spheres and circles
  auto d26 = dirs26()[0];
  const int Q = T ? 4 : 3;
  for (int px = -Q; px <= Q; ++px) for (int py = -Q; py <= Q; ++py) for (int pz = -Q; pz <= Q; ++pz) {
    if (!R.begin(mc::fmt("ray:%d:%d:%d", px, py, pz))) continue;
    for (auto& d : d26) {
      const double l = std::sqrt(dt(d, d)); double P[3] = {1.*px, 1.*py, 1.*pz}, N[3] = {d.x/l, d.y/l, d.z/l}, X[3] = {9e9, 9e9, 9e9};
      for (auto& n : d26) for (int h = -2; h <= 2; ++h) {
        R.describe(mc::fmt("ray from (%d,%d,%d) along (%lld,%lld,%lld), plane through %d x (%lld,%lld,%lld)", px, py, pz, d.x, d.y, d.z, h, n.x, n.y, n.z));
        const double nl = std::sqrt(dt(n, n)); double O[3] = {1.*h*n.x, 1.*h*n.y, 1.*h*n.z}, M[3] = {n.x/nl, n.y/nl, n.z/nl};
        const LL nd = dt(n, d), hp = h*dt(n, n) - (n.x*px + n.y*py + n.z*pz);
        const bool hit = nd == 0 ? hp == 0 : hp*nd >= 0;
        const bool got = geometry::rayPlaneIntersection(P, N, O, M, 1e-10, X);
        R.transitions++;
        if (nd != 0 && hp == 0) continue;   // starts on the plane: rounding decides
        MC_CHECK(R, got == hit, "rayPlaneIntersection says %d", got);
        if (hit && got) { const double t = nd ? double(hp)/nd : 0; for (int k = 0; k < 3; ++k) MC_CHECK(R, near(X[k], P[k] + t*(k == 0 ? d.x : k == 1 ? d.y : d.z), 1e-9), "rayPlaneIntersection point"); }
        R.nontrivial += hit;
      }
      // the box [-2,2] x [-1,1] x [-2,1]
      double lo[3] = {-2, -1, -2}, hi[3] = {2, 1, 1};
      R.describe(mc::fmt("ray from (%d,%d,%d) along (%lld,%lld,%lld), box", px, py, pz, d.x, d.y, d.z));
      const LL pc[3] = {px, py, pz}, dc[3] = {d.x, d.y, d.z}; double best = 1e9;
      for (int k = 0; k < 3; ++k) for (int e = 0; e < 2; ++e) {
        const double w = e ? hi[k] : lo[k];
        std::vector<double> ts;
        if (dc[k]) { if ((w - pc[k])/dc[k] >= 0) ts.push_back((w - pc[k])/dc[k]); }
        else if (pc[k] == w) ts.push_back(0);
        for (double t : ts) { bool in = true; for (int q = 0; q < 3; ++q) if (q != k && (pc[q] + t*dc[q] < lo[q] || pc[q] + t*dc[q] > hi[q])) in = false; if (in) best = std::min(best, t); }
      }
      const int f = geometry::rayBoxIntersection(P, N, lo, hi, 1e-10, X);
      MC_CHECK(R, (f >= 0) == (best < 1e9), "rayBoxIntersection says %d, the box is %s", f, best < 1e9 ? "hit" : "missed");
      if (f >= 0 && best < 1e9) {
        for (int k = 0; k < 3; ++k) MC_CHECK(R, near(X[k], P[k] + best*dc[k], 1e-9), "rayBoxIntersection: component %d of the point is %g instead of %g", k, X[k], P[k] + best*dc[k]);
        MC_CHECK(R, f < 6 && near(X[f/2], f % 2 ? hi[f/2] : lo[f/2], 1e-9), "rayBoxIntersection names face %d but the point is elsewhere", f);
      }
      // spheres and circles around the origin that hold the starting point
      for (double r : {4., 7., 0.5}) for (int o = 0; o < 2; ++o) {
        double Ct[3] = {o*1., -o*2., o*0.5};
        if (geometry::distance<3, double>(P, Ct) < r*(1 - 1e-6)) {
          const bool ok = geometry::raySphereIntersection(P, N, Ct, r, 1e-10, X);
          MC_CHECK(R, ok && near(geometry::distance<3, double>(X, Ct), r, 1e-8), "raySphereIntersection is off the sphere");
          double t = 0; for (int k = 0; k < 3; ++k) t += (X[k] - P[k])*N[k];
          MC_CHECK(R, t > 0 && near(P[0] + t*N[0], X[0], 1e-9) && near(P[1] + t*N[1], X[1], 1e-9) && near(P[2] + t*N[2], X[2], 1e-9), "raySphereIntersection is off the ray");
          R.transitions++;
        }
        if (d.z == 0 && geometry::distance<2, double>(P, Ct) < r*(1 - 1e-6)) {
          const bool ok = geometry::rayCircleIntersection(P, N, Ct, r, 1e-10, X);
          MC_CHECK(R, ok && near(geometry::distance<2, double>(X, Ct), r, 1e-8), "rayCircleIntersection is off the circle");
          const double t = (X[0] - P[0])*N[0] + (X[1] - P[1])*N[1];
          MC_CHECK(R, t > 0 && near(P[0] + t*N[0], X[0], 1e-9) && near(P[1] + t*N[1], X[1], 1e-9), "rayCircleIntersection is off the ray");
          R.transitions++;
        }
      }
      R.seen(mc::mix((px*10 + py)*10 + pz, (d.x + 1)*9 + (d.y + 1)*3 + d.z + 1));
    }
    R.end();
  }
}
int main(int argc, char** argv) {
  R.parse(argc, argv);
  if (R.prop == "P18") p18();
  else if (R.prop == "P19") p19();
  else if (R.prop == "P20") p20();
  else if (R.prop == "P21") p21();
  else if (R.prop == "P22") p22();
  return R.finish();
}
