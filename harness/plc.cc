// P28 3D convex hulls, P29 construction, reduction and output of boundaries (PLCs).
#include "polytope.hh"
#include "polytope_internal.hh"
#include "polytope_geometric_utilities.hh"
#include "convexHull_2d.hh"
#include "convexHull_3d.hh"
#include "polytope_plc_canned_geometries.hh"
#include "makeBoxPLC.hh"
#include "polytope_write_OOGL.hh"
#include "simplifyPLCfacets.hh"
#include "mc.hh"
#include "geomref.hh"
#include <fstream>
#include <numeric>
#include <unistd.h>
using namespace polytope;
static mc::Run R;
typedef std::vector<std::vector<int>> Facets;
static std::string str(const std::vector<I3>& v) { std::string s; for (auto& p : v) s += mc::fmt("(%lld,%lld,%lld)", p.x, p.y, p.z); return s; }
static bool operator==(const I3& a, const I3& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static bool operator<(const I3& a, const I3& b) { return a.x != b.x ? a.x < b.x : a.y != b.y ? a.y < b.y : a.z < b.z; }
static LL gcd3(I3 n) { auto g = [](LL a, LL b) { a = std::abs(a); b = std::abs(b); while (b) { LL t = a % b; a = b; b = t; } return a; }; return g(g(n.x, n.y), n.z); }

// Exact hull: 6 x volume and the number of points that are extreme; 0 for coplanar sets.
static LL hullVolume6(const std::vector<I3>& p, std::set<I3>& extreme) {
  const int n = p.size(); LL vol = 0; std::set<std::pair<I3, LL>> done;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) for (int k = j + 1; k < n; ++k) {
    I3 N = cr(sub(p[j], p[i]), sub(p[k], p[i]));
    const LL g = gcd3(N); if (!g) continue;
    N = {N.x/g, N.y/g, N.z/g};
    bool pos = false, neg = false;
    for (auto& q : p) { const LL d = dt(N, sub(q, p[i])); pos = pos || d > 0; neg = neg || d < 0; }
    if (pos && neg) continue;
    if (!pos && !neg) return 0;
    if (pos) N = {-N.x, -N.y, -N.z};
    if (!done.insert({N, dt(N, p[i])}).second) continue;
    // the facet: project along the largest component of the normal
    const int ax = std::abs(N.x) >= std::max(std::abs(N.y), std::abs(N.z)) ? 0 : std::abs(N.y) >= std::abs(N.z) ? 1 : 2;
    std::vector<I2> f; std::map<I2, I3> back;
    for (auto& q : p) if (dt(N, sub(q, p[i])) == 0) { I2 a = ax == 0 ? I2{q.y, q.z} : ax == 1 ? I2{q.z, q.x} : I2{q.x, q.y}; f.push_back(a); back[a] = q; }
    const std::vector<I2> h = hullI(f);
    LL area2 = 0; for (size_t a = 0; a < h.size(); ++a) { const I2 u = h[a], v = h[(a + 1) % h.size()]; area2 += u.x*v.y - u.y*v.x; extreme.insert(back[u]); }
    const LL c = ax == 0 ? N.x : ax == 1 ? N.y : N.z;
    vol += std::abs(area2)*dt(N, p[i])/std::abs(c);   // area2*dt is a multiple of c (sum of integral determinants)
  }
  return vol;
}
// Is this list of facets (indices into exact points) the closed, outward oriented surface of the hull of all points?
static void checkHull(const Facets& f, const std::vector<I3>& p, bool exactCoplanar) {
  const int n = p.size();
  std::set<I3> extreme; const LL want = hullVolume6(p, extreme);
  std::map<std::pair<I3, I3>, int> edge; LL vol = 0; std::set<I3> used;
  for (auto& t : f) {
    MC_REQUIRE(R, t.size() == 3, "facet of %zu points", t.size());
    for (int i : t) MC_REQUIRE(R, i >= 0 && i < n, "facet index %d", i);
    const I3 a = p[t[0]], b = p[t[1]], c = p[t[2]], N = cr(sub(b, a), sub(c, a));
    MC_REQUIRE(R, N.x || N.y || N.z, "facet (%d %d %d) has no area", t[0], t[1], t[2]);
    for (int q = 0; q < n; ++q) MC_REQUIRE(R, dt(N, sub(p[q], a)) <= 0, "point %d is outside of facet (%d %d %d)", q, t[0], t[1], t[2]);
    for (int k = 0; k < 3; ++k) { edge[{p[t[k]], p[t[(k + 1) % 3]]}]++; used.insert(p[t[k]]); }
    vol += dt(a, cr(b, c));
  }
  for (auto& e : edge) {
    MC_REQUIRE(R, e.second == 1, "an edge is used %d times in the same direction", e.second);
    MC_REQUIRE(R, edge.count({e.first.second, e.first.first}), "an edge has a facet on one side only");
  }
  MC_REQUIRE(R, vol == want, "volume %g instead of %g", vol/6., want/6.);
  for (auto& e : extreme) MC_REQUIRE(R, used.count(e), "a corner of the hull is not used");
  (void)exactCoplanar;
}
struct X3 { const char* name; double s, o[3]; double m[3][3]; };
static const X3 XS[] = {{"id", 1, {0, 0, 0}, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}, {"tiny", 1e-6, {0, 0, 0}, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}},
                        {"huge", 1e7, {0, 0, 0}, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}, {"off", 1, {100, -300, 50}, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}},
                        {"rot", 0.7, {0.1, 0.2, -0.3}, {{2/3., -1/3., 2/3.}, {2/3., 2/3., -1/3.}, {-1/3., 2/3., 2/3.}}},
                        {"rottiny", 3e-9, {0, 0, 0}, {{2/3., -1/3., 2/3.}, {2/3., 2/3., -1/3.}, {-1/3., 2/3., 2/3.}}},
                        {"rothuge", 4e9, {1e9, 0, 3e8}, {{0.36, 0.48, -0.8}, {-0.8, 0.6, 0}, {0.48, 0.64, 0.6}}}};
static std::vector<double> coords(const std::vector<I3>& p, const X3& t) {
  std::vector<double> c;
  for (auto& q : p) for (int k = 0; k < 3; ++k) c.push_back(t.o[k] + t.s*(t.m[k][0]*q.x + t.m[k][1]*q.y + t.m[k][2]*q.z));
  return c;
}
static bool coplanar(const std::vector<I3>& p) { std::set<I3> e; return hullVolume6(p, e) == 0; }
static void hull3(const std::string& id, const std::vector<I3>& p, const X3& t, double rel) {
  if (!R.begin(id)) return;
  R.describe(mc::fmt("%s transform %s dx %g", str(p).c_str(), t.name, rel));
  std::vector<double> c = coords(p, t), c0 = c;
  double lo[3], hi[3], ext = 0; geometry::computeBoundingBox<3, double>(c, true, lo, hi);
  for (int k = 0; k < 3; ++k) ext = std::max(ext, hi[k] - lo[k]);
  PLC<3, double> plc; { mc::Quiet q; plc = convexHull_3d(c, lo, rel*ext); } R.transitions++;
  MC_CHECK(R, c == c0, "input changed");
  MC_REQUIRE(R, plc.holes.empty(), "hull with holes");
  checkHull(plc.facets, p, true);
  R.seen(mc::mix(mc::fnv(str(p)), plc.facets.size())); R.nontrivial += p.size() > 4;
  R.end();
}
static void p28() {
  const bool T = true, X = R.thorough();
  std::vector<I3> g; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) for (int z = 0; z < 3; ++z) g.push_back({x, y, z});
  const double dxs[] = {1e-9, 1.0/(1 << 21), 1e-4};
  auto all = [&](const std::string& tag, const std::vector<I3>& base, int k, int ntr, int orders) {
    int id = 0;
    mc::subsets(base.size(), k, [&](const std::vector<int>& s) {
      std::vector<I3> p; for (int i : s) p.push_back(base[i]);
      ++id; if (coplanar(p)) return;
      for (int x = 0; x < ntr; ++x) {
        std::vector<I3> q(p);
        for (int o = 0; o < orders; ++o) {
          hull3(mc::fmt("%s:%d:%s:%d", tag.c_str(), id, XS[x].name, o), q, XS[x], dxs[(id + o) % 3]);
          std::rotate(q.begin(), q.begin() + 1, q.end()); if (o % 2) std::swap(q[0], q[k/2]);
        }
      }
    });
  };
  std::vector<I3> g2; for (auto& q : g) if ((q.x + q.y + q.z) % 2 == 0) g2.push_back(q);   // 14 points
  all("l4", g, 4, 7, 1); all("l5", g2, 5, 7, 4); all("l6", g2, 6, 7, 2); all("l8", g2, 8, 7, 1);
  std::vector<I3> gb; for (int x = 0; x < 2; ++x) for (int y = 0; y < 3; ++y) for (int z = 0; z < 2; ++z) gb.push_back({x*3, y*2, z*5});
  for (int k = 5; k <= 12; ++k) all(mc::fmt("b%d", k), gb, k, 7, 2);
  all("l5f", g, 5, T ? 7 : 2, 1);
  if (X) { all("l6g", g, 6, 7, 1); all("l7f", g, 7, 2, 1); all("l8f", g, 8, 1, 1); }
  if (T) { all("l6f", g, 6, 2, 1); all("l7", g2, 7, 7, 3); all("l9", g2, 9, 7, 2); all("l10", g2, 10, 7, 2); }
  // all orders of small sets, with repeated points
  { const std::vector<std::vector<I3>> sets = {{{0,0,0},{4,0,0},{0,4,0},{0,0,4},{1,1,1}}, {{0,0,0},{4,0,0},{0,4,0},{0,0,4},{0,0,4},{4,0,0}}, {{0,0,0},{0,0,0},{3,0,1},{0,3,2},{1,1,5},{3,3,3}}, {{0,0,0},{2,0,0},{4,0,0},{0,4,0},{0,0,4},{2,0,0}},
                                               {{-2,0,0},{2,0,0},{0,-2,0},{0,2,0},{0,0,-2},{0,0,2}}, {{0,0,0},{2,0,0},{2,2,0},{0,2,0},{1,1,3},{1,1,0}}, {{7,1,0},{-3,2,5},{0,0,0},{1,6,-4},{2,2,2},{7,1,0}}};
    for (size_t s = 0; s < sets.size(); ++s) { std::vector<int> perm(sets[s].size()); std::iota(perm.begin(), perm.end(), 0); int pi = 0;
      do { std::vector<I3> q; for (int i : perm) q.push_back(sets[s][i]); for (int x = 0; x < 7; x += T ? 1 : 3) hull3(mc::fmt("perm:%zu:%d:%s", s, pi, XS[x].name), q, XS[x], 1e-6); ++pi; } while (std::next_permutation(perm.begin(), perm.end())); } }
  // full lattices, prisms, flat and slender sets
  for (int a = 2; a <= 4; ++a) for (int b = 2; b <= 3; ++b) for (int c = 2; c <= 3; ++c) for (int sx : {1, 10, 1000}) for (int order = 0; order < 4; ++order) {
    std::vector<I3> p; for (int x = 0; x < a; ++x) for (int y = 0; y < b; ++y) for (int z = 0; z < c; ++z) p.push_back({x*sx, y, z});
    if (order == 1) std::reverse(p.begin(), p.end()); else if (order) { std::vector<I3> q; const int m = p.size(), st = order == 2 ? 5 : 7; std::set<int> u; int i = 0; while ((int)q.size() < m) { while (u.count(i % m)) ++i; u.insert(i % m); q.push_back(p[i % m]); i += st; } p = q; }
    for (auto& x : XS) hull3(mc::fmt("lat:%d%d%d:%d:%d:%s", a, b, c, sx, order, x.name), p, x, 1e-7);
  }
}

// ------------------------------------------------------------------ P29
typedef std::array<double, 3> D3;
// closed and outward: every directed edge is matched by its reverse; volume by the divergence theorem
static bool closedSurface(const Facets& f, int n, std::string& why) {
  std::map<std::pair<int, int>, int> e;
  for (auto& t : f) {
    if (t.size() < 3) { why = "facet of fewer than 3 points"; return false; }
    for (size_t k = 0; k < t.size(); ++k) { if (t[k] < 0 || t[k] >= n) { why = "facet index out of range"; return false; } if (e[{t[k], t[(k + 1) % t.size()]}]++) { why = "edge used twice in one direction"; return false; } }
  }
  for (auto& x : e) if (!e.count({x.first.second, x.first.first})) { why = mc::fmt("edge (%d %d) has a facet on one side only", x.first.first, x.first.second); return false; }
  return true;
}
static double volume(const Facets& f, const std::vector<double>& p, const double* o) {
  double v = 0;
  for (auto& t : f) for (size_t k = 1; k + 1 < t.size(); ++k) {
    double a[3][3]; for (int q = 0; q < 3; ++q) { const int i = t[q == 0 ? 0 : q == 1 ? k : k + 1]; for (int d = 0; d < 3; ++d) a[q][d] = p[3*i + d] - o[d]; }
    v += a[0][0]*(a[1][1]*a[2][2] - a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2] - a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1] - a[1][1]*a[2][0]);
  }
  return v/6;
}
static void convexSurface(const Facets& f, const std::vector<double>& p, double size) {
  for (auto& t : f) {
    double u[3], v[3], n[3];
    for (int d = 0; d < 3; ++d) { u[d] = p[3*t[1] + d] - p[3*t[0] + d]; v[d] = p[3*t[2] + d] - p[3*t[0] + d]; }
    n[0] = u[1]*v[2] - u[2]*v[1]; n[1] = u[2]*v[0] - u[0]*v[2]; n[2] = u[0]*v[1] - u[1]*v[0];
    const double L = std::sqrt(n[0]*n[0] + n[1]*n[1] + n[2]*n[2]);
    MC_REQUIRE(R, L > 1e-12*size*size, "facet without area");
    for (size_t i = 0; i < p.size()/3; ++i) { double s = 0; for (int d = 0; d < 3; ++d) s += n[d]/L*(p[3*i + d] - p[3*t[0] + d]); MC_REQUIRE(R, s <= 1e-6*size, "point %zu is outside of a facet by %g", i, s); }
  }
}
template <int D> static void readOFF(const std::string& file, int& np, int& nf, std::vector<double>& c, Facets& f, bool& ok) {
  std::ifstream in(file.c_str()); std::string w; int ne = -1; ok = false;
  if (!(in >> w >> np >> nf >> ne) || w != "OFF") return;
  for (int i = 0; i < D*np; ++i) { double x; if (!(in >> x)) return; c.push_back(x); }
  for (int i = 0; i < nf; ++i) { int n; if (!(in >> n) || n < 0 || n > 1000) return; std::vector<int> t(n); for (int& k : t) if (!(in >> k)) return; f.push_back(t); }
  std::string rest; ok = !(in >> rest);
}
static std::string scratch() { const char* s = getenv("VERIF_SCRATCH"); return s ? s : "/tmp"; }
template <int D> static void offCase(const std::string& id, const PLC<D, double>& plc, const std::vector<double>& c) {
  if (!R.begin(id)) return;
  const std::string file = scratch() + mc::fmt("/off.%d", int(getpid()));
  writePLCtoOFF(plc, c, file); R.transitions++;
  int np = -1, nf = -1; std::vector<double> d; Facets f; bool ok;
  readOFF<D>(file, np, nf, d, f, ok); unlink(file.c_str());
  Facets want(plc.facets); for (auto& h : plc.holes) want.insert(want.end(), h.begin(), h.end());
  MC_REQUIRE(R, ok, "the file does not hold the %d points and %d facets its header announces, or more", np, nf);
  MC_CHECK(R, np == int(c.size()/D) && nf == int(want.size()), "header has %d points and %d facets instead of %zu and %zu", np, nf, c.size()/D, want.size());
  MC_CHECK(R, f == want, "facets differ");
  for (size_t i = 0; i < c.size() && i < d.size(); ++i) MC_CHECK(R, std::abs(d[i] - c[i]) <= 1e-5*std::abs(c[i]), "coordinate %zu is %g instead of %g", i, d[i], c[i]);
  R.seen(mc::fnv(c.data(), 8*c.size(), nf)); R.nontrivial += !plc.holes.empty();
  R.end();
}
// Reduction: facets, loops of a polygon or surface as coordinates
template <int D> static std::vector<std::vector<std::vector<double>>> shapes(const Facets& f, const std::vector<double>& p) {
  std::vector<std::vector<std::vector<double>>> r;
  for (auto& t : f) { r.emplace_back(); for (int i : t) { if (i < 0 || D*i + D > int(p.size())) { r.back().push_back({}); continue; } r.back().push_back(std::vector<double>(p.begin() + D*i, p.begin() + D*i + D)); } }
  return r;
}
template <int D> static void reduceCase(const std::string& id, const PLC<D, double>& plc, const std::vector<double>& pts) {
  if (!R.begin(id)) return;
  const PLC<D, double> before(plc);
  ReducedPLC<D, double> r(plc, pts); R.transitions++;
  std::set<int> used; for (auto& t : plc.facets) used.insert(t.begin(), t.end()); for (auto& h : plc.holes) for (auto& t : h) used.insert(t.begin(), t.end());
  MC_CHECK(R, r.points.size() == D*used.size(), "%zu points instead of the %zu used", r.points.size()/D, used.size());
  MC_CHECK(R, shapes<D>(r.facets, r.points) == shapes<D>(plc.facets, pts), "facets moved");
  MC_REQUIRE(R, r.holes.size() == plc.holes.size(), "%zu holes instead of %zu", r.holes.size(), plc.holes.size());
  for (size_t h = 0; h < plc.holes.size(); ++h) MC_CHECK(R, shapes<D>(r.holes[h], r.points) == shapes<D>(plc.holes[h], pts), "hole %zu moved", h);
  R.seen(mc::fnv(r.points.data(), 8*r.points.size())); R.nontrivial += !plc.holes.empty() || used.size() < pts.size()/D;
  R.end();
}
// simplifyPLCfacets in 2D: one closed polygon with vertices along straight sides, repeated points
static void simplify2(const std::string& id, const std::vector<I2>& poly, double s, double o, int flips, int order) {
  if (!R.begin(id)) return;
  R.describe(str(poly));
  const int n = poly.size();
  std::vector<double> pts; PLC<2, double> plc;
  for (auto& q : poly) { pts.push_back(o + s*q.x); pts.push_back(o + s*q.y); }
  if (order == 2) { pts.insert(pts.begin(), 2, o + 0.5*s); }
  const int base = order == 2;
  for (int i = 0; i < n; ++i) { std::vector<int> f = {i + base, (i + 1) % n + base}; if (flips >> i & 1) std::swap(f[0], f[1]); plc.facets.push_back(f); }
  if (order == 1) for (int i = 0; i < n; ++i) std::swap(plc.facets[i], plc.facets[(5*i + 2) % n]);
  double lo[2], hi[2]; geometry::computeBoundingBox<2, double>(pts, true, lo, hi);
  const ReducedPLC<2, double> r = simplifyPLCfacets(plc, pts, lo, hi, 1e-8*s); R.transitions++;
  std::set<std::pair<I2, I2>> want, got;
  for (int i = 0; i < n; ++i) if (crossI(poly[(i + n - 1) % n], poly[i], poly[(i + 1) % n]) != 0) {
    int j = i + 1; while (crossI(poly[(j + n - 1) % n], poly[j % n], poly[(j + 1) % n]) == 0) ++j;
    I2 a = poly[i], b = poly[j % n]; if (b < a) std::swap(a, b); want.insert({a, b}); }
  std::set<int> used; std::map<int, int> deg;
  for (auto& f : r.facets) {
    MC_REQUIRE(R, f.size() == 2 && f[0] >= 0 && f[1] >= 0 && f[0] < int(r.points.size()/2) && f[1] < int(r.points.size()/2), "bad facet");
    I2 e[2]; for (int k = 0; k < 2; ++k) { e[k] = {(LL)std::lround((r.points[2*f[k]] - o)/s), (LL)std::lround((r.points[2*f[k] + 1] - o)/s)}; used.insert(f[k]); }
    if (e[1] < e[0]) std::swap(e[0], e[1]); got.insert({e[0], e[1]});
    deg[f[0]]++; deg[f[1]] += 100;
  }
  MC_CHECK(R, got == want && r.facets.size() == want.size(), "%zu sides instead of %zu, or others", r.facets.size(), want.size());
  MC_CHECK(R, used.size() == r.points.size()/2, "points that are not used");
  for (auto& d : deg) MC_CHECK(R, d.second == 101, "sides are not oriented around the polygon");
  R.seen(mc::fnv(r.points.data(), 8*r.points.size())); R.nontrivial += want.size() < size_t(n);
  R.end();
}
// simplifyPLCfacets in 3D: facets of a solid cut into pieces; the result has the solid's facets
static void simplify3(const std::string& id, const Poly3& p, const Facets& pieces, const std::vector<I3>& v, const X3& t) {
  if (!R.begin(id)) return;
  PLC<3, double> plc; plc.facets = pieces;
  const std::vector<double> pts = coords(v, t);
  double lo[3], hi[3], ext = 0; geometry::computeBoundingBox<3, double>(pts, true, lo, hi); for (int k = 0; k < 3; ++k) ext = std::max(ext, hi[k] - lo[k]);
  const ReducedPLC<3, double> r = simplifyPLCfacets(plc, pts, lo, hi, 1e-8*ext); R.transitions++;
  const std::vector<double> vc = coords(p.v, t);
  auto find = [&](int i) { int b = -1; for (size_t k = 0; k < p.v.size(); ++k) { double d = 0; for (int q = 0; q < 3; ++q) d = std::max(d, std::abs(r.points[3*i + q] - vc[3*k + q])); if (d < 1e-6*ext) b = k; } return b; };
  std::set<std::vector<int>> want, got;
  auto canon = [](std::vector<int> f) { std::rotate(f.begin(), std::min_element(f.begin(), f.end()), f.end()); return f; };
  for (auto& f : p.f) want.insert(canon(f));
  for (auto& f : r.facets) { std::vector<int> g; for (int i : f) { MC_REQUIRE(R, i >= 0 && i < int(r.points.size()/3), "index"); g.push_back(find(i)); } got.insert(canon(g)); }
  MC_CHECK(R, r.points.size() == 3*p.v.size(), "%zu points instead of %zu", r.points.size()/3, p.v.size());
  MC_CHECK(R, got == want && r.facets.size() == want.size(), "%zu facets instead of %zu, or others", r.facets.size(), want.size());
  R.seen(mc::fnv(id)); R.nontrivial += pieces.size() > p.f.size();
  R.end();
}
static void p29() {
  const bool T = true, X = R.thorough();
  const double ctr[][3] = {{0, 0, 0}, {1.5, -2.25, 3}, {1000, -500, 20}}; const double rad[] = {1, 0.01, 50, 1e-5, 1e6};
  for (auto& c : ctr) for (double r : rad) {
    const double cs = std::max(std::max(std::abs(c[0]), std::abs(c[1])), std::abs(c[2])); if (r < 1e-4*cs) continue;
    for (int n = 3; n <= (X ? 1000 : 200); ++n) if (R.begin(mc::fmt("circle:%g:%g:%d", c[0], r, n))) {
      const ReducedPLC<2, double> p = plc_circle(Point2<double>(c[0], c[1]), r, n); R.transitions++;
      MC_REQUIRE(R, p.points.size() == 2u*n && p.facets.size() == size_t(n) && p.holes.empty(), "%zu points, %zu facets", p.points.size()/2, p.facets.size());
      double area = 0; std::vector<int> deg(n);
      for (auto& f : p.facets) {
        MC_REQUIRE(R, f.size() == 2 && f[0] >= 0 && f[0] < n && f[1] >= 0 && f[1] < n && f[0] != f[1], "facet");
        deg[f[0]]++; deg[f[1]] += 100;
        const double ax = p.points[2*f[0]] - c[0], ay = p.points[2*f[0] + 1] - c[1], bx = p.points[2*f[1]] - c[0], by = p.points[2*f[1] + 1] - c[1];
        area += 0.5*(ax*by - ay*bx);
        MC_CHECK(R, std::abs(std::hypot(bx - ax, by - ay) - 2*r*sin(M_PI/n)) < 1e-9*(r + cs), "side length");
      }
      for (int i = 0; i < n; ++i) { MC_CHECK(R, deg[i] == 101, "not a loop"); MC_CHECK(R, std::abs(std::hypot(p.points[2*i] - c[0], p.points[2*i + 1] - c[1]) - r) < 1e-12*(r + cs), "vertex off the circle"); }
      MC_CHECK(R, std::abs(area - 0.5*n*r*r*sin(2*M_PI/n)) < 1e-9*r*(r + cs), "area %g", area);
      R.nontrivial++; R.seen(mc::mix(n, mc::fnv(p.points.data(), p.points.size()*8))); R.end();
    }
    for (int n = 2; n <= (X ? 40 : 20); ++n) if (R.begin(mc::fmt("sphere:%g:%g:%d", c[0], r, n))) {
      ReducedPLC<3, double> p; { mc::Quiet q; p = plc_sphere(Point3<double>(c[0], c[1], c[2]), r, n); } R.transitions++;
      const int np = p.points.size()/3; std::string why; std::set<int> used;
      for (int i = 0; i < np; ++i) MC_CHECK(R, std::abs(std::sqrt(std::pow(p.points[3*i] - c[0], 2) + std::pow(p.points[3*i + 1] - c[1], 2) + std::pow(p.points[3*i + 2] - c[2], 2)) - r) < 1e-12*(r + cs), "vertex off the sphere");
      MC_REQUIRE(R, closedSurface(p.facets, np, why), "%s", why.c_str());
      for (auto& f : p.facets) used.insert(f.begin(), f.end());
      MC_CHECK(R, int(used.size()) == np, "%d points, %zu used", np, used.size());
      convexSurface(p.facets, p.points, r);
      const double v = volume(p.facets, p.points, c), V = 4*M_PI/3*r*r*r;
      MC_CHECK(R, v < V && v > V*(n < 3 ? 0.05 : 1 - 9./(n*n)), "volume %g of a sphere with %g", v, V);
      R.nontrivial++; R.seen(mc::mix(n, mc::fnv(p.points.data(), p.points.size()*8))); R.end();
    }
    for (int n = 3; n <= (X ? 100 : 40); ++n) for (double len : {0.1, 1., 3., 40.}) if (R.begin(mc::fmt("cylinder:%g:%g:%d:%g", c[0], r, n, len))) {
      ReducedPLC<3, double> p; { mc::Quiet q; p = plc_cylinder(Point3<double>(c[0], c[1], c[2]), r, len*r, n); } R.transitions++;
      const int np = p.points.size()/3; std::string why;
      MC_REQUIRE(R, np == 2*n && closedSurface(p.facets, np, why), "%d points; %s", np, why.c_str());
      std::set<int> used; for (auto& f : p.facets) used.insert(f.begin(), f.end());
      MC_CHECK(R, int(used.size()) == np, "%d points, %zu used", np, used.size());
      for (int i = 0; i < np; ++i) MC_CHECK(R, std::abs(std::hypot(p.points[3*i] - c[0], p.points[3*i + 1] - c[1]) - r) < 1e-12*(r + cs) && std::abs(std::abs(p.points[3*i + 2] - c[2]) - 0.5*len*r) < 1e-12*(r*len + r + cs), "vertex off the cylinder");
      convexSurface(p.facets, p.points, r*std::max(1., len));
      const double V = 0.5*n*r*r*sin(2*M_PI/n)*len*r;
      MC_CHECK(R, std::abs(volume(p.facets, p.points, c) - V) < 1e-6*V, "volume %g instead of %g", volume(p.facets, p.points, c), V);
      R.nontrivial++; R.seen(mc::mix(n, mc::fnv(p.points.data(), p.points.size()*8))); R.end();
    }
  }
  mc::tuples(6, 3, [&](const std::vector<int>& t) {
    const double L[] = {-2.5, 0, 1e-3}, W[] = {1, 1e-4, 700};
    double lo[3], hi[3]; for (int k = 0; k < 3; ++k) { lo[k] = L[t[k]]; hi[k] = lo[k] + W[t[3 + k]]; }
    if (!R.begin("box:" + mc::join(t, ""))) return;
    const ReducedPLC<3, double> b = plc_box<3, double>(lo, hi); R.transitions += 3;
    std::string why; std::set<D3> want, got;
    MC_REQUIRE(R, b.points.size() == 24 && b.facets.size() == 6 && b.holes.empty() && closedSurface(b.facets, 8, why), "3D box: %s", why.c_str());
    for (int i = 0; i < 8; ++i) { want.insert(D3{i & 1 ? lo[0] : hi[0], i & 2 ? lo[1] : hi[1], i & 4 ? lo[2] : hi[2]}); got.insert(D3{b.points[3*i], b.points[3*i + 1], b.points[3*i + 2]}); }
    MC_CHECK(R, got == want, "corners of the box");
    convexSurface(b.facets, b.points, 0);
    for (auto& f : b.facets) { MC_CHECK(R, f.size() == 4, "facet of %zu points", f.size()); bool flat = false; for (int k = 0; k < 3; ++k) { bool s = true; for (int i : f) s = s && b.points[3*i + k] == b.points[3*f[0] + k]; flat = flat || s; } MC_CHECK(R, flat, "facet that is no side of the box"); }
    const double V = (hi[0] - lo[0])*(hi[1] - lo[1])*(hi[2] - lo[2]); MC_CHECK(R, std::abs(volume(b.facets, b.points, lo) - V) < 1e-9*V, "volume");
    ReducedPLC<2, double> q[2]; q[0] = plc_box<2, double>(lo, hi); internal::makeBoxPLC<double>(q[1], lo, hi);
    for (auto& x : q) {
      const std::vector<double> wp = {lo[0], lo[1], hi[0], lo[1], hi[0], hi[1], lo[0], hi[1]};
      std::set<std::pair<std::vector<double>, std::vector<double>>> ws, gs;
      for (int i = 0; i < 4; ++i) ws.insert(std::make_pair(std::vector<double>{wp[2*i], wp[2*i + 1]}, std::vector<double>{wp[(2*i + 2) % 8], wp[(2*i + 3) % 8]}));
      MC_REQUIRE(R, x.points.size() == 8 && x.facets.size() == 4 && x.holes.empty(), "2D box");
      for (auto& s : shapes<2>(x.facets, x.points)) { MC_REQUIRE(R, s.size() == 2, "2D facet"); gs.insert({s[0], s[1]}); }
      MC_CHECK(R, gs == ws, "sides of the 2D box");
    }
    R.nontrivial++; R.seen(mc::fnv(b.points.data(), 24*8)); R.end();
  });
  // reduction and output: facets and holes as every small selection of a pool of points
  for (int np = 4; np <= (X ? 14 : 9); ++np) for (int shift = 0; shift < np; ++shift) for (int step : {1, 2, 3}) for (int nf = 3; nf <= np; ++nf) for (int holes = 0; holes <= 3; ++holes) {
    std::vector<double> p2, p3; for (int i = 0; i < np; ++i) { p2.push_back(i*0.37 - 1); p2.push_back(cos(i)*1e4); for (int k = 0; k < 3; ++k) p3.push_back(sin(3*i + k)*1e-3); }
    PLC<2, double> a; PLC<3, double> b;
    auto loop = [&](int s, int n) { Facets f; for (int i = 0; i < n; ++i) f.push_back({(s + step*i) % np, (s + step*((i + 1) % n)) % np}); for (auto& x : f) if (x[0] == x[1]) x[1] = (x[1] + 1) % np; return f; };
    auto surf = [&](int s, int n) { Facets f; for (int i = 0; i < n; ++i) { f.push_back({(s + i) % np, (s + step + i) % np, (s + 2*step + 1 + i) % np}); if (i % 2) f.back().push_back((s + i + np - 1) % np); } return f; };
    a.facets = loop(shift, nf); b.facets = surf(shift, nf);
    for (int h = 0; h < holes; ++h) { a.holes.push_back(loop(shift + nf + h, 2 + h)); b.holes.push_back(surf(shift + 1 + h, 1 + h)); }
    const std::string id = mc::fmt("%d:%d:%d:%d:%d", np, shift, step, nf, holes);
    reduceCase<2>("reduce2:" + id, a, p2); reduceCase<3>("reduce3:" + id, b, p3);
    if (shift < 3) { offCase<2>("off2:" + id, a, p2); offCase<3>("off3:" + id, b, p3); }
    if (shift < 3 && R.begin("plc:" + id)) {
      // elementary queries on boundaries
      PLC<2, double> c(a); PLC<3, double> d(b);
      MC_CHECK(R, c.valid() && d.valid() && !c.empty() && !d.empty(), "valid, not empty");
      if (holes) { c.facets.clear(); MC_CHECK(R, !c.empty() && c.valid(), "only holes"); }
      PLC<2, double> e(a); e.facets[nf - 1].push_back(0); MC_CHECK(R, !e.valid(), "facet of three points in 2D"); e = a; e.facets[nf/2].pop_back(); MC_CHECK(R, !e.valid(), "facet of one point");
      PLC<3, double> g(b); g.facets[nf - 1].resize(2); MC_CHECK(R, !g.valid(), "facet of two points in 3D");
      if (holes) { e = a; e.holes.back().back().push_back(1); MC_CHECK(R, !e.valid(), "bad facet of a hole"); g = b; g.holes.back().back().resize(2); MC_CHECK(R, !g.valid(), "bad facet of a hole in 3D"); }
      c = a; c.clear(); d.clear(); MC_CHECK(R, c.empty() && d.empty() && c.valid() && c.facets.empty() && c.holes.empty() && d.holes.empty(), "cleared"); R.transitions += 8; R.nontrivial++;
      R.end();
    }
  }
  // simplification in 2D: polygons with every subset of the lattice points on their sides
  const std::vector<std::vector<I2>> polys = {{{0,0},{3,0},{3,3},{0,3}}, {{0,0},{4,0},{0,4}}, {{0,0},{4,0},{4,2},{2,2},{2,4},{0,4}}, {{0,0},{2,-2},{4,0},{2,2}}};
  for (size_t s = 0; s < polys.size(); ++s) {
    std::vector<I2> full; std::vector<int> corner;
    const auto& P = polys[s];
    for (size_t i = 0; i < P.size(); ++i) { const I2 a = P[i], b = P[(i + 1) % P.size()]; const LL g = std::max(std::abs(b.x - a.x), std::abs(b.y - a.y)); for (LL k = 0; k < g; ++k) { full.push_back({a.x + (b.x - a.x)*k/g, a.y + (b.y - a.y)*k/g}); corner.push_back(k == 0); } }
    const int nm = std::count(corner.begin(), corner.end(), 0);
    for (int m = 0; m < (1 << nm); ++m) {
      std::vector<I2> q; int b = 0; for (size_t i = 0; i < full.size(); ++i) if (corner[i] || (m >> b++ & 1)) q.push_back(full[i]);
      for (int rot = 0; rot < int(q.size()); rot += T ? 1 : 2) {
        std::vector<I2> w(q); std::rotate(w.begin(), w.begin() + rot, w.end()); if (rot % 4 == 2) std::reverse(w.begin(), w.end());
        for (int order = 0; order < 3; ++order) simplify2(mc::fmt("simp2:%zu:%d:%d:%d", s, m, rot, order), w, order == 1 ? 1e-3 : order == 2 ? 1e5 : 1, order == 2 ? 3e4 : 0, order == 0 ? 0 : (m*7 + rot) & 63, order);
      }
    }
  }
  // simplification in 3D: convex solids with facets fanned from every vertex, or from a midpoint
  int si = 0;
  std::vector<Poly3> sol = solids();
  for (int o = 0; o < 2; ++o) {   // not convex: an L and a notched prism
    const std::vector<I2> base = o ? std::vector<I2>{{0,0},{3,0},{3,4},{2,4},{2,1},{1,1},{1,4},{0,4}} : std::vector<I2>{{0,0},{4,0},{4,2},{2,2},{2,4},{0,4}};
    const int n = base.size(); Poly3 q; q.name = o ? "u" : "l";
    for (int z : {0, 3}) for (auto& b : base) q.v.push_back({b.x, b.y, z});
    std::vector<int> bot, top; for (int i = 0; i < n; ++i) { top.push_back(n + i); bot.push_back(n - 1 - i); q.f.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i}); }
    q.f.push_back(bot); q.f.push_back(top); sol.push_back(q);
  }
  for (auto& p : sol) { for (int mode = 0; mode < 6; ++mode) for (auto& t : XS) for (int rot = 0; rot < 3; ++rot) {
    Facets f; std::vector<I3> v(p.v);
    for (auto& q : v) q = {4*q.x, 4*q.y, 4*q.z};
    Poly3 big(p); for (auto& q : big.v) q = {4*q.x, 4*q.y, 4*q.z};
    for (auto fc : p.f) {
      const int n = fc.size(); std::rotate(fc.begin(), fc.begin() + rot % n, fc.end());
      if (mode < 2) { if (mode == 0 || n > 4) f.push_back(fc); else for (int k = 1; k + 1 < n; ++k) f.push_back({fc[0], fc[k], fc[k + 1]}); }
      else if (mode < 4 && n > 4) { // cut along a diagonal between two corners of the notch
        std::vector<int> a, b; const auto& F = fc;
        I3 A = {0, 0, 0}; for (int q = 1; q + 1 < n; ++q) { const I3 c = cr(sub(v[F[q]], v[F[0]]), sub(v[F[q + 1]], v[F[0]])); A = {A.x + c.x, A.y + c.y, A.z + c.z}; }
        auto reflex = [&](int i) { auto P2 = [&](int q) { return v[F[(i + q + n) % n]]; }; return dt(A, cr(sub(P2(0), P2(-1)), sub(P2(1), P2(0)))) < 0; };
        int r = 0; while (!reflex(r)) ++r;
        // from the reflex corner to the second next corner on the side away from another reflex corner
        const int e = (r + (reflex((r + 1) % n) ? n - 2 : 2)) % n; for (int i = r; ; i = (i + 1) % n) { a.push_back(F[i]); if (i == e) break; } for (int i = e; ; i = (i + 1) % n) { b.push_back(F[i]); if (i == r) break; }
        if (mode == 2) { f.push_back(a); f.push_back(b); } else { f.push_back(b); f.push_back(a); }
      }
      else if (mode < 4) {   // fan from an interior point
        I3 c = {0, 0, 0}; const int w = mode == 2 ? 1 : 2; int a = fc[0], b = fc[1], d = fc[n/2 + (n == 3)];
        if (n == 3) d = fc[2]; else d = fc[2];
        c = {(v[a].x*w + v[b].x + v[d].x*(3 - w))/4, (v[a].y*w + v[b].y + v[d].y*(3 - w))/4, (v[a].z*w + v[b].z + v[d].z*(3 - w))/4};
        v.push_back(c); for (int k = 0; k < n; ++k) f.push_back({int(v.size()) - 1, fc[k], fc[(k + 1) % n]});
      } else {                // a vertex in the middle of every edge
        std::vector<int> g;
        for (int k = 0; k < n; ++k) {
          const I3 a = v[fc[k]], b = v[fc[(k + 1) % n]], m = {(a.x + b.x)/2, (a.y + b.y)/2, (a.z + b.z)/2};
          int at = -1; for (size_t i = 0; i < v.size(); ++i) if (v[i] == m) at = i;
          if (at < 0) { at = v.size(); v.push_back(m); }
          g.push_back(fc[k]); g.push_back(at);
        }
        if (mode == 4 || n > 4) f.push_back(g); else { f.push_back({g[1], g[2], g[3]}); g.erase(g.begin() + 2); f.push_back(g); }
      }
    }
    simplify3(mc::fmt("simp3:%d:%d:%s:%d", si, mode, t.name, rot), big, f, v, t);
  } ++si; }
  // a bar whose long faces are strips of pieces: every numbering of the cross sections and every order of the pieces
  for (int k = 2; k <= (X ? 6 : 5); ++k) {
    std::vector<int> col(k + 1); std::iota(col.begin(), col.end(), 0);
    do {
      std::vector<int> ord(k); std::iota(ord.begin(), ord.end(), 0); int no = 0;
      do {
        Poly3 bar; bar.name = "bar"; std::vector<I3> v(4*(k + 1));
        for (int x = 0; x <= k; ++x) for (int q = 0; q < 4; ++q) v[4*col[x] + q] = {2*x, (q == 1 || q == 2) ? 3 : 0, q >= 2 ? 3 : 0};
        for (int x : {0, k}) for (int q = 0; q < 4; ++q) bar.v.push_back(v[4*col[x] + q]);
        bar.f = {{0, 3, 2, 1}, {4, 5, 6, 7}}; for (int q = 0; q < 4; ++q) bar.f.push_back({q, (q + 1) % 4, 4 + (q + 1) % 4, 4 + q});
        auto id = [&](int x, int q) { return 4*col[x] + q % 4; };
        Facets f = {{id(0, 0), id(0, 3), id(0, 2), id(0, 1)}, {id(k, 0), id(k, 1), id(k, 2), id(k, 3)}};
        for (int q = 0; q < 4; ++q) for (int x : ord) f.push_back({id(x, q), id(x, q + 1), id(x + 1, q + 1), id(x + 1, q)});
        simplify3(mc::fmt("strip:%d:%s:%s", k, mc::join(col).c_str(), mc::join(ord).c_str()), bar, f, v, XS[no++ % 7]);
      } while (std::next_permutation(ord.begin(), ord.end()) && (X ? k <= 5 : k <= 4));
    } while (std::next_permutation(col.begin(), col.end()));
  }
}
int main(int argc, char** argv) {
  R.parse(argc, argv);
  if (R.prop == "P28") p28();
  else if (R.prop == "P29") p29();
  return R.finish();
}
