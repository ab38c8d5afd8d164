// Reference geometry in long double: deliberately naive (O(n^2) half-plane
// clipping), independent of everything in /repo.
#ifndef VERIF_ORACLE_HH
#define VERIF_ORACLE_HH
#include <vector>
#include <cmath>
#include <algorithm>
#include <string>
#include <map>
#include <set>
namespace orc {
typedef long double Re;
struct P { Re x, y; };
inline P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
inline P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
inline P operator*(Re s, P a) { return {s * a.x, s * a.y}; }
inline Re cross(P a, P b) { return a.x * b.y - a.y * b.x; }
inline Re dot(P a, P b) { return a.x * b.x + a.y * b.y; }
inline Re norm(P a) { return std::sqrt(dot(a, a)); }
inline Re dist(P a, P b) { return norm(a - b); }
typedef std::vector<P> Poly;

inline Re area(const Poly& p) {
  Re s = 0;
  for (size_t i = 0; i < p.size(); ++i) { P a = p[i], b = p[(i + 1) % p.size()]; s += cross(a, b); }
  return s / 2;
}
inline Re areaRel(const Poly& p) {        // translation-robust
  if (p.empty()) return 0;
  Re s = 0;
  for (size_t i = 0; i < p.size(); ++i) { P a = p[i] - p[0], b = p[(i + 1) % p.size()] - p[0]; s += cross(a, b); }
  return s / 2;
}
inline P centroid(const Poly& p) {
  P o = p[0]; Re A = 0, cx = 0, cy = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    P a = p[i] - o, b = p[(i + 1) % p.size()] - o; Re c = cross(a, b);
    A += c; cx += (a.x + b.x) * c; cy += (a.y + b.y) * c;
  }
  return {o.x + cx / (3 * A), o.y + cy / (3 * A)};
}
// Keep the part of p where n.(x-o) <= 0 (Sutherland-Hodgman, exact for signed
// area even when p is nonconvex).
inline Poly clip(const Poly& p, P o, P n) {
  Poly r;
  for (size_t i = 0; i < p.size(); ++i) {
    P a = p[i], b = p[(i + 1) % p.size()];
    Re da = dot(n, a - o), db = dot(n, b - o);
    if (da <= 0) r.push_back(a);
    if ((da < 0 && db > 0) || (da > 0 && db < 0)) { Re t = da / (da - db); r.push_back(a + t * (b - a)); }
  }
  return r;
}
// Voronoi cell of generator i clipped to polygon dom.
inline Poly vorClip(const std::vector<P>& g, size_t i, Poly dom) {
  for (size_t j = 0; j < g.size() && !dom.empty(); ++j) if (j != i) {
    P m = (Re)0.5 * (g[i] + g[j]), n = g[j] - g[i];
    dom = clip(dom, m, n);
  }
  return dom;
}
inline Re segDist(P p, P a, P b) {
  P d = b - a; Re l2 = dot(d, d);
  if (l2 == 0) return dist(p, a);
  Re t = dot(p - a, d) / l2; t = std::max((Re)0, std::min((Re)1, t));
  return dist(p, a + t * d);
}
inline Re polyDist(P p, const Poly& q) {
  Re d = 1e300L;
  for (size_t i = 0; i < q.size(); ++i) d = std::min(d, segDist(p, q[i], q[(i + 1) % q.size()]));
  return d;
}
// +1 strictly inside, 0 on boundary (within tol), -1 outside; winding-free crossing test.
inline int inside(P p, const Poly& q, Re tol = 0) {
  if (polyDist(p, q) <= tol) return 0;
  bool in = false;
  for (size_t i = 0, j = q.size() - 1; i < q.size(); j = i++) {
    if ((q[i].y > p.y) != (q[j].y > p.y)) {
      Re x = q[j].x + (p.y - q[j].y) * (q[i].x - q[j].x) / (q[i].y - q[j].y);
      if (p.x < x) in = !in;
    }
  }
  return in ? 1 : -1;
}
// A domain: outer ring (ccw) and hole rings.
struct Domain {
  Poly outer; std::vector<Poly> holes;
  Re area() const { Re a = std::fabs(areaRel(outer)); for (auto& h : holes) a -= std::fabs(areaRel(h)); return a; }
  int where(P p, Re tol) const {
    int w = inside(p, outer, tol);
    if (w <= 0) return w;
    for (auto& h : holes) { int k = inside(p, h, tol); if (k == 0) return 0; if (k > 0) return -1; }
    return 1;
  }
  Re boundaryDist(P p) const { Re d = polyDist(p, outer); for (auto& h : holes) d = std::min(d, polyDist(p, h)); return d; }
  size_t nverts() const { size_t n = outer.size(); for (auto& h : holes) n += h.size(); return n; }
  std::vector<P> verts() const { std::vector<P> v(outer); for (auto& h : holes) v.insert(v.end(), h.begin(), h.end()); return v; }
  bool convex() const {
    if (!holes.empty()) return false;
    size_t n = outer.size();
    for (size_t i = 0; i < n; ++i) if (cross(outer[(i + 1) % n] - outer[i], outer[(i + 2) % n] - outer[(i + 1) % n]) < 0) return false;
    return true;
  }
};
} // namespace orc
#endif
