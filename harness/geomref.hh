// Exact integer geometry shared by the geometry harnesses.
#pragma once
#include "mc.hh"
typedef long long LL;
struct I2 { LL x, y; bool operator<(const I2& o) const { return x < o.x || (x == o.x && y < o.y); } bool operator==(const I2& o) const { return x == o.x && y == o.y; } };
struct I3 { LL x, y, z; };
static LL crossI(I2 a, I2 b, I2 c) { return (b.x - a.x)*(c.y - a.y) - (b.y - a.y)*(c.x - a.x); }
static int sg(LL v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
static std::string str(const std::vector<I2>& v) { std::string s; for (auto& p : v) s += mc::fmt("(%lld,%lld)", p.x, p.y); return s; }

// Exact hull: strict corners, counterclockwise from the lowest in (x, y).
static std::vector<I2> hullI(std::vector<I2> p) {
  std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
  if (p.size() < 2) return p;
  std::vector<I2> h;
  for (int pass = 0; pass < 2; ++pass) {
    size_t base = h.size();
    for (auto& q : p) { while (h.size() >= base + 2 && crossI(h[h.size() - 2], h.back(), q) <= 0) h.pop_back(); h.push_back(q); }
    h.pop_back(); std::reverse(p.begin(), p.end());
  }
  if (h.size() == 2 && h[0] == h[1]) h.pop_back();
  return h;
}

struct Poly3 { const char* name; std::vector<I3> v; std::vector<std::vector<int>> f; };
static std::vector<Poly3> solids() {
  std::vector<Poly3> s;
  s.push_back({"box", {{0,0,0},{2,0,0},{2,2,0},{0,2,0},{0,0,2},{2,0,2},{2,2,2},{0,2,2}}, {{0,3,2,1},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}});
  s.push_back({"rod", {{0,0,0},{6,0,0},{6,1,0},{0,1,0},{0,0,1},{6,0,1},{6,1,1},{0,1,1}}, {{0,3,2,1},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}});
  s.push_back({"tet", {{0,0,0},{3,0,0},{0,3,0},{0,0,3}}, {{0,2,1},{0,1,3},{1,2,3},{2,0,3}}});
  s.push_back({"tet2", {{0,0,2},{4,0,1},{1,4,0},{1,1,4}}, {{0,2,1},{0,1,3},{1,2,3},{2,0,3}}});
  s.push_back({"oct", {{2,0,0},{-2,0,0},{0,2,0},{0,-2,0},{0,0,2},{0,0,-2}}, {{0,2,4},{2,1,4},{1,3,4},{3,0,4},{2,0,5},{1,2,5},{3,1,5},{0,3,5}}});
  s.push_back({"wedge", {{0,0,0},{4,0,0},{0,4,0},{0,0,2},{4,0,2},{0,4,2}}, {{0,2,1},{3,4,5},{0,1,4,3},{1,2,5,4},{2,0,3,5}}});
  s.push_back({"rodd", {{0,0,0},{5,5,1},{5,6,1},{0,1,0},{0,0,1},{5,5,2},{5,6,2},{0,1,1}}, {{0,3,2,1},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}});
  return s;
}
static I3 sub(I3 a, I3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static I3 cr(I3 a, I3 b) { return {a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}; }
static LL dt(I3 a, I3 b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
static Poly3 place(const Poly3& p, int rot, I3 o) {
  Poly3 r = p;
  for (auto& v : r.v) {
    I3 q = v;
    if (rot % 3 == 1) q = {v.y, v.z, v.x}; else if (rot % 3 == 2) q = {v.z, v.x, v.y};
    if (rot >= 3) q = {-q.x, -q.y, q.z};
    v = {q.x + o.x, q.y + o.y, q.z + o.z};
  }
  return r;
}
