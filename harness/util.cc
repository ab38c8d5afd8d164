// P26 serialization, P27 quantised identification of points, P30 index bookkeeping.
#include "polytope.hh"
#include "polytope_internal.hh"
#include "polytope_serialize.hh"
#include "polytope_geometric_utilities.hh"
#include "Point.hh"
#include "Segment.hh"
#include "IntPointMap.hh"
#include "removeElements.hh"
#include "bisectSearch.hh"
#include "findBoundaryElements.hh"
#include "mortonOrderIndices.hh"
#include "mc.hh"
#include <memory>
#include <limits>
using namespace polytope;
typedef __float128 Q;
static mc::Run R;
typedef std::vector<char> Buf;
typedef Buf::const_iterator It;

// ------------------------------------------------------------------ P26
// Values are compared bit by bit (coordinates one by one: points have padding).
template <class C> static bool same(const Point2<C>& a, const Point2<C>& b);
template <class C> static bool same(const Point3<C>& a, const Point3<C>& b);
template <int D> static bool same(const Segment<D>& a, const Segment<D>& b);
template <int D, class T> static bool same(const PLC<D, T>& a, const PLC<D, T>& b);
template <int D, class T> static bool same(const ReducedPLC<D, T>& a, const ReducedPLC<D, T>& b);
template <class T> static bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof a) == 0; }
template <class T> static bool same(const std::vector<T>& a, const std::vector<T>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
  return true;
}
template <class C> static bool same(const Point2<C>& a, const Point2<C>& b) { return same(a.x, b.x) && same(a.y, b.y) && a.index == b.index; }
template <class C> static bool same(const Point3<C>& a, const Point3<C>& b) { return same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z) && a.index == b.index; }
template <int D> static bool same(const Segment<D>& a, const Segment<D>& b) { return same(a.a, b.a) && same(a.b, b.b); }
template <int D, class T> static bool same(const PLC<D, T>& a, const PLC<D, T>& b) { return same(a.facets, b.facets) && same(a.holes, b.holes); }
template <int D, class T> static bool same(const ReducedPLC<D, T>& a, const ReducedPLC<D, T>& b) { return same(a.facets, b.facets) && same(a.holes, b.holes) && same(a.points, b.points); }
// what a fresh object is
template <class T> static void append(std::vector<T>& a, const std::vector<T>& b) { a.insert(a.end(), b.begin(), b.end()); }
struct Obj {
  std::string name;
  virtual ~Obj() {}
  virtual void put(Buf&) const = 0;
  virtual bool get(It&, const It&) const = 0;        // reads into a fresh object
  virtual int getTwice(const Buf&) const { return -1; }  // reads twice into the same object
};
template <class T> struct ObjT : Obj {
  T v;
  explicit ObjT(const std::string& n, const T& v_) : v(v_) { name = n; }
  void put(Buf& b) const { serialize(v, b); }
  bool get(It& i, const It& e) const { std::unique_ptr<T> w(new T()); deserialize(*w, i, e); return same(*w, v); }
  int getTwice(const Buf& b) const { return twice(v, b); }
  template <class U> static int twice(const U&, const Buf&) { return -1; }
  template <class U> static int twice(const std::vector<U>& v, const Buf& b) {
    std::vector<U> w; It i = b.begin(); deserialize(w, i, b.end()); i = b.begin(); deserialize(w, i, b.end());
    std::vector<U> x(v); append(x, v); return same(w, x) && i == b.end();
  }
};
typedef std::vector<std::unique_ptr<Obj>> Objs;
template <class T> static void add(Objs& o, const std::string& n, const T& v) { o.emplace_back(new ObjT<T>(n, v)); }
static double bits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
template <class T> static std::vector<T> vec(std::initializer_list<T> l) { return l; }
static void smallObjects(Objs& o) {
  add<char>(o, "char", '\x80'); add<int>(o, "int", -1234567); add<int>(o, "intmin", INT32_MIN); add<unsigned>(o, "unsigned", 0xfedcba98u);
  add<uint64_t>(o, "u64", 0x8123456789abcdefull); add<long>(o, "long", -5000000000l); add<short>(o, "short", -2); add<bool>(o, "bool", true);
  add<float>(o, "float", -1.1754942e-38f);
  int k = 0;
  for (uint64_t u : {0ull, 0x8000000000000000ull, 1ull, 0x7ff8000000000123ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x3fb999999999999aull, 0x7fefffffffffffffull})
    add<double>(o, mc::fmt("double%d", k++), bits(u));
  add(o, "pair", std::make_pair(3, -4));
}
// All nested vectors with up to three levels and at most n entries on each.
template <class T> static std::vector<std::vector<T>> vectorsOf(const std::vector<T>& alphabet, int n) {
  std::vector<std::vector<T>> r;
  for (int k = 0; k <= n; ++k) mc::tuples(k, alphabet.size(), [&](const std::vector<int>& t) { std::vector<T> v; for (int i : t) v.push_back(alphabet[i]); r.push_back(v); });
  return r;
}
static PLC<2, double> plcOf(const std::vector<std::vector<int>>& f, const std::vector<std::vector<std::vector<int>>>& h) { PLC<2, double> p; p.facets = f; p.holes = h; return p; }
static void roundTrip(const std::string& id, const std::vector<const Obj*>& seq, size_t prefix) {
  if (!R.begin(id)) return;
  Buf b; for (size_t i = 0; i < prefix; ++i) b.push_back(char(0x55 + i));
  std::vector<size_t> ends;
  for (auto* o : seq) {
    Buf alone, before(b);
    o->put(b); o->put(alone); R.transitions++;
    MC_REQUIRE(R, b.size() == before.size() + alone.size() && std::equal(before.begin(), before.end(), b.begin()) && std::equal(alone.begin(), alone.end(), b.begin() + before.size()),
               "serialize %s: does not append the object to the buffer", o->name.c_str());
    ends.push_back(b.size());
  }
  Buf exact(b); exact.shrink_to_fit();
  It i = exact.begin() + prefix; const It e = exact.end();
  for (size_t k = 0; k < seq.size(); ++k) {
    MC_REQUIRE(R, seq[k]->get(i, e), "deserialize %s: not the object written", seq[k]->name.c_str());
    MC_REQUIRE(R, i == exact.begin() + ends[k], "deserialize %s: stops %ld bytes from the end of the object", seq[k]->name.c_str(), long(i - exact.begin()) - long(ends[k]));
    R.transitions++;
  }
  MC_CHECK(R, i == e, "not all of the buffer was read");
  // an object may also be read alone, out of the middle of the buffer
  for (size_t k = 0; k < seq.size(); ++k) {
    It j = exact.begin() + (k ? ends[k - 1] : prefix); const It je = exact.begin() + ends[k];
    MC_REQUIRE(R, seq[k]->get(j, je) && j == je, "deserialize %s: cannot be read alone", seq[k]->name.c_str());
  }
  if (seq.size() == 1 && prefix == 0) MC_CHECK(R, seq[0]->getTwice(exact) != 0, "reading %s into a vector with elements does not append", seq[0]->name.c_str());
  R.seen(mc::fnv(b.data(), b.size())); R.nontrivial += b.size() > prefix;
  R.end();
}
static void p26() {
  const bool T = true, X = R.thorough();
  Objs all;
  smallObjects(all);
  for (auto& v : vectorsOf<char>({'a', 0, '\xff'}, 3)) add(all, "vector<char>" + mc::fmt("%zu.", v.size()) + std::to_string(mc::fnv(v.data(), v.size()) % 1000), v);
  for (auto& v : vectorsOf<double>({bits(0x7ff8000000000001ull), -0.0, 1e300, 0.1}, 3)) add(all, "vector<double>" + mc::join(v), v);
  const auto vi = vectorsOf<int>({-7, 1}, 2);
  for (auto& v : vectorsOf<int>({-7, 0, 1}, 3)) add(all, "vector<int>" + mc::join(v), v);
  const auto vvi = vectorsOf(vi, 2);
  int n = 0;
  for (auto& v : vvi) add(all, mc::fmt("vector2<int>%d", n++), v);
  for (auto& v : vectorsOf(vectorsOf<unsigned>({4000000000u}, 2), 3)) add(all, mc::fmt("vector2<unsigned>%d", n++), v);
  for (auto& v : vectorsOf(vectorsOf<double>({0.5}, 2), 3)) add(all, mc::fmt("vector2<double>%d", n++), v);
  const std::vector<std::vector<std::vector<int>>> shapes2 = {{}, {{}}, {{1}}, {{}, {2, 3}}, {{4, 5}, {}}, {{6}, {7}, {8, 9}}};
  std::vector<std::vector<std::vector<std::vector<int>>>> shapes3 = vectorsOf(shapes2, T ? 3 : 2);
  n = 0;
  for (auto& v : shapes3) add(all, mc::fmt("vector3<int>%d", n++), v);
  n = 0;
  for (auto& v : vectorsOf(std::vector<std::vector<std::vector<std::vector<int>>>>{shapes3[0], shapes3[1], shapes3[4], shapes3[20]}, 2)) add(all, mc::fmt("vector4<int>%d", n++), v);
  n = 0;
  for (auto& f : shapes2) for (size_t h = 0; h < shapes3.size(); h += T ? 1 : 3) {
    PLC<2, double> p = plcOf(f, shapes3[h]); add(all, mc::fmt("PLC2.%d", n), p);
    PLC<3, double> q; q.facets = f; q.holes = shapes3[h]; add(all, mc::fmt("PLC3.%d", n), q);
    for (int np : {0, 1, 4}) {
      ReducedPLC<2, double> r; r.facets = f; r.holes = shapes3[h]; for (int i = 0; i < 2*np; ++i) r.points.push_back(i/3.0 - 1); add(all, mc::fmt("ReducedPLC2.%d.%d", n, np), r);
      ReducedPLC<3, double> s; s.facets = f; s.holes = shapes3[h]; for (int i = 0; i < 3*np; ++i) s.points.push_back(1e-300*i - 1e5); add(all, mc::fmt("ReducedPLC3.%d.%d", n, np), s);
      ReducedPLC<2, int> t; t.facets = f; t.holes = shapes3[h]; for (int i = 0; i < 2*np; ++i) t.points.push_back(i*i - 7); add(all, mc::fmt("ReducedPLC2i.%d.%d", n, np), t);
    }
    ++n;
  }
  for (int x : {0, -5, INT32_MAX}) for (int y : {1, INT32_MIN}) for (unsigned i : {0u, 0xffffffffu}) {
    add(all, mc::fmt("Point2<int>%d,%d,%u", x, y, i), Point2<int>(x, y, i));
    add(all, mc::fmt("Point3<int>%d,%d,%u", x, y, i), Point3<int>(x, y, x ^ 77, i));
    add(all, mc::fmt("Point2<double>%d,%d,%u", x, y, i), Point2<double>(x/3.0, y*1e-310, i));
    add(all, mc::fmt("Point3<double>%d,%d,%u", x, y, i), Point3<double>(x/3.0, y*1e-310, -0.0, i));
    add(all, mc::fmt("Point2<u64>%d,%d,%u", x, y, i), Point2<uint64_t>(uint64_t(x), uint64_t(y), i));
    Segment<2> s(x, y, y - 1, x/2); s.a.index = i; s.b.index = ~i; add(all, mc::fmt("Segment%d,%d,%u", x, y, i), s);
    add(all, mc::fmt("vector<Point2>%d,%d,%u", x, y, i), vec({Point2<int>(x, y, i), Point2<int>(y, x, i + 1)}));
    add(all, mc::fmt("vector2<Point3>%d,%d,%u", x, y, i), vec({vec({Point3<double>(x, y, 1, i)}), std::vector<Point3<double>>()}));
  }
  { std::vector<double> big(5000); for (int i = 0; i < 5000; ++i) big[i] = i/7.; add(all, "vector<double>big", big);
    std::vector<std::vector<unsigned>> bb(300); for (int i = 0; i < 300; ++i) bb[i].assign(i % 7, i); add(all, "vector2<unsigned>big", bb);
    ReducedPLC<2, double> r; for (int i = 0; i < 400; ++i) { r.facets.push_back({i, (i + 1) % 400}); r.points.push_back(cos(i)); r.points.push_back(sin(i)); } add(all, "ReducedPLC2.big", r);
    add(all, "vector<ReducedPLC>", vec({r, ReducedPLC<2, double>(), r})); }
  for (size_t i = 0; i < all.size(); ++i) for (size_t prefix : {0, 3}) roundTrip(mc::fmt("one:%zu:%s:%zu", i, all[i]->name.c_str(), prefix), {all[i].get()}, prefix);
  // sequences over an alphabet of one object of each kind and a few special shapes
  std::vector<const Obj*> abc;
  std::map<std::string, int> kinds;
  for (auto& o : all) { std::string k = o->name.substr(0, o->name.find_first_of(".0123456789,-", 6)); if (kinds[k]++ == (k.substr(0, 6) == "vector" ? 2 : 1) || o->name.find("big") != std::string::npos) abc.push_back(o.get()); }
  abc.push_back(all[0].get()); abc.push_back(all[4].get()); abc.push_back(all[12].get());
  R.count("alphabet", abc.size());
  for (int k = 2; k <= 3; ++k) mc::tuples(k, abc.size(), [&](const std::vector<int>& t) {
    std::vector<const Obj*> s; for (int i : t) s.push_back(abc[i]);
    roundTrip("seq:" + mc::join(t), s, 0);
  });
  if (T) { std::vector<const Obj*> few; for (size_t i = 0; i < abc.size(); i += X ? 1 : 2) few.push_back(abc[i]);
    mc::tuples(4, few.size(), [&](const std::vector<int>& t) { std::vector<const Obj*> s; for (int i : t) s.push_back(few[i]); roundTrip("seq4:" + mc::join(t), s, 1); }); }
}

// ------------------------------------------------------------------ P27

template <int D> struct Frame { std::string name; double lo[D], hi[D], olo[D], ohi[D], tol; };
// the width of a quantum in dimension k
template <int D> static double quantum(const double* lo, const double* hi, double tol, int k) {
  const double n = D == 2 ? 2147483647.0 : 2097151.0;
  return std::max(std::max((hi[k] - lo[k])/n, tol), std::numeric_limits<double>::epsilon());
}
template <int D> static uint64_t comp(uint64_t h, int k) { const int b = D == 2 ? 31 : 21; return (h >> (b*k)) & ((1ull << b) - 1); }
template <int D> static void frameCase(const Frame<D>& f) {
  typedef geometry::Hasher<D, double> H;
  if (!R.begin("hash:" + f.name)) return;
  const uint64_t M = D == 2 ? 2147483647ull : 2097151ull;
  MC_CHECK(R, H::coordMax() == M && H::outerFlag() == (1ull << 63) && H::num1dbits() == (D == 2 ? 31u : 21u), "constants of the hash");
  // candidate coordinates per dimension: cell boundaries and both neighbouring doubles, box corners
  std::vector<double> c[D];
  for (int k = 0; k < D; ++k) {
    std::set<double> s;
    auto add = [&](double x) { for (double y : {std::nextafter(x, -1e308), x, std::nextafter(x, 1e308)}) if (y >= f.olo[k] && y <= f.ohi[k]) s.insert(y); };
    const double* L[2] = {f.lo, f.olo}; const double* U[2] = {f.hi, f.ohi};
    for (int o = 0; o < 2; ++o) {
      const double dx = quantum<D>(L[o], U[o], f.tol, k);
      for (double m : {0., 1., 2., 3., 1000., std::floor(M/2.), std::floor(M/2.) + 1, M - 1., M*1.}) { add(L[o][k] + m*dx); if (D == 2) add(L[o][k] + (m + 0.5)*dx); }
      add(L[o][k]); add(U[o][k]); add(0.5*(L[o][k] + U[o][k])); if (D == 2 || R.thorough()) { add(L[o][k] + 0.3*(U[o][k] - L[o][k])); add(0); }
    }
    c[k].assign(s.begin(), s.end());
    if (D == 3 && !R.thorough() && c[k].size() > 18) { std::vector<double> w; for (size_t i = 0; i < c[k].size(); ++i) if (i < 9 || i + 9 >= c[k].size()) w.push_back(c[k][i]); c[k] = w; }
  }
  std::vector<size_t> idx(D, 0);
  // per frame and dimension: coordinate -> quantum, to be monotone and independent of the other coordinates
  std::map<double, uint64_t> seenq[2][D];
  while (true) {
    double p[D]; bool outer = false;
    for (int k = 0; k < D; ++k) { p[k] = c[k][idx[k]]; outer = outer || p[k] < f.lo[k] || p[k] > f.hi[k]; }
    const double* L = outer ? f.olo : f.lo; const double* U = outer ? f.ohi : f.hi;
    const uint64_t h = H::hashPosition(p, f.lo, f.hi, f.olo, f.ohi, f.tol);
    R.transitions++;
    MC_CHECK(R, (h >> 63) == (outer ? 1u : 0u), "point %s: flag of the outer box is %d", mc::join(std::vector<double>(p, p + D)).c_str(), int(h >> 63));
    double back[D]; H::unhashPosition(back, f.lo, f.hi, f.olo, f.ohi, h, f.tol);
    uint64_t hp[3] = {0, 0, 0};
    if (D == 2) geometry::Hasher<2, double>::hashedPosition(hp, h);
    bool inside = true, representable = true;
    for (int k = 0; k < D; ++k) {
      const uint64_t q = comp<D>(h, k);
      const double dx = quantum<D>(L, U, f.tol, k);
      const Q t = Q(std::max(0., p[k] - L[k]))/Q(dx), slack = Q(4e-15)*t + Q(1e-30);
      MC_CHECK(R, q <= M && (Q(q) <= t + slack) && (t - slack <= Q(q) + 1 || q == M), "point %.17g: component %d is %llu, not %.9g", p[k], k, (unsigned long long)q, double(t));
      if (D == 2) MC_CHECK(R, hp[k] == q, "hashedPosition component %d", k);
      auto& m = seenq[outer][k]; auto it = m.find(p[k]);
      if (it != m.end()) MC_CHECK(R, it->second == q, "component %d of the hash of %.17g depends on the other coordinates", k, p[k]);
      else m[p[k]] = q;
      const double mag = std::max(std::abs(L[k]), std::abs(U[k])), e = 4*mag*std::numeric_limits<double>::epsilon();
      MC_CHECK(R, back[k] >= L[k] && back[k] <= U[k], "unhashed point leaves the box");
      MC_CHECK(R, std::abs(back[k] - p[k]) <= 0.5*dx*(1 + 1e-9) + e + 1e-15*4*double(t)*dx, "component %d: %.17g unhashes to %.17g, further than half of %.9g", k, p[k], back[k], dx);
      representable = representable && dx > 16*e && q < M - 1 && q > 0 && back[k] > L[k] + 0.25*dx && back[k] < U[k] - 0.25*dx;
      inside = inside && back[k] >= f.lo[k] && back[k] <= f.hi[k];
    }
    if (representable && inside != outer) {
      const uint64_t h2 = H::hashPosition(back, f.lo, f.hi, f.olo, f.ohi, f.tol);
      MC_CHECK(R, h2 == h, "hashing the unhashed point %s gives another hash", mc::join(std::vector<double>(p, p + D)).c_str());
      R.nontrivial++;
    }
    R.seen(h);
    int k = 0; while (k < D && ++idx[k] == c[k].size()) idx[k++] = 0;
    if (k == D) break;
  }
  for (int o = 0; o < 2; ++o) for (int k = 0; k < D; ++k) { uint64_t last = 0; for (auto& e : seenq[o][k]) { MC_CHECK(R, e.second >= last, "component %d of the hash is not monotone at %.17g", k, e.first); last = e.second; } }
  R.end();
}
// uniquePoints by its definition: same cell of the quantised box, first come first kept
template <int D> static void uniqueCase(const std::string& id, const std::vector<double>& pts, const double* lo, const double* hi, double tol, double h) {
  if (!R.begin(id)) return;
  R.describe(mc::fmt("points %s box %g..%g tol %g", mc::join(pts).c_str(), lo[0], hi[0], tol));
  std::vector<double> u(7, 1.); std::vector<unsigned> m(3, 9u);
  const std::vector<double> before(pts);
  geometry::uniquePoints<D, double>(pts, lo, hi, tol, u, m); R.transitions++;
  const unsigned n = pts.size()/D;
  MC_REQUIRE(R, pts == before && m.size() == n && u.size() % D == 0 && u.size() <= pts.size(), "sizes: %zu coordinates, map of %zu", u.size(), m.size());
  const unsigned nu = u.size()/D;
  unsigned next = 0;
  for (unsigned i = 0; i < n; ++i) {
    MC_REQUIRE(R, m[i] < nu, "map of point %u out of range", i);
    if (m[i] >= next) {
      MC_REQUIRE(R, m[i] == next, "unique points are not numbered in order of appearance"); ++next;
      for (int k = 0; k < D; ++k) MC_REQUIRE(R, u[D*m[i] + k] == pts[D*i + k], "unique point %u is not the first of its points", m[i]);
    }
    for (unsigned j = 0; j < i; ++j) {
      bool apart = false, eq = true;
      for (int k = 0; k < D; ++k) { const double q = quantum<D>(lo, hi, tol, k); apart = apart || std::abs(pts[D*i + k] - pts[D*j + k]) > q*(1 + 1e-9); eq = eq && pts[D*i + k] == pts[D*j + k]; }
      if (apart) MC_CHECK(R, m[i] != m[j], "points %u and %u were identified, though further apart than the tolerance", j, i);
      if (eq) MC_CHECK(R, m[i] == m[j], "equal points %u and %u were not identified", j, i);
      // same cell: points well within one cell of the tolerance grid anchored at the low corner
      bool cell = true, sure = true;
      for (int k = 0; k < D; ++k) {
        const double q = quantum<D>(lo, hi, tol, k); const double a = (pts[D*i + k] - lo[k])/q, b = (pts[D*j + k] - lo[k])/q;
        cell = cell && std::floor(a) == std::floor(b);
        for (double x : {a, b}) sure = sure && std::abs(x - std::round(x)) > 1e-5;
      }
      if (sure) MC_CHECK(R, cell == (m[i] == m[j]), "points %u and %u were %sidentified, but %s", j, i, m[i] == m[j] ? "" : "not ", cell ? "share a cell" : "are in different cells");
    }
  }
  MC_CHECK(R, next == nu, "%u unique points but only %u used", nu, next);
  R.seen(mc::mix(mc::fnv(m.data(), m.size()*sizeof(unsigned)), mc::fnv(u.data(), u.size()*8))); R.nontrivial += nu < n;
  R.end();
}
template <int D> struct MapModel { std::vector<std::vector<int>> pts; };
template <int D> static Point2<int> ip(const std::vector<int>& v, std::integral_constant<int, 2>) { return Point2<int>(v[0], v[1]); }
template <int D> static Point3<int> ip(const std::vector<int>& v, std::integral_constant<int, 3>) { return Point3<int>(v[0], v[1], v[2]); }
template <int D> static void mapWalk(internal::IntPointMap<D, int> m, std::vector<std::vector<int>> model, int tol, const std::vector<std::vector<int>>& grid, int depth, const std::string& hist, std::set<std::string>& states) {
  auto matches = [&](const std::vector<int>& g) { int c = 0, at = -1; for (size_t i = 0; i < model.size(); ++i) { bool in = true; for (int k = 0; k < D; ++k) in = in && std::abs(model[i][k] - g[k]) <= tol; if (in) { ++c; at = i; } } return std::make_pair(c, at); };
  for (auto& g : grid) { const bool h = m.have(ip<D>(g, std::integral_constant<int, D>())); R.transitions++; MC_REQUIRE(R, h == (matches(g).first > 0), "after %s: have(%s) is %d", hist.c_str(), mc::join(g).c_str(), int(h)); }
  if (depth == 0) return;
  for (auto& g : grid) {
    const auto q = matches(g);
    if (q.first > 1) continue;                      // the map assumes at most one match
    internal::IntPointMap<D, int> m2(m);
    const size_t id = m2.index(ip<D>(g, std::integral_constant<int, D>())); R.transitions++;
    const size_t want = q.first ? q.second : model.size();
    MC_REQUIRE(R, id == want, "after %s: index(%s) is %zu instead of %zu", hist.c_str(), mc::join(g).c_str(), id, want);
    R.nontrivial += q.first;
    if (q.first) { MC_REQUIRE(R, m2.mCurrentID == model.size(), "finding a known point changes the map"); continue; }
    auto model2 = model; model2.push_back(g);
    std::string key; for (auto& x : model2) key += mc::join(x) + ";";
    R.seen(mc::fnv(key));
    mapWalk<D>(m2, model2, tol, grid, depth - 1, hist + " " + mc::join(g), states);
    if (R.failedThis) return;
  }
}
template <int D> static void maps(int depth, int width) {
  for (int tol = 0; tol <= 2; ++tol) for (int step = 1; step <= 3; ++step) for (int off : {0, -4, 1000000000}) {
    std::vector<std::vector<int>> grid;
    mc::tuples(D, width, [&](const std::vector<int>& t) { std::vector<int> g; for (int x : t) g.push_back(x*step + off - step); grid.push_back(g); });
    // one case per first point
    for (auto& g : grid) {
      if (!R.begin(mc::fmt("map%d:%d:%d:%d:", D, tol, step, off) + mc::join(g))) continue;
      internal::IntPointMap<D, int> m(tol); std::set<std::string> st;
      MC_CHECK(R, m.index(ip<D>(g, std::integral_constant<int, D>())) == 0 && m.mCurrentID == 1, "first point");
      mapWalk<D>(m, {g}, tol, grid, depth - 1, mc::join(g), st);
      R.end();
    }
  }
}
static void p27() {
  const bool T = R.thorough();
  // coding
  if (R.begin("code")) {
    typedef geometry::Hasher<2, double> H2; typedef geometry::Hasher<3, double> H3;
    std::vector<uint64_t> v2, v3;
    for (int b = 0; b <= 31; ++b) for (int d = -1; d <= 1; ++d) { const int64_t x = (1ll << b) + d; if (x >= 0 && x < (1ll << 31)) v2.push_back(x); if (x >= 0 && x < (1ll << 21)) v3.push_back(x); }
    for (uint64_t x : v2) for (uint64_t y : v2) { const uint64_t h = H2::hash(x, y); MC_CHECK(R, H2::qxval(h) == x && H2::qyval(h) == y && !(h & H2::outerFlag()) && H2::qxval(h | H2::outerFlag()) == x && H2::qyval(h | H2::outerFlag()) == y, "2D code of (%llu, %llu)", (unsigned long long)x, (unsigned long long)y); R.transitions++; }
    for (uint64_t x : v3) for (uint64_t y : v3) for (uint64_t z : v3) { const uint64_t h = H3::hash(x, y, z), g = h | H3::outerFlag(); MC_CHECK(R, H3::qxval(h) == x && H3::qyval(h) == y && H3::qzval(h) == z && !(h & H3::outerFlag()) && H3::qxval(g) == x && H3::qyval(g) == y && H3::qzval(g) == z, "3D code"); R.transitions++; }
    R.end();
  }
  struct B { const char* n; double s, o; };
  const B bs[] = {{"unit", 1, 0}, {"neg", 2, -1}, {"off", 1, 1000}, {"tiny", 1e-7, 0}, {"big", 3e8, -1e8}, {"third", 1/3., 0.1}};
  const double tols[] = {0, 1e-12, 1e-6, 0.01, 0.3};
  for (auto& b : bs) for (double tol : tols) for (int outer = 0; outer < 3; ++outer) for (int aspect = 0; aspect < 3; ++aspect) {
    Frame<2> f; Frame<3> g;
    const double asp[3][3] = {{1, 1, 1}, {1, 0.01, 7}, {100, 1, 0.125}};
    auto set = [&](double* lo, double* hi, double* olo, double* ohi, int D) {
      for (int k = 0; k < D; ++k) { lo[k] = b.o; hi[k] = b.o + b.s*asp[aspect][k]; const double w = hi[k] - lo[k]; olo[k] = lo[k] - (outer ? outer == 2 && k == 0 ? 0 : 0.5*w : 0); ohi[k] = hi[k] + (outer ? 3*w : 0); } };
    set(f.lo, f.hi, f.olo, f.ohi, 2); set(g.lo, g.hi, g.olo, g.ohi, 3);
    f.tol = g.tol = tol*b.s; f.name = mc::fmt("2:%s:%g:%d:%d", b.n, tol, outer, aspect); g.name = mc::fmt("3:%s:%g:%d:%d", b.n, tol, outer, aspect);
    frameCase<2>(f); frameCase<3>(g);
  }
  // uniquePoints: every sequence of points of a grid of a fraction of the tolerance
  struct U { const char* n; double s, o; };
  for (auto& s : {U{"unit", 1, 0}, U{"off", 10, -4}, U{"tiny", 1e-5, 1}}) for (double tol : {0., 1e-3, 0.25, 0.4}) {
    const double step = tol > 0 ? tol*s.s*0.45 : s.s*0.2;
    double lo[3], hi[3]; for (int k = 0; k < 3; ++k) { lo[k] = s.o; hi[k] = s.o + s.s; }
    auto at = [&](int i) { return std::min(hi[0], lo[0] + (i == 4 ? s.s : (i + 0.1)*step)); };
    for (int n = 1; n <= 3; ++n) mc::tuples(2*n, T ? 5 : n == 3 ? 3 : 5, [&](const std::vector<int>& t) { std::vector<double> p; for (int i : t) p.push_back(at(i)); uniqueCase<2>(mc::fmt("uniq2:%s:%g:", s.n, tol) + mc::join(t, ""), p, lo, hi, tol*s.s, step); });
    mc::tuples(T ? 5 : 4, 9, [&](const std::vector<int>& t) { std::vector<double> p; for (int i : t) { p.push_back(at(i % 3)); p.push_back(at(i/3)); } uniqueCase<2>(mc::fmt("uniq2n:%s:%g:", s.n, tol) + mc::join(t, ""), p, lo, hi, tol*s.s, step); });
    for (int n = 2; n <= 3; ++n) mc::tuples(n, n == 2 ? 64 : T ? 27 : 8, [&](const std::vector<int>& t) { std::vector<double> p; const int w = n == 2 ? 4 : T ? 3 : 2; for (int i : t) { p.push_back(at(i % w)); p.push_back(at(i/w % w)); p.push_back(at(i/w/w)); } uniqueCase<3>(mc::fmt("uniq3:%s:%g:", s.n, tol) + mc::join(t), p, lo, hi, tol*s.s, step); });
  }
  maps<2>(T ? 4 : 3, 4); maps<3>(T ? 3 : 2, 3);
  if (T) maps<3>(3, 4);
}

// ------------------------------------------------------------------ P30
template <class V, class I> static void removeCase(const std::string& id, const std::vector<V>& v, const std::vector<int>& del) {
  if (!R.begin(id)) return;
  std::vector<V> w(v); std::vector<I> d(del.begin(), del.end()); const std::vector<I> d0(d);
  const std::vector<int> map = internal::removeElements(w, d); R.transitions++;
  std::vector<V> keep; std::vector<int> want(v.size(), -1);
  for (size_t i = 0; i < v.size(); ++i) if (!std::binary_search(del.begin(), del.end(), int(i))) { want[i] = keep.size(); keep.push_back(v[i]); }
  MC_CHECK(R, w == keep, "kept elements: %zu instead of %zu, or others", w.size(), keep.size());
  MC_CHECK(R, map == want, "map %s instead of %s", mc::join(map).c_str(), mc::join(want).c_str());
  MC_CHECK(R, d == d0, "list of indices changed");
  R.seen(mc::mix(mc::fnv(mc::join(del)), v.size())); R.nontrivial += !del.empty();
  R.end();
}
typedef std::pair<int, int> E;
static void edgesCase(const std::string& id, const std::vector<E>& in, bool chain) {
  if (!R.begin(id)) return;
  std::string d; for (auto& e : in) d += mc::fmt("(%d %d)", e.first, e.second);
  R.describe(d);
  std::vector<E> e(in); std::vector<int> r;
  const bool made = internal::computeSortedFaceEdges(e, r); R.transitions++;
  MC_REQUIRE(R, made == chain, "returned %d", int(made));
  MC_REQUIRE(R, e.size() == in.size() + chain && r.size() == e.size() && std::equal(in.begin(), in.end(), e.begin()), "%zu edges, %zu in the result", e.size(), r.size());
  std::vector<int> used(e.size(), 0);
  for (int i : r) { const int k = i < 0 ? ~i : i; MC_REQUIRE(R, k < int(e.size()) && !used[k]++, "edge %d is not listed once", k); }
  for (size_t i = 0; i < r.size(); ++i) {
    const int a = r[i], b = r[(i + 1) % r.size()];
    const int end = a < 0 ? e[~a].first : e[a].second, start = b < 0 ? e[~b].second : e[b].first;
    MC_REQUIRE(R, end == start, "edges are not in sequence: %s of %s", mc::join(r).c_str(), d.c_str());
  }
  R.seen(mc::fnv(d)); R.nontrivial++;
  R.end();
}
static void p30() {
  const bool T = true, X = R.thorough();
  for (int n = 0; n <= (X ? 18 : 14); ++n) for (int m = 0; m < (1 << n); ++m) {
    std::vector<int> v, del; std::vector<std::vector<double>> vv;
    for (int i = 0; i < n; ++i) { v.push_back(100 - 7*i); vv.push_back(std::vector<double>(i % 3, i)); if (m >> i & 1) del.push_back(i); }
    removeCase<int, int>(mc::fmt("remove:int:%d:%d", n, m), v, del);
    if (n <= 8) { removeCase<std::vector<double>, unsigned>(mc::fmt("remove:vec:%d:%d", n, m), vv, del); removeCase<int, size_t>(mc::fmt("remove:size_t:%d:%d", n, m), v, del); }
  }
  for (int n = 1; n <= (X ? 12 : 8); ++n) mc::tuples(n, 4, [&](const std::vector<int>& t) {
    for (size_t i = 1; i < t.size(); ++i) if (t[i] < t[i - 1]) return;
    for (int desc = 0; desc < 2; ++desc) {
      if (!R.begin(mc::fmt("bisect:%d:", desc) + mc::join(t, ""))) continue;
      std::vector<double> tab(t.begin(), t.end()); std::vector<int> itab(t); std::vector<unsigned> utab(t.begin(), t.end());
      if (desc) { std::reverse(tab.begin(), tab.end()); std::reverse(itab.begin(), itab.end()); std::reverse(utab.begin(), utab.end()); }
      const bool asc = tab.back() >= tab[0];
      for (int v2 = -2; v2 <= 8; ++v2) {
        const double v = v2/2.0; int want = -1;
        for (double x : tab) want += asc ? x <= v : x > v;
        MC_CHECK(R, bisectSearch(tab, v) == want, "bisectSearch(%g) in %s is %d instead of %d", v, mc::join(tab).c_str(), bisectSearch(tab, v), want);
        if (v2 % 2 == 0) MC_CHECK(R, bisectSearch(itab, v2/2) == want, "bisectSearch(%d) in integers %s", v2/2, mc::join(itab).c_str());
        if (v2 >= 0 && v2 % 2 == 0) MC_CHECK(R, bisectSearch(utab, unsigned(v2/2)) == want, "bisectSearch(%d) in unsigned %s", v2/2, mc::join(itab).c_str());
        R.transitions++;
      }
      R.nontrivial++; R.seen(mc::mix(mc::fnv(mc::join(t)), desc)); R.end();
    }
  });
  // loops and chains of edges: every order, orientation and a few labellings
  for (int n = 2; n <= (X ? 8 : 7); ++n) for (int chain = 0; chain < 2; ++chain) {
    if (!chain && n < 3) continue;
    std::vector<std::vector<int>> labels;
    { std::vector<int> l; for (int i = 0; i <= n; ++i) l.push_back(i); labels.push_back(l); std::reverse(l.begin(), l.end()); labels.push_back(l);
      l.clear(); for (int i = 0; i <= n; ++i) l.push_back((i*3 + 1) % (n + 1 + (n % 3 == 2)) + (i % 2)*100); labels.push_back(l); }
    if (n <= 4) { labels.clear(); std::vector<int> l; for (int i = 0; i < n + chain; ++i) l.push_back(i); do labels.push_back(l); while (std::next_permutation(l.begin(), l.end())); for (auto& x : labels) x.push_back(50); }
    int li = 0;
    for (auto& l : labels) {
      std::set<int> ls(l.begin(), l.end()); ++li; if (ls.size() != l.size()) continue;
      std::vector<int> perm; for (int i = 0; i < n; ++i) perm.push_back(i);
      int pi = 0;
      do {
        for (int o = 0; o < (1 << n); ++o) {
          std::vector<E> e;
          for (int i : perm) { E x(l[i], l[chain ? i + 1 : (i + 1) % n]); if (o >> i & 1) std::swap(x.first, x.second); e.push_back(x); }
          edgesCase(mc::fmt("edges:%d:%d:%d:%d:%d", n, chain, li, pi, o), e, chain);
        }
        ++pi;
      } while (std::next_permutation(perm.begin(), perm.end()));
    }
  }
  // elementary keys
  if (R.begin("keys")) {
    for (int i = -6; i <= 6; ++i) for (int j = -6; j <= 6; ++j) if (i != j) {
      const E e = internal::hashEdge(i, j); MC_CHECK(R, e.first == std::min(i, j) && e.second == std::max(i, j), "hashEdge(%d, %d)", i, j);
      R.transitions++;
    }
    for (int x : {0, 1, 5, INT32_MAX}) { MC_CHECK(R, internal::positiveID(x) == x && internal::positiveID(~x) == x, "positiveID(%d)", x); R.transitions++; }
    mc::tuples(6, 4, [&](const std::vector<int>& t) {
      std::map<int, int> ids, model; internal::CounterMap<int> cnt; std::map<int, unsigned> cm;
      for (int x : t) {
        const int id = internal::addKeyToMap(10 - x, ids); R.transitions++;
        if (!model.count(x)) { const int k = model.size(); model[x] = k; }
        MC_CHECK(R, id == model[x] && ids.size() == model.size(), "addKeyToMap");
        ++cnt[x]; ++cm[x]; MC_CHECK(R, cnt[x] == cm[x] && cnt.size() == cm.size(), "CounterMap");
      }
    });
    R.end();
  }
  // boundary elements: every assignment of one or two cells to the faces of a fan of cells
  for (int nf = 1; nf <= (X ? 12 : 8); ++nf) for (int m = 0; m < (1 << nf); ++m) for (int three = 0; three < 2; ++three) {
    if (!R.begin(mc::fmt("border:%d:%d:%d", nf, m, three))) continue;
    std::vector<unsigned> bf(3, 77u), bn(2, 88u), wf; std::set<unsigned> wn;
    auto fill = [&](auto& mesh, int D) {
      mesh.nodes.resize(2*D*(nf + 3), 0.5);
      for (int i = 0; i < nf; ++i) {
        std::vector<unsigned> f = {unsigned((3*i + 1) % (nf + 3)), unsigned((2*i) % (nf + 3))}; if (three) f.push_back(unsigned((i + 2) % (nf + 3)));
        mesh.faces.push_back(f); mesh.faceCells.push_back(m >> i & 1 ? std::vector<int>{~i} : std::vector<int>{i, ~(i + 1)});
        if (m >> i & 1) { wf.push_back(i); wn.insert(f.begin(), f.end()); }
      } };
    if (three) { Tessellation<3, double> t; fill(t, 3); findBoundaryElements(t, bf, bn); } else { Tessellation<2, double> t; fill(t, 2); findBoundaryElements(t, bf, bn); }
    R.transitions++;
    MC_CHECK(R, bf == wf, "boundary faces %s instead of %s", mc::join(bf).c_str(), mc::join(wf).c_str());
    MC_CHECK(R, bn == std::vector<unsigned>(wn.begin(), wn.end()), "boundary nodes %s", mc::join(bn).c_str());
    R.nontrivial += m != 0; R.end();
  }
  // Morton keys: bits of the coordinates in turn
  for (int D = 2; D <= 3; ++D) if (R.begin(mc::fmt("morton:%d", D))) {
    const int bitsPer = D == 2 ? 15 : 10; std::vector<int> v;
    for (int b = 0; b < bitsPer; ++b) for (int d = -1; d <= 1; ++d) v.push_back((1 << b) + d);
    v.push_back((1 << bitsPer) - 1); v.push_back(0x2a5 & ((1 << bitsPer) - 1)); v.push_back(0x15b & ((1 << bitsPer) - 1));
    if (D == 3 && !T) { std::vector<int> w; for (size_t i = 0; i < v.size(); i += 2) w.push_back(v[i]); v = w; }
    std::vector<std::vector<int>> c;
    mc::tuples(D, v.size(), [&](const std::vector<int>& t) { std::vector<int> p; for (int i : t) p.push_back(v[i]); c.push_back(p); });
    std::vector<KeyTraits::Key> k;
    if (D == 2) { std::vector<Point2<int>> p; for (auto& x : c) p.push_back(Point2<int>(x[0], x[1])); k = mortonOrderIndices(p); }
    else { std::vector<Point3<int>> p; for (auto& x : c) p.push_back(Point3<int>(x[0], x[1], x[2])); k = mortonOrderIndices(p); }
    MC_CHECK(R, k.size() == c.size(), "%zu keys", k.size());
    for (size_t i = 0; i < c.size() && i < k.size(); ++i) {
      int64_t want = 0; for (int b = 0; b < bitsPer; ++b) for (int d = 0; d < D; ++d) want |= int64_t(c[i][d] >> b & 1) << (D*b + d);
      MC_CHECK(R, k[i] == want, "Morton key of %s is %d instead of %lld", mc::join(c[i]).c_str(), k[i], (long long)want);
      R.transitions++; R.seen(k[i]);
    }
    R.nontrivial++; R.end();
  }
}
int main(int argc, char** argv) {
  R.parse(argc, argv);
  if (R.prop == "P26") p26();
  else if (R.prop == "P27") p27();
  else if (R.prop == "P30") p30();
  return R.finish();
}
