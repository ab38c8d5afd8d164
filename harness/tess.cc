// Serial 2D tessellation: properties P01-P08.
#include "cases.hh"
using namespace polytope; using namespace std; using namespace mchk;
typedef BoostTessellator<double> BT;
static mc::Run R;

static double minDist(const cs::Case& c) {
  long double d = c.L;
  for (size_t a = 0; a < c.gen.size(); ++a) for (size_t b = 0; b < a; ++b) d = min(d, orc::dist(c.gen[a], c.gen[b]));
  return d;
}
// Proper crossing of two segments by more than tol.
static bool segCross(orc::P a, orc::P b, orc::P c, orc::P d, orc::Re tol) {
  auto side = [&](orc::P p, orc::P q, orc::P x) { orc::Re l = orc::dist(p, q); if (l == 0) return 0; orc::Re h = orc::cross(q - p, x - p) / l; return h > tol ? 1 : h < -tol ? -1 : 0; };
  return side(a, b, c) * side(a, b, d) < 0 && side(c, d, a) * side(c, d, b) < 0;
}
static bool simplePoly(const orc::Poly& p, orc::Re tol) {
  size_t n = p.size();
  for (size_t i = 0; i < n; ++i) for (size_t j = i + 2; j < n; ++j) { if (i == 0 && j == n - 1) continue; if (segCross(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n], tol)) return false; }
  return true;
}
// ---- P01 -------------------------------------------------------------------
static string wellFormed(const Mesh& m, size_t n) {
  if (m.cells.size() != n) return fmt("%zu cells for %zu generators", m.cells.size(), n);
  return structure(m);
}
// ---- P02: cells tile the domain --------------------------------------------
// With every cell a simple counterclockwise loop, the cells tile D exactly iff
// the faces used by a single cell add up to the oriented boundary of D.
static string tiles(const Mesh& m, const orc::Domain& d, double L) {
  string s = wellFormed(m, m.cells.size());
  if (!s.empty()) return "not a valid mesh: " + s;
  long double tot = 0, perim = 0, blen = 0;
  vector<orc::Poly> rings; rings.push_back(d.outer); for (auto& h : d.holes) rings.push_back(h);
  for (auto& r : rings) for (size_t i = 0; i < r.size(); ++i) perim += orc::dist(r[i], r[(i + 1) % r.size()]);
  for (size_t c = 0; c < m.cells.size(); ++c) {
    orc::Poly q = ring(m, c);
    if (!simplePoly(q, 1e-7L * L)) return fmt("cell %zu is self-intersecting", c);
    tot += orc::areaRel(q);
    for (auto p : q) if (d.where(p, 1e-7L * L) < 0) return fmt("cell %zu reaches outside the domain at (%Lg,%Lg)", c, p.x, p.y);
  }
  if (fabsl(tot - d.area()) > 2e-7L * L * L) return fmt("cell areas add up to %.12Lg, the domain's area is %.12Lg", tot, d.area());
  for (size_t f = 0; f < m.faces.size(); ++f) if (m.faceCells[f].size() == 1) {
    orc::P a = node(m, m.faces[f][0]), b = node(m, m.faces[f][1]);
    bool on = false;
    for (auto& r : rings) for (size_t i = 0; i < r.size(); ++i)
      on |= orc::segDist(a, r[i], r[(i + 1) % r.size()]) < 1e-7L * L && orc::segDist(b, r[i], r[(i + 1) % r.size()]) < 1e-7L * L;
    if (!on) return fmt("face %zu (%Lg,%Lg)-(%Lg,%Lg) has a cell on one side only and does not lie on the boundary", f, a.x, a.y, b.x, b.y);
    blen += orc::dist(a, b);
  }
  if (fabsl(blen - perim) > 1e-6L * L) return fmt("boundary faces have total length %.12Lg, the boundary %.12Lg", blen, perim);
  return "";
}
// ---- P03: Voronoi ----------------------------------------------------------
static string voronoi(const Mesh& m, const cs::Case& c) {
  const double L = c.L, tol = 2e-8 * L * L * (1 + L / minDist(c));
  if (m.cells.size() != c.gen.size()) return fmt("%zu cells for %zu generators", m.cells.size(), c.gen.size());
  long double adopted = 0, orphans = 0; bool okAll = true;
  for (size_t i = 0; i < c.gen.size(); ++i) {
    if (m.cells[i].size() < 3) return fmt("cell %zu is empty", i);
    orc::Poly q = ring(m, i);
    if (orc::inside(c.gen[i], q, 1e-8L * L) < 0) return fmt("generator %zu lies outside its cell", i);
    long double A = orc::areaRel(q), want = cs::vorArea(c, i), common = orc::areaRel(orc::vorClip(c.gen, i, q));
    R.comparisons++;
    if (c.convex) {
      if (fabsl(A - want) > tol) return fmt("cell %zu has area %.12Lg, its Voronoi region %.12Lg", i, A, want);
      if (fabsl(common - want) > tol) return fmt("cell %zu covers only %.12Lg of its Voronoi region of area %.12Lg", i, common, want);
    } else {
      cs::Comp k = cs::component(c, i);
      if (!k.ok) { okAll = false; R.count("oracle_skipped"); continue; }
      if (k.orphan > 0) R.count("orphans");
      if (common < k.own - tol) return fmt("cell %zu covers %.12Lg of the connected part (area %.12g) of its Voronoi region around generator", i, common, k.own);
      if (k.n == 1 && fabsl(common - want) > tol) return fmt("cell %zu covers %.12Lg of its Voronoi region of area %.12Lg", i, common, want);
      adopted += A - common; orphans += want - common;
    }
  }
  if (!c.convex && okAll && fabsl(adopted - orphans) > tol * c.gen.size()) return fmt("detached pieces of area %.12Lg, adopted area %.12Lg", orphans, adopted);
  return "";
}
// ---- P04: boundary ----------------------------------------------------------
static string boundaryOK(const Mesh& m, const cs::Case& c) {
  string s = boundary(m);
  if (!s.empty()) return s;
  for (unsigned b : m.boundaryNodes) if (c.dom.boundaryDist(node(m, b)) > 1e-11L * (c.L + fabs(c.lo[0]) + fabs(c.lo[1]))) return fmt("boundary node %u (%.15g,%.15g) is %Lg off the boundary", b, m.nodes[2*b], m.nodes[2*b+1], c.dom.boundaryDist(node(m, b)));
  set<unsigned> bn(m.boundaryNodes.begin(), m.boundaryNodes.end());
  auto V = c.dom.verts();
  for (size_t k = 0; k < V.size(); ++k) {
    int hits = 0;
    for (unsigned b : bn) hits += (m.nodes[2*b] == (double)V[k].x && m.nodes[2*b+1] == (double)V[k].y);
    if (hits != 1) {
      // a boundary vertex in the middle of a straight side need not be a corner of any cell's shape, but must stay on the boundary
      return fmt("boundary vertex %zu (%.15Lg,%.15Lg) appears %d times among the boundary nodes", k, V[k].x, V[k].y, hits);
    }
  }
  for (size_t n = 0; n < m.nodes.size() / 2; ++n) if (!bn.count(n) && c.dom.where(node(m, n), 1e-9L * c.L) != 1) return fmt("node %zu is not listed as a boundary node but lies on or outside the boundary", n);
  return "";
}
// ---- comparison of two meshes cell by cell -----------------------------------
static string sameCells(const Mesh& a, const vector<int>& ia, const Mesh& b, const vector<int>& ib, double tol, function<orc::P(orc::P)> map = nullptr) {
  for (size_t k = 0; k < ia.size(); ++k) {
    orc::Poly p = ring(a, ia[k]), q = ring(b, ib[k]);
    if (map) for (auto& x : p) x = map(x);
    // drop vertices that are collinear within tol: they are not part of the shape
    auto far = [&](const orc::Poly& u, const orc::Poly& v) { for (auto x : u) if (orc::polyDist(x, v) > tol) return true; return false; };
    if (far(p, q) || far(q, p)) return fmt("cell of generator %zu differs", k);
    if (fabsl(orc::areaRel(p) - orc::areaRel(q)) > 10 * tol * (sqrtl(fabsl(orc::areaRel(q))) + 1e-30L) + tol * tol) {
      long double per = 0; for (size_t i = 0; i < q.size(); ++i) per += orc::dist(q[i], q[(i + 1) % q.size()]);
      if (fabsl(orc::areaRel(p) - orc::areaRel(q)) > 4 * tol * per) return fmt("cell of generator %zu has a different area", k);
    }
  }
  return "";
}
static string identical(const Mesh& a, const Mesh& b) {
  if (a.nodes != b.nodes) return "nodes differ";
  if (a.faces != b.faces) return "faces differ";
  if (a.cells != b.cells) return "cells differ";
  if (a.faceCells != b.faceCells) return "face-cell connectivity differs";
  if (a.boundaryNodes != b.boundaryNodes) return "boundary nodes differ";
  if (a.boundaryFaces != b.boundaryFaces) return "boundary faces differ";
  return "";
}
// tolerance on node positions: quantum amplified by ill-conditioned bisectors and circumcentres
static double posTol(const cs::Case& c) { return 3e-8 * c.L * (1 + c.L / minDist(c)); }

static void runBounded(const cs::Case& c, Mesh& m, int api = 0) {
  BT t;
  R.transitions++;
  cs::Vec pts = c.pts;
  if (api == 1 && c.axisBox) { double lo[2] = {c.lo[0], c.lo[1]}, hi[2] = {c.hi[0], c.hi[1]}; t.tessellate(pts, lo, hi, m); }
  else if (api == 2) { ReducedPLC<2, double> r; r.facets = c.plc.facets; r.holes = c.plc.holes; r.points = c.plcpts; t.tessellate(pts, r, m); }
  else t.tessellate(pts, c.plcpts, c.plc, m);
}
static void fail(const cs::Case& c, const string& s, const Mesh& m) {
  if (s.empty()) return;
  if (R.verbose) cerr << dump(m);
  R.fail(s);
}

// ---- P05: unbounded ----------------------------------------------------------
static string unboundedOK(const Mesh& m, const cs::Case& c, const orc::Poly& bbox, double L) {
  string s = wellFormed(m, c.gen.size()); if (!s.empty()) return s;
  s = boundary(m); if (!s.empty()) return s;
  const double tol = 2e-7 * L * L * (1 + L / minDist(c));
  for (size_t i = 0; i < c.gen.size(); ++i) {
    orc::Poly q = ring(m, i);
    if (orc::inside(c.gen[i], q, 1e-8L * L) < 0) return fmt("generator %zu lies outside its cell", i);
    // both are convex: intersect the cell with the bounding box and the Voronoi region
    orc::Poly w = orc::vorClip(c.gen, i, bbox), in = q;
    for (size_t k = 0; k < 4; ++k) { orc::P e = bbox[(k + 1) % 4] - bbox[k]; in = orc::clip(in, bbox[k], {e.y, -e.x}); }
    long double A = orc::areaRel(w), B = orc::areaRel(in), C = orc::areaRel(orc::vorClip(c.gen, i, in));
    R.comparisons++;
    if (fabsl(A - B) > tol || fabsl(A - C) > tol) return fmt("cell %zu: area inside the generators' neighbourhood is %.12Lg (%.12Lg of it nearest to the generator), its Voronoi region has %.12Lg", i, B, C, A);
    if (fabsl(orc::areaRel(orc::vorClip(c.gen, i, q)) - orc::areaRel(q)) > 50 * tol) return fmt("cell %zu extends beyond its Voronoi region", i);
  }
  return "";
}

static vector<vector<int>> perms(int n) {
  vector<vector<int>> out;
  vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
  if (n <= 3) { while (next_permutation(p.begin(), p.end())) out.push_back(p); return out; }
  auto rev = p; reverse(rev.begin(), rev.end()); out.push_back(rev);
  auto rot = p; rotate(rot.begin(), rot.begin() + 1, rot.end()); out.push_back(rot);
  auto sw = p; swap(sw[0], sw[n - 1]); out.push_back(sw);
  auto il = vector<int>(); for (int i = 0; i < n; i += 2) il.push_back(i); for (int i = 1; i < n; i += 2) il.push_back(i); out.push_back(il);
  return out;
}
static cs::Case permuted(const cs::Case& c, const vector<int>& p) {
  cs::Case d = c; for (size_t i = 0; i < p.size(); ++i) d.gen[i] = c.gen[p[i]]; d.finish(); return d;
}
static vector<int> iota(int n) { vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }

static void enumerateBounded(cs::Enum& E, int depth) {
  const bool T = R.thorough();
  cs::latticeBoxes(E, 3, T ? 9 : depth >= 1 ? 9 : 6, T ? cs::Vec{0.5, 1.0, 0.25} : cs::Vec{0.5, 1.0});
  if (T) cs::latticeBoxes(E, 4, 5, {0.5, 0.75});
  cs::shapeSubsets(E, T ? 5 : 3, T ? vector<int>{0, 1, 2} : vector<int>{0, 1}, {}, {"id"});
  cs::shapeSubsets(E, T ? 6 : 4, {1}, {"star", "U", "L", "hole", "tri", "holeT"}, {"id"});
  cs::shapeSubsets(E, T ? 4 : 2, {1}, {"box", "L", "hole", "star", "hex"}, {"micro", "mega", "far", "neg", "rot", "rotfar", "tiny"});
  cs::structured(E, T);
  cs::slender(E, T);
}

int main(int argc, char** argv) {
  R.parse(argc, argv);
  mc::Quiet q(!R.verbose);
  const string P = R.prop;
  auto outcome = [&](const cs::Case& c, const Mesh& m) {
    R.seen(fingerprint(m, c.L * 1e-6) ^ mc::fnv(c.id.substr(0, c.id.find(':'))));
    if (c.gen.size() > 1) R.nontrivial++;
    if (R.executed % 499 == 1) R.sample(fmt("%s -> %zu cells %zu faces %zu nodes", c.id.c_str(), m.cells.size(), m.faces.size(), m.nodes.size() / 2));
  };
  if (P == "P01" || P == "P02" || P == "P03" || P == "P04") {
    cs::Enum E{R, [&](const cs::Case& c) {
      for (int api = 0; api < (c.axisBox ? 2 : 1); ++api) {
        Mesh m; runBounded(c, m, api);
        string s;
        R.comparisons++;
        if (P == "P01") s = wellFormed(m, c.gen.size());
        else if (P == "P02") s = tiles(m, c.dom, c.L);
        else if (P == "P03") s = voronoi(m, c);
        else s = boundaryOK(m, c);
        fail(c, s, m);
        if (!api) outcome(c, m);
      }
      if (P == "P01" && c.gen.size() > 1) {           // the unbounded mesh of the same generators
        Mesh m; BT t; t.tessellate(c.pts, m); R.transitions++;
        string s = wellFormed(m, c.gen.size());
        if (!s.empty()) fail(c, "unbounded: " + s, m);
      }
    }};
    enumerateBounded(E, 1);
  } else if (P == "P05") {
    cs::Enum E{R, [&](const cs::Case& c) {
      if (c.gen.size() < 2) return;
      double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
      for (auto g : c.gen) { lo[0] = min<double>(lo[0], g.x); lo[1] = min<double>(lo[1], g.y); hi[0] = max<double>(hi[0], g.x); hi[1] = max<double>(hi[1], g.y); }
      double L = max(hi[0] - lo[0], hi[1] - lo[1]), e = 0.25 * L;
      orc::Poly bb = cs::poly({lo[0] - e, lo[1] - e, hi[0] + e, lo[1] - e, hi[0] + e, hi[1] + e, lo[0] - e, hi[1] + e});
      Mesh m; BT t; t.tessellate(c.pts, m); R.transitions++;
      fail(c, unboundedOK(m, c, bb, L), m);
      outcome(c, m);
    }};
    const bool T = R.thorough();
    cs::latticeBoxes(E, 3, 9, {0.5});
    cs::latticeBoxes(E, 4, T ? 6 : 4, {0.5});
    cs::shapeSubsets(E, T ? 6 : 4, T ? vector<int>{0, 1, 2} : vector<int>{1}, {"box"}, {"id", "micro", "mega", "far", "rot", "rotfar"});
    cs::structured(E, T);
    cs::slender(E, T);
  } else if (P == "P06") {
    cs::Enum E{R, [&](const cs::Case& c) {
      const int n = c.gen.size();
      Mesh m; runBounded(c, m);
      if (m.cells.size() != (size_t)n) return fail(c, "wrong number of cells", m);
      const double tol = posTol(c);
      string s;
      for (auto& p : perms(n)) {
        cs::Case d = permuted(c, p);
        Mesh k; runBounded(d, k); R.comparisons++;
        if (k.cells.size() != (size_t)n) return fail(c, "wrong number of cells for a permuted input", k);
        s = sameCells(k, iota(n), m, p, tol);
        if (!s.empty()) return fail(c, "generator order " + mc::join(p) + ": " + s, k);
      }
      for (int api = 1; api <= 2; ++api) {            // same domain through the other entry points
        Mesh k; runBounded(c, k, api); R.comparisons++;
        if (k.cells.size() != (size_t)n) return fail(c, "wrong number of cells", k);
        s = sameCells(k, iota(n), m, iota(n), tol);
        if (!s.empty()) return fail(c, fmt("entry point %d: ", api) + s, k);
      }
      // the same boundary started at another vertex
      for (int r = 1; r <= 2; ++r) {
        cs::Case d = c; rotate(d.dom.outer.begin(), d.dom.outer.begin() + (r % d.dom.outer.size()), d.dom.outer.end());
        for (auto& h : d.dom.holes) rotate(h.begin(), h.begin() + (r % h.size()), h.end());
        if (r == 2) { reverse(d.dom.outer.begin(), d.dom.outer.end()); for (auto& h : d.dom.holes) reverse(h.begin(), h.end()); }
        d.finish();
        Mesh k; runBounded(d, k); R.comparisons++;
        if (k.cells.size() != (size_t)n) return fail(c, "wrong number of cells", k);
        s = sameCells(k, iota(n), m, iota(n), tol);
        if (!s.empty()) return fail(c, fmt("boundary presentation %d: ", r) + s, k);
      }
      {                                              // the same boundary with its vertices stored in another order
        cs::Case d = c; int N = d.plcpts.size() / 2; cs::Vec q(2 * N);
        auto mp = [&](int i) { return (i * 1 + N / 2 + (i % 2)) % N; };
        vector<int> to(N); { vector<char> used(N, 0); for (int i = 0; i < N; ++i) { int j = mp(i); while (used[j]) j = (j + 1) % N; used[j] = 1; to[i] = j; } }
        for (int i = 0; i < N; ++i) { q[2*to[i]] = d.plcpts[2*i]; q[2*to[i]+1] = d.plcpts[2*i+1]; }
        d.plcpts = q;
        for (auto& f : d.plc.facets) for (auto& v : f) v = to[v];
        for (auto& h : d.plc.holes) for (auto& f : h) for (auto& v : f) v = to[v];
        Mesh k; runBounded(d, k); R.comparisons++;
        if (k.cells.size() != (size_t)n) return fail(c, "wrong number of cells", k);
        s = sameCells(k, iota(n), m, iota(n), tol);
        if (!s.empty()) return fail(c, "boundary vertices stored in another order: " + s, k);
      }
      for (auto& x : cs::xforms()) {                 // similarity transforms
        if (x.name == "id" || (!R.thorough() && x.name != "far" && x.name != "mega" && x.name != "rotfar" && x.name != "micro")) continue;
        cs::Case d = c; d.dom = cs::transform(c.dom, x); for (auto& g : d.gen) g = cs::apply(x, g);
        d.finish();
        Mesh k; runBounded(d, k); R.comparisons++;
        if (k.cells.size() != (size_t)n) return fail(c, "wrong number of cells", k);
        s = sameCells(m, iota(n), k, iota(n), 2 * tol * x.s, [&](orc::P p) { return cs::apply(x, p); });
        if (!s.empty()) return fail(c, "transform " + x.name + ": " + s, k);
      }
      outcome(c, m);
    }};
    const bool T = R.thorough();
    cs::latticeBoxes(E, 3, T ? 9 : 4, {0.5});
    cs::shapeSubsets(E, T ? 4 : 3, T ? vector<int>{1, 2} : vector<int>{1}, {"box", "tri", "hex", "L", "star", "hole"}, {"id"});
    if (T) cs::structured(E, 0);
    cs::slender(E, 0, false);
  } else if (P == "P07") {
    // every history of <= depth calls on one tessellator object, then a probe
    // whose result must equal that of a fresh object, bit for bit
    vector<function<void(BT&)>> ops;
    auto mk = [](const string& sh, int v, vector<int> s, const string& x) {
      cs::Case c; const auto& S = cs::shape(sh); const cs::Xf* X = 0; for (auto& t : cs::xforms()) if (t.name == x) X = &t;
      auto cand = cs::candidates(S.d, v); c.id = sh; c.dom = cs::transform(S.d, *X); for (int i : s) c.gen.push_back(cs::apply(*X, cand[i])); c.finish(); return c;
    };
    static vector<cs::Case> cases = {mk("box", 1, {0, 5, 9, 12}, "id"), mk("hole", 1, {0, 3, 6, 8}, "mega"), mk("star", 1, {0, 1, 2}, "rot"), mk("tri", 1, {0, 2}, "micro"), mk("L", 2, {0, 2, 5}, "far")};
    struct Op { string name; function<void(BT&, Mesh&)> f; };
    vector<Op> O;
    for (size_t i = 0; i < cases.size(); ++i) {
      auto& c = cases[i];
      O.push_back({"plc" + c.id, [&c](BT& t, Mesh& m) { t.tessellate(c.pts, c.plcpts, c.plc, m); }});
      if (i == 1 || i == 3) O.push_back({"unb" + c.id, [&c](BT& t, Mesh& m) { t.tessellate(c.pts, m); }});
      if (i == 0) {
        O.push_back({"box" + c.id, [&c](BT& t, Mesh& m) { double lo[2] = {c.lo[0], c.lo[1]}, hi[2] = {c.hi[0], c.hi[1]}; t.tessellate(c.pts, lo, hi, m); }});
        O.push_back({"deg" + c.id, [&c](BT& t, Mesh& m) { cs::Vec p = c.pts; p.push_back(p[0]); p.push_back(p[1]); double lo[2] = {c.lo[0], c.lo[1]}, hi[2] = {c.hi[0], c.hi[1]}; t.tessellateDegenerate(p, lo, hi, 1e-6, m); }});
      }
    }
    vector<Mesh> fresh(O.size());
    for (size_t i = 0; i < O.size(); ++i) { BT t; O[i].f(t, fresh[i]); }
    auto snapshot = cases;
    const int depth = R.thorough() ? 4 : 3;
    for (int n = 1; n <= depth; ++n) mc::tuples(n, O.size(), [&](const vector<int>& h) {
      string id = "hist"; for (int k : h) id += ":" + O[k].name;
      if (!R.begin(id)) return;
      BT t; uint64_t st = 7;
      for (int k : h) {
        Mesh m; O[k].f(t, m); R.transitions++; R.comparisons++;
        string s = identical(m, fresh[k]);
        if (!s.empty()) { R.fail("result depends on earlier calls: " + s); break; }
        st = mc::mix(st, k); R.seen(st);
      }
      for (size_t i = 0; i < cases.size(); ++i) if (cases[i].pts != snapshot[i].pts || cases[i].plcpts != snapshot[i].plcpts || cases[i].plc.facets != snapshot[i].plc.facets || cases[i].plc.holes != snapshot[i].plc.holes) R.fail("an input was modified");
      if (n > 1) R.nontrivial++;
      R.end();
    });
    // reuse of one mesh object after clear()
    cs::Enum E{R, [&](const cs::Case& c) {
      Mesh m; BT t; t.tessellate(c.pts, c.plcpts, c.plc, m); Mesh a; t.tessellate(c.pts, c.plcpts, c.plc, a); R.transitions += 4;
      { string s = identical(m, a); if (!s.empty()) return R.fail("repeated run on one tessellator: " + s); }
      m.clear();
      if (!m.empty()) return R.fail("mesh not empty after clear()");
      t.tessellate(c.pts, c.plcpts, c.plc, m);
      string s = identical(m, a); R.comparisons += 2;
      if (!s.empty()) return R.fail("second run into a cleared mesh: " + s);
      BT t2; Mesh b; t2.tessellate(c.pts, c.plcpts, c.plc, b);
      s = identical(b, a); if (!s.empty()) return R.fail("repeated run: " + s);
      outcome(c, a);
    }};
    cs::shapeSubsets(E, R.thorough() ? 4 : 3, {1}, {"box", "L", "hole", "star"}, {"id", "rotfar"});
  } else if (P == "P08") {
    // Families of near-duplicate generators: every base set x a duplication
    // pattern per generator x tolerance x order x entry point.
    static const double off[][2] = {{0, 0}, {0.4, 0}, {0, 2.5}, {0.3, -0.45}, {-1.2, 0.1}};
    const int NP = 1 + 5;
    const bool T = R.thorough();
    auto run = [&](const string& id, const orc::Domain& dom, const vector<orc::P>& base, const vector<int>& pat, double tol, int order, int api) {
      if (!R.begin(id)) return;
      cs::Case c; c.dom = dom; c.finish();
      vector<orc::P> in;
      for (size_t k = 0; k < base.size(); ++k) if (order == 0 || !pat[k]) { in.push_back(base[k]); if (pat[k]) in.push_back({(long double)(double)(base[k].x + tol * off[pat[k]-1][0]), (long double)(double)(base[k].y + tol * off[pat[k]-1][1])}); }
      if (order == 1) { for (size_t k = 0; k < base.size(); ++k) if (pat[k]) in.push_back(base[k]); for (size_t k = 0; k < base.size(); ++k) if (pat[k]) in.push_back({(long double)(double)(base[k].x + tol * off[pat[k]-1][0]), (long double)(double)(base[k].y + tol * off[pat[k]-1][1])}); }
      cs::Vec pts; for (auto p : in) { pts.push_back(p.x); pts.push_back(p.y); }
      cs::Vec before = pts;
      BT t; Mesh m; vector<unsigned> map;
      double lo[2] = {c.lo[0], c.lo[1]}, hi[2] = {c.hi[0], c.hi[1]};
      R.transitions++;
      if (api == 0) map = t.tessellateDegenerate(pts, lo, hi, tol, m);
      else if (api == 1) map = t.tessellateDegenerate(pts, c.plcpts, c.plc, tol, m);
      else if (api == 2) { ReducedPLC<2, double> r; r.facets = c.plc.facets; r.holes = c.plc.holes; r.points = c.plcpts; map = t.tessellateDegenerate(pts, r, tol, m); }
      else map = t.tessellateDegenerate(pts, tol, m);
      auto bad = [&](const string& s) { if (R.verbose) cerr << dump(m) << "map " << mc::join(map) << "\n"; R.fail(s); };
      string s;
      [&] {
        if (pts != before) return bad("the input points were modified");
        if (map.size() != in.size()) return bad(fmt("map has %zu entries for %zu points", map.size(), in.size()));
        const size_t nc = m.cells.size();
        vector<int> rep(nc, -1);
        for (size_t i = 0; i < map.size(); ++i) { if (map[i] >= nc) return bad(fmt("point %zu is mapped to cell %u of %zu", i, map[i], nc)); if (rep[map[i]] < 0) rep[map[i]] = i; }
        for (size_t k = 0; k < nc; ++k) if (rep[k] < 0) return bad(fmt("no point is mapped to cell %zu", k));
        for (size_t i = 0; i < in.size(); ++i) for (size_t j = 0; j < i; ++j) {
          R.comparisons++;
          double dx = fabsl(in[i].x - in[j].x), dy = fabsl(in[i].y - in[j].y);
          bool same = map[i] == map[j];
          if (dx == 0 && dy == 0 && !same) return bad(fmt("coincident points %zu and %zu are mapped to different cells", j, i));
          if (same && (dx > tol * (1 + 1e-6) || dy > tol * (1 + 1e-6))) return bad(fmt("points %zu and %zu, (%g,%g) apart, are mapped to one cell with tolerance %g", j, i, dx, dy, tol));
        }
        c.gen.clear(); for (size_t k = 0; k < nc; ++k) c.gen.push_back(in[rep[k]]);
        c.finish();
        s = wellFormed(m, nc); if (!s.empty()) return bad(s);
        if (api < 3) { s = voronoi(m, c); if (!s.empty()) return bad(s); }
        else if (nc > 1) {
          double l[2] = {1e300, 1e300}, h[2] = {-1e300, -1e300};
          for (auto g : c.gen) { l[0] = min<double>(l[0], g.x); l[1] = min<double>(l[1], g.y); h[0] = max<double>(h[0], g.x); h[1] = max<double>(h[1], g.y); }
          double L = max(h[0] - l[0], h[1] - l[1]);
          if (L > 0.5) { orc::Poly bb = cs::poly({l[0] - 0.1 * L, l[1] - 0.1 * L, h[0] + 0.1 * L, l[1] - 0.1 * L, h[0] + 0.1 * L, h[1] + 0.1 * L, l[0] - 0.1 * L, h[1] + 0.1 * L}); s = unboundedOK(m, c, bb, L); if (!s.empty()) return bad(s); }
        }
        R.seen(fingerprint(m, 1e-6) ^ mc::fnv(mc::join(map)));
        if (nc < in.size()) R.nontrivial++;
        if (R.executed % 997 == 1) R.sample(id + " -> map " + mc::join(map));
      }();
      R.end();
    };
    for (const char* sh : {"box", "L", "hole"}) {
      auto cand = cs::candidates(cs::shape(sh).d, 1);
      for (int n = 1; n <= (T ? 4 : 3); ++n) {
        int stop = 0;
        mc::subsets(cand.size(), n, [&](const vector<int>& sub) {
          if (n >= 2 && (stop++ % (n == 2 ? (T ? 1 : 5) : (T ? 7 : 173)))) return;
          vector<orc::P> base; for (int i : sub) base.push_back({(long double)(double)cand[i].x, (long double)(double)cand[i].y});
          { cs::Case c; c.dom = cs::shape(sh).d; c.gen = base; c.finish(); if (!c.generalPosition()) return; }
          // in nonconvex domains exact duplicates only: the geometry stays in general position
          mc::tuples(n, string(sh) == "box" ? NP : 2, [&](const vector<int>& pat) {
            for (double tol : {1e-6, 1e-3, 0.03}) for (int order = 0; order < 2; ++order) for (int api = 0; api < 4; ++api) {
              if (string(sh) != "box" && (api == 0 || api == 3)) continue;
              if (api == 3 && n == 1) continue;
              run(fmt("deg:%s:%s:%s:%g:%d:%d", sh, mc::join(sub).c_str(), mc::join(pat).c_str(), tol, order, api), cs::shape(sh).d, base, pat, tol, order, api);
            }
          });
        });
      }
    }
    // many points snapped onto few, and many distinct points in dense lattices
    for (int K : {2, 5, 11, 16}) for (double tol : {1e-6, 1e-4, 1e-2}) for (int dup = 0; dup < 3; ++dup) for (int api = 0; api < 4; ++api) {
      vector<orc::P> base; vector<int> pat;
      for (int j = 0; j < K; ++j) for (int i = 0; i < K; ++i) { base.push_back({(long double)(double)(12.0L * (i + 0.47L) / K), (long double)(double)(12.0L * (j + 0.53L) / K)}); pat.push_back(dup == 0 ? 0 : dup == 1 ? ((i + j) % 2) : 1 + (i * 3 + j) % 4 % 2); }
      run(fmt("dense:%d:%g:%d:%d", K, tol, dup, api), cs::shape("box").d, base, pat, tol, dup == 2, api);
    }
  } else return 2;
  return R.finish();
}
