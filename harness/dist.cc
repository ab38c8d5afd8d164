// Distributed tessellation: properties P12-P16.  Ranks run as fibers of one
// process; the explorer owns every MPI call.
#include "mpi.h"
#include "fmpi.hh"
#include "cases.hh"
#include "DistributedTessellator.hh"
#include "SerialDistributedTessellator.hh"
#include "MeshEditor.hh"
#include "checkDistributedTessellation.hh"
using namespace polytope; using namespace std; using namespace mchk;
typedef BoostTessellator<double> BT;
static mc::Run R;
static set<uint64_t> traces; static vector<int> refBranch;
static const double POS = 3e-8;

static void copyMesh(const Mesh& a, Mesh& b) {
  b.nodes = a.nodes; b.faces = a.faces; b.cells = a.cells; b.faceCells = a.faceCells; b.boundaryNodes = a.boundaryNodes; b.boundaryFaces = a.boundaryFaces;
  b.neighborDomains = a.neighborDomains; b.sharedNodes = a.sharedNodes; b.sharedFaces = a.sharedFaces;
}
static void copyAll(const vector<Mesh>& a, vector<Mesh>& b) { for (size_t i = 0; i < a.size(); ++i) copyMesh(a[i], b[i]); }
static double minDist(const cs::Case& c) {
  long double d = c.L;
  for (size_t a = 0; a < c.gen.size(); ++a) for (size_t b = 0; b < a; ++b) d = min(d, orc::dist(c.gen[a], c.gen[b]));
  return d;
}
static double posTol(const cs::Case& c) { return POS * c.L * (1 + c.L / minDist(c)); }
static string sameCell(const Mesh& a, int i, const Mesh& b, int j, double tol) {
  orc::Poly p = ring(a, i), q = ring(b, j);
  for (auto x : p) if (orc::polyDist(x, q) > tol) return "reaches outside";
  for (auto x : q) if (orc::polyDist(x, p) > tol) return "misses part of";
  return "";
}
struct World {
  const cs::Case* c;
  vector<int> owner; int nr;
  int api;         // 0 box, 1 plc, 2 reduced plc, 3 unbounded
  int kind;        // 0 DistributedTessellator, 1 SerialDistributedTessellator
  bool comm;       // build communication info
  vector<cs::Vec> pts; vector<vector<int>> gid;
  vector<Mesh> mesh; vector<string> selfCheck;
  void init() {
    pts.assign(nr, {}); gid.assign(nr, {});
    for (size_t i = 0; i < owner.size(); ++i) { gid[owner[i]].push_back(i); pts[owner[i]].push_back(c->gen[i].x); pts[owner[i]].push_back(c->gen[i].y); }
  }
  fmpi::Result go(const fmpi::Config& cfg, function<void(int, Mesh&)> post = nullptr) {
    { vector<Mesh> fresh(nr); mesh.swap(fresh); }
    selfCheck.assign(nr, "");
    fmpi::Config k = cfg; k.nranks = nr;
    auto res = fmpi::run(k, [&](int r) {
      const cs::Case& C = *c;
      unique_ptr<DistributedTessellator<2, double>> t;
      if (kind == 0) t.reset(new DistributedTessellator<2, double>(new BT, true, comm));
      else t.reset(new SerialDistributedTessellator<2, double>(new BT, true, comm));
      Mesh& m = mesh[r];
      double lo[2] = {C.lo[0], C.lo[1]}, hi[2] = {C.hi[0], C.hi[1]};
      if (api == 0) t->tessellate(pts[r], lo, hi, m);
      else if (api == 1) t->tessellate(pts[r], C.plcpts, C.plc, m);
      else if (api == 2) { ReducedPLC<2, double> q; q.facets = C.plc.facets; q.holes = C.plc.holes; q.points = C.plcpts; t->tessellate(pts[r], q, m); }
      else t->tessellate(pts[r], m);
      if (post) post(r, m);
      if (comm) selfCheck[r] = checkDistributedTessellation(m);
    });
    R.transitions += res.steps;
    return res;
  }
};
static void serial(const cs::Case& c, int api, Mesh& m) {
  BT t; double lo[2] = {c.lo[0], c.lo[1]}, hi[2] = {c.hi[0], c.hi[1]};
  if (api == 0) t.tessellate(c.pts, lo, hi, m); else if (api == 3) t.tessellate(c.pts, m); else t.tessellate(c.pts, c.plcpts, c.plc, m);
}
// Every domain holds its own generators' cells, as the serial code makes them.
static string sameAsSerial(const World& w, const Mesh& ref) {
  const double tol = posTol(*w.c);
  for (int r = 0; r < w.nr; ++r) {
    const Mesh& m = w.mesh[r];
    if (m.cells.size() != w.gid[r].size()) return fmt("domain %d has %zu cells for %zu generators", r, m.cells.size(), w.gid[r].size());
    string s = structure(m); if (!s.empty()) return fmt("domain %d: ", r) + s;
    for (size_t k = 0; k < m.cells.size(); ++k) {
      R.comparisons++;
      s = sameCell(m, k, ref, w.gid[r][k], tol);
      if (!s.empty()) return fmt("cell %zu of domain %d %s the cell of its generator in the serial mesh", k, r, s.c_str());
    }
    s = boundary(m); if (!s.empty()) return fmt("domain %d: ", r) + s;
  }
  return "";
}
typedef pair<double, double> XY;
static XY xy(const Mesh& m, unsigned n) { return {m.nodes[2*n], m.nodes[2*n+1]}; }
static pair<XY, XY> fkey(const Mesh& m, unsigned f) { XY a = xy(m, m.faces[f][0]), b = xy(m, m.faces[f][1]); return minmax(a, b); }
// Shared nodes and faces: complete, symmetric, in corresponding order, bit-identical.
static string sharedOK(const World& w) {
  const int n = w.nr;
  for (int r = 0; r < n; ++r) {
    const Mesh& m = w.mesh[r];
    if (!is_sorted(m.neighborDomains.begin(), m.neighborDomains.end()) || adjacent_find(m.neighborDomains.begin(), m.neighborDomains.end()) != m.neighborDomains.end()) return fmt("neighbors of domain %d are not listed once each in increasing order", r);
    if (m.sharedNodes.size() != m.neighborDomains.size() || m.sharedFaces.size() != m.neighborDomains.size()) return fmt("domain %d has %zu neighbors, %zu shared node lists and %zu shared face lists", r, m.neighborDomains.size(), m.sharedNodes.size(), m.sharedFaces.size());
    for (unsigned d : m.neighborDomains) if ((int)d >= n || (int)d == r) return fmt("domain %d lists domain %u as neighbor", r, d);
  }
  auto idx = [&](int a, int b) { auto& v = w.mesh[a].neighborDomains; auto it = find(v.begin(), v.end(), (unsigned)b); return it == v.end() ? -1 : int(it - v.begin()); };
  vector<map<XY, unsigned>> pos(n); vector<map<pair<XY, XY>, unsigned>> fac(n);
  for (int r = 0; r < n; ++r) {
    const Mesh& m = w.mesh[r];
    for (unsigned i = 0; i < m.nodes.size() / 2; ++i) if (!pos[r].insert({xy(m, i), i}).second) return fmt("domain %d has two nodes at one position", r);
    for (unsigned f = 0; f < m.faces.size(); ++f) fac[r][fkey(m, f)] = f;
  }
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) {
    const Mesh &A = w.mesh[a], &B = w.mesh[b];
    int ia = idx(a, b), ib = idx(b, a);
    if ((ia < 0) != (ib < 0)) return fmt("domain %d and %d do not agree about being neighbors", a, b);
    set<unsigned> sn, sf;
    if (ia >= 0) {
      const auto &na = A.sharedNodes[ia], &nb = B.sharedNodes[ib]; const auto &fa = A.sharedFaces[ia], &fb = B.sharedFaces[ib];
      if (na.empty()) return fmt("domains %d and %d are neighbors without shared nodes", a, b);
      if (na.size() != nb.size()) return fmt("domains %d and %d share %zu and %zu nodes", a, b, na.size(), nb.size());
      if (fa.size() != fb.size()) return fmt("domains %d and %d share %zu and %zu faces", a, b, fa.size(), fb.size());
      for (size_t k = 0; k < na.size(); ++k) {
        R.comparisons++;
        if (na[k] >= A.nodes.size() / 2 || nb[k] >= B.nodes.size() / 2) return "shared node out of range";
        if (xy(A, na[k]) != xy(B, nb[k])) return fmt("entry %zu of the nodes shared by domains %d and %d: (%.17g,%.17g) versus (%.17g,%.17g)", k, a, b, xy(A, na[k]).first, xy(A, na[k]).second, xy(B, nb[k]).first, xy(B, nb[k]).second);
        if (!sn.insert(na[k]).second) return fmt("domain %d shares a node twice with %d", a, b);
      }
      for (size_t k = 0; k < fa.size(); ++k) {
        R.comparisons++;
        if (fa[k] >= A.faces.size() || fb[k] >= B.faces.size()) return "shared face out of range";
        if (fkey(A, fa[k]) != fkey(B, fb[k])) return fmt("entry %zu of the faces shared by domains %d and %d are different faces", k, a, b);
        if (!sf.insert(fa[k]).second) return fmt("domain %d shares a face twice with %d", a, b);
      }
    }
    for (auto& p : pos[a]) if (pos[b].count(p.first) && !sn.count(p.second)) return fmt("node (%g,%g) belongs to domains %d and %d but is not shared", p.first.first, p.first.second, a, b);
    for (auto& p : fac[a]) if (fac[b].count(p.first) && !sf.count(p.second)) return fmt("face (%g,%g)-(%g,%g) belongs to domains %d and %d but is not shared", p.first.first.first, p.first.first.second, p.first.second.first, p.first.second.second, a, b);
  }
  return "";
}
// The union of the domains must tile: interior faces between domains appear on both sides.
static string globalFaces(const World& w, const Mesh& ref) {
  const double tol = posTol(*w.c);
  // nodes of different domains that are within tol must be bit-identical
  vector<tuple<double, double, int>> all;
  for (int r = 0; r < w.nr; ++r) for (size_t i = 0; i < w.mesh[r].nodes.size() / 2; ++i) all.push_back({w.mesh[r].nodes[2*i], w.mesh[r].nodes[2*i+1], r});
  for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < i; ++j) {
    double dx = fabs(get<0>(all[i]) - get<0>(all[j])), dy = fabs(get<1>(all[i]) - get<1>(all[j]));
    if (get<2>(all[i]) != get<2>(all[j]) && dx < tol && dy < tol && (dx || dy)) {
      // distinct nodes of the serial mesh this close would be ambiguous
      bool amb = false;
      for (size_t a = 0; a < ref.nodes.size() / 2 && !amb; ++a) for (size_t b = 0; b < a; ++b) if (fabs(ref.nodes[2*a] - ref.nodes[2*b]) < 4 * tol && fabs(ref.nodes[2*a+1] - ref.nodes[2*b+1]) < 4 * tol) { amb = true; break; }
      if (!amb) return fmt("domains %d and %d place their common node (%.12g,%.12g) differently (by %g,%g)", get<2>(all[i]), get<2>(all[j]), get<0>(all[i]), get<1>(all[i]), dx, dy);
    }
  }
  return "";
}
static string dumpAll(const World& w) { string s; for (int r = 0; r < w.nr; ++r) { s += fmt("--- domain %d\n", r) + dump(w.mesh[r]) + "neighbors " + mc::join(w.mesh[r].neighborDomains) + "\n"; for (auto& v : w.mesh[r].sharedNodes) s += " nodes " + mc::join(v) + "\n"; for (auto& v : w.mesh[r].sharedFaces) s += " faces " + mc::join(v) + "\n"; } return s; }
static bool identicalMesh(const Mesh& a, const Mesh& b) {
  return a.nodes == b.nodes && a.faces == b.faces && a.cells == b.cells && a.faceCells == b.faceCells && a.boundaryNodes == b.boundaryNodes && a.boundaryFaces == b.boundaryFaces && a.neighborDomains == b.neighborDomains && a.sharedNodes == b.sharedNodes && a.sharedFaces == b.sharedFaces;
}

// ---- enumeration -----------------------------------------------------------
struct Input { cs::Case c; vector<int> owner; int nr; string id; };
typedef function<void(const Input&)> IFn;
static cs::Case fromShape(const string& sh, int variant, const vector<int>& sub, const string& xf) {
  const cs::Xf* X = 0; for (auto& t : cs::xforms()) if (t.name == xf) X = &t;
  cs::Case c; const auto& S = cs::shape(sh); auto cand = cs::candidates(S.d, variant);
  c.id = fmt("%s:%d:%s:%s", sh.c_str(), variant, xf.c_str(), mc::join(sub).c_str());
  c.dom = cs::transform(S.d, *X); for (int i : sub) c.gen.push_back(cs::apply(*X, cand[i])); c.finish(); return c;
}
// all surjective assignments of n generators to k domains
static void assignments(int n, int k, const function<void(const vector<int>&)>& f) {
  mc::tuples(n, k, [&](const vector<int>& o) { set<int> s(o.begin(), o.end()); if ((int)s.size() == k) f(o); });
}
static void emit(const cs::Case& c, const vector<int>& o, int nr, const IFn& f, const string& tag = "") {
  Input in; in.id = c.id + tag + ":" + mc::join(o, ""); 
  if (!R.begin(in.id)) return;
  in.c = c; in.owner = o; in.nr = nr;
  f(in);
  R.end();
}
static void sets(const vector<string>& shapes, const vector<string>& xf, int variant, int n, int stride, const function<void(const cs::Case&)>& f) {
  for (auto& sh : shapes) for (auto& x : xf) {
    auto cand = cs::candidates(cs::shape(sh).d, variant); int k = 0;
    mc::subsets(cand.size(), n, [&](const vector<int>& sub) {
      if (k++ % stride) return;
      cs::Case c = fromShape(sh, variant, sub, x);
      if (c.generalPosition()) f(c);
    });
  }
}
// Mirror images across a straight interface, which cells touch with short edges only.
static void mirrors(int maxK, const IFn& f) {
  const bool T = R.thorough();
  for (int K = 2; K <= maxK; ++K) for (double d : {0.0015, 0.008, 0.03}) for (int tr = 0; tr < 2; ++tr) for (int var = 0; var < 4; ++var) {
    cs::Case c; c.id = fmt("m%d:%g:%d:%d", K, d, tr, var); c.dom = tr ? cs::boxDomain(-2, 0, 0, K) : cs::boxDomain(0, 0, K, 2);
    vector<int> half, col;
    for (int up = 0; up < 2; ++up) for (int ii = 0; ii < 2 * K - 1; ++ii) {
      const int i = up && var == 3 ? 2 * K - 2 - ii : ii;     // numbered backwards on the upper side
      double x = i % 2 ? (i + 1) / 2 : i / 2 + 0.5, y = i % 2 ? 0.29289321881 + d * (1 + i / 2 * (var >= 2)) : 0.5;
      if (i % 2 && var == 1 && i % 4 == 1) y = 0.1;
      if (up) y = 2 - y;
      c.gen.push_back(tr ? orc::P{-y, x} : orc::P{x, y}); half.push_back(up); col.push_back(2 * i >= 2 * K - 1);
    }
    c.finish();
    auto E = [&](const char* n, int nr, function<int(int)> f0) { vector<int> o; for (size_t i = 0; i < half.size(); ++i) o.push_back(f0(i)); emit(c, o, nr, f, string(":") + n); };
    E("half", 2, [&](int i) { return half[i]; }); E("flip", 2, [&](int i) { return 1 - half[i]; }); E("quad", 4, [&](int i) { return 2 * half[i] + col[i]; }); E("three", 3, [&](int i) { return half[i] ? 2 : col[i]; });
    E("odd", 2, [&](int i) { return (i % (2 * K - 1)) % 2; }); E("mix", 3, [&](int i) { return half[i] ? 0 : 1 + (i % (2 * K - 1)) % 2; });
    if (K == 2) for (int k = 2; k <= (T ? 4 : 2); ++k) assignments(6, k, [&](const vector<int>& o) { emit(c, o, k, f, ":a"); });
  }
}
static void enumerate(const IFn& f, bool unbounded = false) {
  const bool T = R.thorough();
  auto all = [&](int n, int k, const function<void(const cs::Case&)>&, const cs::Case& c) { assignments(n, k, [&](const vector<int>& o) { emit(c, o, k, f); }); };
  vector<string> shs = unbounded ? vector<string>{"box"} : vector<string>{"box", "tri", "L", "hole", "star", "hex"};
  for (int n = 2; n <= (T ? 7 : 5); ++n) sets(shs, {"id"}, 1, n, n <= 3 ? (T ? 1 : 7) : n == 4 ? (T ? 11 : 101) : n == 5 ? (T ? 101 : 797) : n == 6 ? 997 : 2999, [&](const cs::Case& c) {
    for (int k = 2; k <= min(n, 4); ++k) { if (k == 4 && n > 5 && !T) continue; all(n, k, nullptr, c); }
  });
  sets(unbounded ? vector<string>{"box"} : vector<string>{"box", "L"}, {"micro", "mega", "far", "rotfar"}, 1, 4, T ? 101 : 701, [&](const cs::Case& c) { for (int k = 2; k <= 3; ++k) all(4, k, nullptr, c); });
  // anisotropic sets: the cells of one domain reach far across others
  if (!unbounded) for (double ax : {4.0, 9.0}) for (int up = 0; up < 2; ++up) for (int n = 5; n <= (T ? 7 : 6); ++n) {
    auto cand = cs::candidates(cs::shape("box").d, 1); int k = 0;
    const int stride = n == 5 ? (T ? 97 : 997) : n == 6 ? (T ? 997 : 6007) : 4001;
    mc::subsets(cand.size(), n, [&](const vector<int>& sub) {
      if (k++ % stride) return;
      cs::Case c; c.id = fmt("flat:%g:%d:%s", ax, up, mc::join(sub).c_str());
      auto P = [&](long double x, long double y) { return up ? orc::P{-y, ax * x} : orc::P{ax * x, y}; };
      for (int i : sub) { orc::P q = P(cand[i].x, cand[i].y); c.gen.push_back({(long double)(double)q.x, (long double)(double)q.y}); }
      c.dom = up ? cs::boxDomain(-12, 0, 0, 12 * ax) : cs::boxDomain(0, 0, 12 * ax, 12); c.finish();
      for (int d = 2; d <= 3; ++d) all(n, d, nullptr, c);
    });
  }
  // a generator just inside the hull of its domain, whose cell reaches far out between the hull's corners
  if (!unbounded) for (int var = 0; var < (T ? 12 : 3); ++var) for (int n = T ? 5 : 6; n <= (T ? 8 : 7); ++n) {
    cs::Case c; c.id = fmt("spike:%d:%d", var, n);
    static const double base[8][2] = {{-10, 0}, {10, 0}, {0, 3.4}, {0, -4}, {-4, -1}, {4, -1}, {-3, 6}, {5, 8}};
    const long double a = var * 0.7L, ca = cosl(a), sa = sinl(a), st = 1 + 0.15L * (var / 4);
    auto P = [&](long double x, long double y) { return orc::P{(long double)(double)(ca * x - sa * y), (long double)(double)(sa * x + ca * y)}; };
    for (int i = 0; i < n; ++i) c.gen.push_back(P(base[i][0] * st, base[i][1] + 0.1L * (var % 3)));
    c.dom.outer = {P(-20, -6), P(20, -6), P(20, 20), P(-20, 20)}; c.finish();
    for (int d = 2; d <= (n < 7 ? 3 : 2); ++d) all(n, d, nullptr, c);
    if (n == 7 || n == 8) {      // three domains: the upper generators together, every distribution of the lower ones
      assignments(3, 2, [&](const vector<int>& o) { vector<int> w(n, 0); w[3] = 1 + o[0]; w[4] = 1 + o[1]; w[5] = 1 + o[2]; emit(c, w, 3, f); });
    }
  }
  if (!unbounded) mirrors(T ? 6 : 4, f);
  // degenerate (regular) lattices: shared corners of four cells
  for (int K = 2; K <= 3; ++K) {
    cs::Case c; c.id = fmt("lat%d", K); c.dom = cs::boxDomain(-0.5, -0.5, K - 0.5, K - 0.5);
    for (int j = 0; j < K; ++j) for (int i = 0; i < K; ++i) c.gen.push_back({(long double)i, (long double)j});
    c.finish();
    for (int k = 2; k <= (K == 2 ? 4 : T ? 3 : 2); ++k) assignments(K * K, k, [&](const vector<int>& o) { emit(c, o, k, f); });
  }
  // larger meshes with structured partitions
  for (int K = 3; K <= (T ? 8 : 6); ++K) for (int tilt = 0; tilt < 2; ++tilt) for (double ext : {1.0, 37.5, 1e-3}) {
    cs::Case c; c.id = fmt("big%d:%d:%g", K, tilt, ext); c.dom = cs::boxDomain(0, 0, ext, ext);
    for (int j = 0; j < K; ++j) for (int i = 0; i < K; ++i) { long double x = (i + 0.5L + (tilt ? 0.21L * ((j * 7 + i * 3) % 5 - 2) / 2 : 0)) / K, y = (j + 0.5L + (tilt ? 0.17L * ((i * 5 + j * 2) % 7 - 3) / 3 : 0)) / K; c.gen.push_back({(long double)(double)(ext * x), (long double)(double)(ext * y)}); }
    c.finish();
    struct Part { string n; function<int(int, int)> f; int nr; };
    vector<Part> P = {
      {"rows", [&](int, int j) { return j; }, K}, {"cols", [&](int i, int) { return i; }, K}, {"diag", [&](int i, int j) { return (i + j) % K; }, K},
      {"checker", [&](int i, int j) { return (i + j) % 2; }, 2}, {"quad", [&](int i, int j) { return (2 * i >= K) + 2 * (2 * j >= K); }, 4},
      {"half", [&](int i, int) { return 2 * i >= K; }, 2}, {"ring", [&](int i, int j) { return min(min(i, j), min(K - 1 - i, K - 1 - j)) ? 1 : 0; }, 2},
      {"mod3", [&](int i, int j) { return (j * K + i) % 3; }, 3}, {"one", [&](int i, int j) { return i == K / 2 && j == K / 2; }, 2}, {"blocks", [&](int i, int j) { return (3 * i / K) + 3 * (3 * j / K); }, 9}};
    if (K <= 4) P.push_back({"each", [&](int i, int j) { return j * K + i; }, K * K});
    for (auto& p : P) {
      vector<int> o; for (int j = 0; j < K; ++j) for (int i = 0; i < K; ++i) o.push_back(p.f(i, j));
      emit(c, o, p.nr, f, ":" + p.n);
    }
  }
}

// Small configurations for exploring schedules and corruptions.
static void enumerateSmall(const IFn& f) {
  const bool T = R.thorough();
  for (int n = 2; n <= 4; ++n) sets({"box", "tri", "L"}, {"id"}, 1, n, n == 2 ? (T ? 7 : 41) : n == 3 ? (T ? 61 : 401) : (T ? 701 : 4001), [&](const cs::Case& c) {
    for (int k = 2; k <= min(n, T ? 4 : 3); ++k) assignments(n, k, [&](const vector<int>& o) { if (!T && o[0]) return; emit(c, o, k, f); });
  });
  for (int K = 2; K <= (T ? 4 : 3); ++K) {
    cs::Case c; c.id = fmt("lat%d", K); c.dom = cs::boxDomain(-0.5, -0.5, K - 0.5, K - 0.5);
    for (int j = 0; j < K; ++j) for (int i = 0; i < K; ++i) c.gen.push_back({(long double)i, (long double)j});
    c.finish();
    vector<int> a, b, d; for (int i = 0; i < K * K; ++i) { a.push_back(i % K); b.push_back(i / K); d.push_back((i % K + i / K) % 2); }
    emit(c, a, K, f, ":cols"); emit(c, b, K, f, ":rows"); emit(c, d, 2, f, ":checker");
    if (K == 2) { vector<int> e = {0, 1, 2, 3}; emit(c, e, 4, f, ":each"); }
  }
}
// Meshes with short edges, on and off the interfaces between domains.
static void enumerateClean(const IFn& f) {
  const bool T = R.thorough();
  for (int K = 2; K <= (T ? 5 : 4); ++K) for (int pat = 0; pat < 4; ++pat) for (double eps : {1e-3, 0.03, 0.11}) {
    cs::Case c; c.id = fmt("c%d:%d:%g", K, pat, eps); c.dom = cs::boxDomain(0, 0, K, K);
    for (int j = 0; j < K; ++j) for (int i = 0; i < K; ++i) {
      double x = i + 0.5, y = j + 0.5;
      if (pat == 0) x += eps * (j % 2);                 // bricks: straight interfaces between rows
      if (pat == 1) y += eps * (i % 2);                 // between columns
      if (pat == 2) { x += eps * (((i * 7 + j * 3) % 5) - 2) / 2; y += eps * (((i * 2 + j * 5) % 7) - 3) / 3; }
      if (pat == 3) { x += eps * ((i + j) % 2); y -= eps * (i % 2); }
      c.gen.push_back({(long double)x, (long double)y});
    }
    c.finish();
    vector<pair<string, function<int(int, int)>>> P = {{"rows", [&](int, int j) { return j; }}, {"cols", [&](int i, int) { return i; }}, {"half", [&](int i, int) { return int(2 * i >= K); }}, {"halfr", [&](int, int j) { return int(2 * j >= K); }}, {"quad", [&](int i, int j) { return (2 * i >= K) + 2 * (2 * j >= K); }}, {"checker", [&](int i, int j) { return (i + j) % 2; }}, {"ring", [&](int i, int j) { return int(i == 0 && j == 0); }}, {"bar", [&](int i, int j) { return int(i > 0 && i < K - 1 && j == K / 2); }}, {"pole", [&](int i, int j) { return int(j > 0 && j < K - 1 && i == K / 2); }}, {"core", [&](int i, int j) { return int(j > 0 && j < K - 1 && i > 0 && i < K - 1); }}};
    for (auto& p : P) {
      vector<int> o; int nr = 0;
      for (int j = 0; j < K; ++j) for (int i = 0; i < K; ++i) { o.push_back(p.second(i, j)); nr = max(nr, o.back() + 1); }
      if (nr < 2) continue;
      emit(c, o, nr, f, ":" + p.first);
    }
    if (K <= (T ? 3 : 2)) for (int k = 2; k <= (K == 2 ? 4 : 2); ++k) assignments(K * K, k, [&](const vector<int>& o) { emit(c, o, k, f, ":a"); });
  }
  mirrors(T ? 5 : 4, f);
}
// Node lists as the library's checker understands them.
static string nodesOK(const World& w) {
  const int n = w.nr;
  auto idx = [&](int a, int b) { auto& v = w.mesh[a].neighborDomains; auto it = find(v.begin(), v.end(), (unsigned)b); return it == v.end() ? -1 : int(it - v.begin()); };
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a != b) {
    int ia = idx(a, b), ib = idx(b, a);
    if ((ia < 0) != (ib < 0)) return "neighbors disagree";
    set<XY> pa, pb, common;
    for (size_t i = 0; i < w.mesh[a].nodes.size() / 2; ++i) pa.insert(xy(w.mesh[a], i));
    for (size_t i = 0; i < w.mesh[b].nodes.size() / 2; ++i) if (pa.count(xy(w.mesh[b], i))) common.insert(xy(w.mesh[b], i));
    if (ia < 0) { if (!common.empty()) return "neighbors missing"; continue; }
    if (common.empty()) return "neighbors without common nodes";
    const auto &na = w.mesh[a].sharedNodes[ia], &nb = w.mesh[b].sharedNodes[ib];
    if (na.size() != nb.size() || na.size() != common.size()) return "numbers of shared nodes differ";
    set<XY> got;
    for (size_t k = 0; k < na.size(); ++k) { if (xy(w.mesh[a], na[k]) != xy(w.mesh[b], nb[k])) return "shared nodes differ"; got.insert(xy(w.mesh[a], na[k])); }
    if (got != common) return "shared nodes incomplete";
  }
  return "";
}
// Unbounded: near the generators every cell is its generator's nearest-point region.
static string nearOK(const World& w, const orc::Poly& bb, double L) {
  const cs::Case& c = *w.c; const double tol = 2e-7 * L * L * (1 + L / minDist(c));
  for (int r = 0; r < w.nr; ++r) {
    const Mesh& m = w.mesh[r];
    if (m.cells.size() != w.gid[r].size()) return fmt("domain %d has %zu cells for %zu generators", r, m.cells.size(), w.gid[r].size());
    string s = structure(m); if (s.empty()) s = boundary(m);
    if (!s.empty()) return fmt("domain %d: ", r) + s;
    for (size_t k = 0; k < m.cells.size(); ++k) {
      const int i = w.gid[r][k]; orc::Poly q = ring(m, k);
      if (orc::inside(c.gen[i], q, 1e-8L * L) < 0) return fmt("generator %d lies outside its cell on domain %d", i, r);
      orc::Poly v = orc::vorClip(c.gen, i, bb), in = q;
      for (size_t j = 0; j < 4; ++j) { orc::P e = bb[(j + 1) % 4] - bb[j]; in = orc::clip(in, bb[j], {e.y, -e.x}); }
      long double A = orc::areaRel(v), B = orc::areaRel(in), C = orc::areaRel(orc::vorClip(c.gen, i, in)); R.comparisons++;
      if (fabsl(A - B) > tol || fabsl(A - C) > tol) return fmt("cell %zu of domain %d: area near the generators is %.12Lg (%.12Lg of it nearest to its generator), its Voronoi region has %.12Lg", k, r, B, C, A);
    }
  }
  return "";
}
// Every domain's cleaned mesh is valid, keeps its cells and their long edges.
static string cleanedOK(const World& w, const vector<Mesh>& before, double tol) {
  for (int r = 0; r < w.nr; ++r) {
    const Mesh &m = w.mesh[r], &b = before[r];
    if (m.cells.size() != b.cells.size()) return fmt("domain %d has %zu cells after cleaning and %zu before", r, m.cells.size(), b.cells.size());
    string s = structure(m); if (!s.empty()) return fmt("domain %d: ", r) + s;
    s = boundary(m); if (!s.empty()) return fmt("domain %d: ", r) + s;
    set<XY> was; for (size_t i = 0; i < b.nodes.size() / 2; ++i) was.insert(xy(b, i));
    for (size_t i = 0; i < m.nodes.size() / 2; ++i) if (!was.count(xy(m, i))) return fmt("domain %d has a new node position", r);
    // an edge may only disappear when it is short compared to the longest edge of its cells
    size_t nshort = 0;
    vector<double> mx(b.cells.size(), 0); auto len = [](const Mesh& q, unsigned f) { XY x = xy(q, q.faces[f][0]), y = xy(q, q.faces[f][1]); return hypot(x.first - y.first, x.second - y.second); };
    for (size_t c = 0; c < b.cells.size(); ++c) for (int f : b.cells[c]) mx[c] = max(mx[c], len(b, f < 0 ? ~f : f));
    for (size_t f = 0; f < b.faces.size(); ++f) { double mm = 0; for (int c : b.faceCells[f]) mm = max(mm, mx[c < 0 ? ~c : c]); if (len(b, f) < 2 * tol * mm) ++nshort; }
    if (m.faces.size() + nshort < b.faces.size()) return fmt("domain %d lost %zu faces but only %zu are short", r, b.faces.size() - m.faces.size(), nshort);
  }
  return "";
}

int main(int argc, char** argv) {
  R.parse(argc, argv);
  mc::Quiet q(!R.verbose);
  const string P = R.prop;
  const bool T = R.thorough();
  auto note = [&](const World& w, const Input& in) {
    uint64_t h = mc::fnv(in.id.substr(0, in.id.find(':')));
    for (int r = 0; r < w.nr; ++r) { h = mc::mix(h, fingerprint(w.mesh[r], w.c->L * 1e-6)); for (auto& v : w.mesh[r].sharedNodes) h = mc::mix(h, v.size()); }
    R.seen(h); R.nontrivial++;
    if (R.executed % 499 == 1) R.sample(in.id);
  };
  auto bad = [&](const World& w, const string& s) { if (s.empty()) return false; if (R.verbose) cerr << dumpAll(w); R.fail(s); return true; };
  if (P == "P12" || P == "P13") {
    enumerate([&](const Input& in) {
      Mesh ref; int refApi = -1;
      World w{&in.c, in.owner, in.nr, 0, 0, true}; w.init();
      for (int kind = 0; kind < 2; ++kind) for (int api = 0; api < 3; ++api) {
        if (api == 0 && !in.c.axisBox) continue;
        if (api == 2 && in.owner.size() > 4) continue;
        if (api == 1 && in.c.axisBox && kind == 1) continue;
        w.kind = kind; w.api = api;
        auto r = w.go(fmpi::Config());
        if (!r.ok) { R.fail(fmt("%s, entry %d: ", kind ? "SerialDistributed" : "Distributed", api) + r.error); return; }
        if (refApi < 0) { serial(in.c, api, ref); refApi = api; }
        string s = P == "P12" ? sameAsSerial(w, ref) : sharedOK(w);
        if (P == "P13" && s.empty()) s = globalFaces(w, ref);
        if (P == "P13" && s.empty()) for (auto& x : w.selfCheck) if (x != "ok") s = "the library's own consistency check says: " + x;
        if (bad(w, s.empty() ? s : fmt("%s, entry %d: ", kind ? "SerialDistributed" : "Distributed", api) + s)) return;
        if (P == "P12" && kind == 1 && in.owner.size() <= 3) for (int e = 0; e <= in.nr; ++e) {     // a domain without generators
          Input ie = in; ie.nr++; for (auto& o : ie.owner) if (o >= e) ++o;
          World x{&ie.c, ie.owner, ie.nr, api, 1, true}; x.init();
          r = x.go(fmpi::Config());
          const string nm = fmt("SerialDistributed, entry %d, with domain %d empty: ", api, e);
          if (!r.ok) { R.fail(nm + r.error); return; }
          s = sameAsSerial(x, ref);
          if (bad(x, s.empty() ? s : nm + s)) return;
        }
        if (P == "P12" && (kind == 0 || api == 1 || T)) {          // without communication info: the same cells, no shared lists
          w.comm = false;
          r = w.go(fmpi::Config());
          w.comm = true;
          const string nm = fmt("%s, entry %d, without communication info: ", kind ? "SerialDistributed" : "Distributed", api);
          if (!r.ok) { R.fail(nm + r.error); return; }
          s = sameAsSerial(w, ref);
          if (bad(w, s.empty() ? s : nm + s)) return;
        }
      }
      note(w, in);
    });
  } else if (P == "P14") {
    // Every start rank and buffering mode, and every schedule that departs from
    // the default one at up to `depth` choice points.
    enumerateSmall([&](const Input& in) {
      vector<Mesh> ref; string refName; vector<string> refCheck;
      for (int kind = 0; kind < 2; ++kind) for (int api : {1, 3, 0}) {
        if (api == 0 && (!in.c.axisBox || !T)) continue;
        if (api == 3 && kind == 1 && !T) continue;
        World w{&in.c, in.owner, in.nr, api, kind, true}; w.init();
        { vector<Mesh> f; ref.swap(f); }
        auto one = [&](const fmpi::Config& cfg, const string& name) -> bool {
          auto r = w.go(cfg);
          R.count("schedules"); traces.insert(mc::mix(r.trace, mc::fnv(in.id + name.substr(0, 8)))); R.comparisons++;
          if (!r.ok) { R.fail(fmt("%s, entry %d, %s: ", kind ? "SerialDistributed" : "Distributed", api, name.c_str()) + r.error); return false; }
          if (ref.empty()) { { vector<Mesh> f(w.nr); ref.swap(f); } copyAll(w.mesh, ref); refCheck = w.selfCheck; refBranch = r.branching; return true; }
          for (int q = 0; q < w.nr; ++q) if (!identicalMesh(ref[q], w.mesh[q]) || refCheck[q] != w.selfCheck[q]) { R.fail(fmt("%s, entry %d, %s: the mesh of domain %d differs from the one of the default schedule", kind ? "SerialDistributed" : "Distributed", api, name.c_str(), q)); return false; }
          return true;
        };
        for (int late = 0; late < 2; ++late) for (int sync = 0; sync < 2; ++sync) for (int first = 0; first < in.nr; ++first) {
          fmpi::Config cfg; cfg.lateSend = late; cfg.syncSend = sync; cfg.firstRank = first;
          if (!one(cfg, fmt("late=%d sync=%d first=%d", late, sync, first))) return;
        }
        const bool deep = T && in.nr == 2 && in.owner.size() <= 3 && kind == 0;
        for (int late = 0; late < (T ? 2 : 1); ++late) {
          const vector<int> B = refBranch;
          for (size_t i = 0; i < B.size(); ++i) for (int a = 1; a < B[i]; ++a) {
            fmpi::Config cfg; cfg.lateSend = late; cfg.script.assign(i, 0); cfg.script.push_back(a);
            if (!one(cfg, fmt("late=%d script %zu:%d", late, i, a))) return;
            if (!deep || late) continue;
            for (size_t j = i + 1; j < B.size(); ++j) for (int b = 1; b < in.nr; ++b) {
              cfg.script.resize(i + 1); cfg.script.resize(j, 0); cfg.script.push_back(b);
              if (!one(cfg, fmt("late=%d script %zu:%d %zu:%d", late, i, a, j, b))) return;
            }
          }
        }
        R.count("distinct interleavings", traces.size()); traces.clear();
        note(w, in);
      }
    });
  } else if (P == "P15") {
    enumerateSmall([&](const Input& in) {
      World w{&in.c, in.owner, in.nr, 1, 0, true}; w.init();
      auto r = w.go(fmpi::Config());
      if (!r.ok) { R.fail(r.error); return; }
      vector<Mesh> base(w.nr); copyAll(w.mesh, base);
      auto verdict = [&](const string& what) -> bool {
        string want = nodesOK(w);
        vector<string> got(w.nr);
        fmpi::Config cfg; cfg.nranks = w.nr;
        auto q = fmpi::run(cfg, [&](int k) { got[k] = checkDistributedTessellation(w.mesh[k]); });
        R.transitions += q.steps; R.comparisons++; R.count(want.empty() ? "consistent" : "inconsistent");
        R.seen(mc::mix(mc::fnv(want), mc::fnv(got[0].substr(0, 30))));
        if (!q.ok) { R.fail(what + ": " + q.error); return false; }
        for (int k = 0; k < w.nr; ++k) if (got[k] != got[0]) { R.fail(what + fmt(": domain %d reports \"%s\", domain 0 \"%s\"", k, got[k].c_str(), got[0].c_str())); return false; }
        if (want.empty() != (got[0] == "ok")) { R.fail(what + ": reported \"" + got[0] + "\" but " + (want.empty() ? "the lists are consistent" : want)); return false; }
        return true;
      };
      if (!verdict("as built")) return;
      typedef function<void()> Mut;
      vector<pair<string, Mut>> muts;
      for (int d = 0; d < w.nr; ++d) {
        const Mesh& m = base[d];
        for (size_t k = 0; k < m.neighborDomains.size(); ++k) {
          muts.push_back({fmt("domain %d forgets neighbor %u", d, m.neighborDomains[k]), [&w, d, k] { Mesh& x = w.mesh[d]; if (k < x.neighborDomains.size()) { x.neighborDomains.erase(x.neighborDomains.begin() + k); x.sharedNodes.erase(x.sharedNodes.begin() + k); x.sharedFaces.erase(x.sharedFaces.begin() + k); } }});
          auto list = [&w, d, k]() -> vector<unsigned>* { Mesh& x = w.mesh[d]; return k < x.sharedNodes.size() ? &x.sharedNodes[k] : nullptr; };
          for (size_t i = 0; i < m.sharedNodes[k].size(); ++i) {
            muts.push_back({fmt("domain %d forgets shared node %zu with %u", d, i, m.neighborDomains[k]), [=] { auto l = list(); if (l && i < l->size()) l->erase(l->begin() + i); }});
            muts.push_back({fmt("domain %d repeats shared node %zu with %u", d, i, m.neighborDomains[k]), [=] { auto l = list(); if (l && i < l->size()) l->push_back((*l)[i]); }});
            for (size_t j = 0; j < i; ++j) muts.push_back({fmt("domain %d swaps shared nodes %zu and %zu with %u", d, i, j, m.neighborDomains[k]), [=] { auto l = list(); if (l && i < l->size()) swap((*l)[i], (*l)[j]); }});
            const unsigned nn = m.nodes.size() / 2;
            for (unsigned v = 0; v < nn; ++v) if (v != m.sharedNodes[k][i]) muts.push_back({fmt("domain %d puts node %u as shared node %zu with %u", d, v, i, m.neighborDomains[k]), [=] { auto l = list(); if (l && i < l->size()) (*l)[i] = v; }});
          }
        }
        for (int e = 0; e < w.nr; ++e) if (e != d && find(m.neighborDomains.begin(), m.neighborDomains.end(), (unsigned)e) == m.neighborDomains.end())
          muts.push_back({fmt("domain %d invents neighbor %d", d, e), [&w, d, e] { Mesh& x = w.mesh[d]; size_t p = lower_bound(x.neighborDomains.begin(), x.neighborDomains.end(), (unsigned)e) - x.neighborDomains.begin(); if (p < x.neighborDomains.size() && x.neighborDomains[p] == (unsigned)e) return; x.neighborDomains.insert(x.neighborDomains.begin() + p, e); x.sharedNodes.insert(x.sharedNodes.begin() + p, vector<unsigned>()); x.sharedFaces.insert(x.sharedFaces.begin() + p, vector<unsigned>()); }});
      }
      R.nontrivial++;
      for (auto& a : muts) { copyAll(base, w.mesh); a.second(); if (!verdict(a.first)) return; }
      const size_t step = T ? (muts.size() > 150 ? muts.size() / 60 : 1) : max<size_t>(1, muts.size() / 25);
      for (size_t i = 0; i < muts.size(); i += step) for (size_t j = 0; j < muts.size(); j += step) if (i != j) { copyAll(base, w.mesh); muts[i].second(); muts[j].second(); if (!verdict(muts[i].first + " and " + muts[j].first)) return; }
      // both sides may agree on another order
      for (int d = 0; d < w.nr; ++d) for (size_t k = 0; k < base[d].neighborDomains.size(); ++k) if ((int)base[d].neighborDomains[k] > d) {
        copyAll(base, w.mesh); int e = base[d].neighborDomains[k]; auto& nd = w.mesh[e].neighborDomains; size_t kk = find(nd.begin(), nd.end(), (unsigned)d) - nd.begin();
        reverse(w.mesh[d].sharedNodes[k].begin(), w.mesh[d].sharedNodes[k].end()); reverse(w.mesh[e].sharedNodes[kk].begin(), w.mesh[e].sharedNodes[kk].end());
        if (!verdict(fmt("domains %d and %d reverse their lists", d, e))) return;
      }
    });
  } else if (P == "P16") {
    enumerateClean([&](const Input& in) {
      for (double tol : {1e-3, 0.05, 0.2}) for (int mode = 0; mode < 4; ++mode) {
        World w{&in.c, in.owner, in.nr, 1, 0, true}; w.init();
        vector<Mesh> before(in.nr);
        fmpi::Config cfg; cfg.lateSend = mode & 1; cfg.firstRank = mode & 2 ? in.nr - 1 : 0;
        auto r = w.go(cfg, [&](int k, Mesh& m) { copyMesh(m, before[k]); MeshEditor<2, double> e(m); e.cleanEdges(tol); });
        string nm = fmt("tolerance %g mode %d: ", tol, mode);
        if (!r.ok) { R.fail(nm + r.error); return; }
        string s = cleanedOK(w, before, tol);
        if (s.empty()) s = sharedOK(w);
        if (s.empty()) for (auto& x : w.selfCheck) if (x != "ok") s = "the library's own consistency check says: " + x;
        if (bad(w, s.empty() ? s : nm + s)) return;
        note(w, in);
      }
    });
  } else if (P == "P17") {
    enumerate([&](const Input& in) {
      const cs::Case& c = in.c;
      double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
      for (auto g : c.gen) { lo[0] = min<double>(lo[0], g.x); lo[1] = min<double>(lo[1], g.y); hi[0] = max<double>(hi[0], g.x); hi[1] = max<double>(hi[1], g.y); }
      const double L = max(hi[0] - lo[0], hi[1] - lo[1]), e = 0.25 * L;
      const orc::Poly bb = cs::poly({lo[0] - e, lo[1] - e, hi[0] + e, lo[1] - e, hi[0] + e, hi[1] + e, lo[0] - e, hi[1] + e});
      World w{&in.c, in.owner, in.nr, 3, 0, true}; w.init();
      for (int kind = 0; kind < 2; ++kind) {
        w.kind = kind;
        auto r = w.go(fmpi::Config());
        const string nm = kind ? "SerialDistributed: " : "Distributed: ";
        if (!r.ok) { R.fail(nm + r.error); return; }
        string s = nearOK(w, bb, L); if (s.empty()) s = sharedOK(w);
        if (bad(w, s.empty() ? s : nm + s)) return;
      }
      note(w, in);
    }, true);
  } else if (P == "P07") {
    // Every history of calls on one tessellator object per domain: each result must be that of fresh objects.
    struct Call { string name; cs::Case c; int api; vector<int> owner; };
    for (int nr = 1; nr <= (T ? 3 : 2); ++nr) for (int kind = 0; kind < 2; ++kind) {
      auto ow = [&](int n, int k) { vector<int> o; for (int i = 0; i < n; ++i) o.push_back((i / k) % nr); return o; };
      vector<Call> O = {{"box", fromShape("box", 1, {0, 5, 9, 12, 14}, "id"), 0, ow(5, 1)}, {"plc", fromShape("box", 1, {0, 5, 9, 12, 14}, "id"), 1, ow(5, 1)},
        {"hole", fromShape("hole", 1, {0, 3, 6, 8}, "mega"), 1, ow(4, 2)}, {"star", fromShape("star", 1, {0, 1, 2}, "far"), 2, ow(3, 1)}, {"unb", fromShape("box", 1, {0, 3, 9, 12, 15}, "micro"), 3, ow(5, 1)}, {"L", fromShape("L", 1, {0, 2, 5, 7}, "id"), 2, ow(4, 1)}};
      const auto snapshot = O;
      auto call = [&](const Call& q, int r, DistributedTessellator<2, double>& t, Mesh& m) {
        cs::Vec pts; for (size_t i = 0; i < q.owner.size(); ++i) if (q.owner[i] == r) { pts.push_back(q.c.gen[i].x); pts.push_back(q.c.gen[i].y); }
        const cs::Vec keep = pts;
        if (q.api == 0) { double lo[2] = {q.c.lo[0], q.c.lo[1]}, hi[2] = {q.c.hi[0], q.c.hi[1]}; t.tessellate(pts, lo, hi, m); }
        else if (q.api == 1) t.tessellate(pts, q.c.plcpts, q.c.plc, m);
        else if (q.api == 2) { ReducedPLC<2, double> z; z.facets = q.c.plc.facets; z.holes = q.c.plc.holes; z.points = q.c.plcpts; t.tessellate(pts, z, m); }
        else t.tessellate(pts, m);
        if (pts != keep) m.clear();
      };
      auto history = [&](const vector<int>& h, vector<vector<Mesh>>& out) {
        { vector<vector<Mesh>> x(h.size()); out.swap(x); } for (auto& v : out) { vector<Mesh> f(nr); v.swap(f); }
        fmpi::Config cfg; cfg.nranks = nr;
        auto res = fmpi::run(cfg, [&](int r) {
          unique_ptr<DistributedTessellator<2, double>> t;
          if (kind == 0) t.reset(new DistributedTessellator<2, double>(new BT, true, true)); else t.reset(new SerialDistributedTessellator<2, double>(new BT, true, true));
          for (size_t k = 0; k < h.size(); ++k) call(O[h[k]], r, *t, out[k][r]);
        });
        R.transitions += h.size();
        return res;
      };
      vector<vector<vector<Mesh>>> fresh(O.size()); bool have = false;
      for (int n = 1; n <= (T ? 4 : 3); ++n) mc::tuples(n, O.size(), [&](const vector<int>& h) {
        string id = fmt("dhist:%d:%d", nr, kind); for (int k : h) id += ":" + O[k].name;
        if (!R.begin(id)) return;
        if (!have) { have = true; for (size_t k = 0; k < O.size(); ++k) { auto r = history({(int)k}, fresh[k]); if (!r.ok) { R.fail("single call: " + r.error); R.end(); return; } } }
        vector<vector<Mesh>> out;
        auto r = history(h, out);
        if (!r.ok) { R.fail(r.error); R.end(); return; }
        uint64_t st = mc::mix(nr, kind);
        for (size_t k = 0; k < h.size(); ++k) { st = mc::mix(st, h[k]); R.seen(st);
          for (int q = 0; q < nr; ++q) { R.comparisons++; if (out[k][q].cells.empty()) { R.fail("an input was modified"); break; } if (!identicalMesh(out[k][q], fresh[h[k]][0][q])) { R.fail(fmt("call %zu: the result on domain %d depends on earlier calls", k, q)); break; } } }
        for (size_t k = 0; k < O.size(); ++k) if (O[k].c.plcpts != snapshot[k].c.plcpts || O[k].c.plc.facets != snapshot[k].c.plc.facets || O[k].c.plc.holes != snapshot[k].c.plc.holes) R.fail("a boundary was modified");
        if (n > 1) R.nontrivial++;
        R.end();
      });
    }
  } else return 2;
  return R.finish();
}
