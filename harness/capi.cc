// The C interface: property P25.  Every C call has its C++ counterpart as the oracle; sequences of
// calls on one object are explored with the allocator watched.
#include "mpi.h"
#include "fmpi.hh"
#include "cases.hh"
#include "SiloWriter.hh"
#include "silocheck.hh"
#include "polytope_c.h"
#include "BoostTessellator.hh"
#include "ErrorHandler.hh"
#include <ftw.h>
#include <sys/stat.h>
#include <csignal>
typedef BoostTessellator<double> BT; typedef polytope_tessellation_t CT;
static mc::Run R;
static string scratch;
#ifdef __SANITIZE_ADDRESS__
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t heap() { return 0; }
#endif
static int rmOne(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void wipe(const string& d) { if (d.compare(0, scratch.size(), scratch) == 0 && d.size() > scratch.size() + 1) nftw(d.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS); }

// ---- inputs ----------------------------------------------------------------
struct Input { cs::Vec pts, plcpts; PLC<2, double> plc; double lo[2], hi[2]; };
static Input input(const cs::Case& c) { Input i; i.pts = c.pts; i.plcpts = c.plcpts; i.plc = c.plc; for (int d = 0; d < 2; ++d) { i.lo[d] = c.lo[d]; i.hi[d] = c.hi[d]; } return i; }
static polytope_plc_t* cplc(const PLC<2, double>& p) {
  polytope_plc_t* r = polytope_plc_new(2);
  for (auto& f : p.facets) { int k = polytope_plc_add_facet(r); for (int n : f) polytope_plc_add_facet_node(r, k, n); }
  for (auto& h : p.holes) { int k = polytope_plc_add_hole(r); for (auto& f : h) { int q = polytope_plc_add_hole_facet(r, k); for (int n : f) polytope_plc_add_hole_facet_node(r, k, q, n); } }
  return r;
}
static void runC(polytope_tessellator_t* t, Input& in, int api, CT* m) {
  const int n = in.pts.size()/2;
  if (api == 0) polytope_tessellator_tessellate_unbounded(t, &in.pts[0], n, m);
  else if (api == 1) polytope_tessellator_tessellate_in_box(t, &in.pts[0], n, in.lo, in.hi, m);
  else { polytope_plc_t* p = cplc(in.plc); polytope_tessellator_tessellate_in_plc(t, &in.pts[0], n, &in.plcpts[0], in.plcpts.size()/2, p, m); polytope_plc_free(p); }
}
static void runCxx(const BT& t, Input& in, int api, M2& m) {
  if (api == 0) t.tessellate(in.pts, m);
  else if (api == 1) t.tessellate(in.pts, in.lo, in.hi, m);
  else t.tessellate(in.pts, in.plcpts, in.plc, m);
}
// ---- comparison ------------------------------------------------------------
template <class T, class U> static string csr(const char* what, const vector<vector<T>>& v, const int* off, const U* val) {
  if (!off || off[0] != 0) return mc::fmt("the offsets of %s do not begin at 0", what);
  for (size_t i = 0; i < v.size(); ++i) {
    if (off[i + 1] - off[i] != (int)v[i].size()) return mc::fmt("%s %zu has %d entries instead of %zu", what, i, off[i + 1] - off[i], v[i].size());
    for (size_t j = 0; j < v[i].size(); ++j) if ((long)val[off[i] + j] != (long)v[i][j]) return mc::fmt("entry %zu of %s %zu differs", j, what, i);
  }
  return "";
}
template <class T, class U> static string arr(const char* what, const vector<T>& v, int n, const U* val) {
  if (n != (int)v.size()) return mc::fmt("%d %s instead of %zu", n, what, v.size());
  for (size_t i = 0; i < v.size(); ++i) if (val[i] != v[i]) return mc::fmt("entry %zu of %s differs", i, what);
  return "";
}
static string same(const CT* c, const M2& m) {
  string e;
  if (c->dimension != 2) return "the dimension is wrong";
  if (c->num_nodes*2 != (int)m.nodes.size()) return mc::fmt("%d nodes instead of %zu", c->num_nodes, m.nodes.size()/2);
  if (c->num_nodes && memcmp(c->nodes, &m.nodes[0], 8*m.nodes.size())) return "the nodes differ";
  if (c->num_faces != (int)m.faces.size()) return mc::fmt("%d faces instead of %zu", c->num_faces, m.faces.size());
  if (c->num_cells != (int)m.cells.size()) return mc::fmt("%d cells instead of %zu", c->num_cells, m.cells.size());
  if (!(e = csr("cell", m.cells, c->cell_offsets, c->cell_faces)).empty()) return e;
  if (!(e = csr("face", m.faces, c->face_offsets, c->face_nodes)).empty()) return e;
  for (size_t f = 0; f < m.faceCells.size(); ++f) {
    auto& x = m.faceCells[f];
    if (c->face_cells[2*f] != x[0] || c->face_cells[2*f + 1] != (x.size() == 2 ? x[1] : -1)) return mc::fmt("face %zu has cells (%d,%d)", f, c->face_cells[2*f], c->face_cells[2*f + 1]);
  }
  if (!(e = arr("boundary nodes", m.boundaryNodes, c->num_boundary_nodes, c->boundary_nodes)).empty()) return e;
  if (!(e = arr("boundary faces", m.boundaryFaces, c->num_boundary_faces, c->boundary_faces)).empty()) return e;
  if (!(e = arr("neighbor domains", m.neighborDomains, c->num_neighbor_domains, c->neighbor_domains)).empty()) return e;
  if (m.neighborDomains.size()) { if (!(e = csr("shared nodes of domain", m.sharedNodes, c->shared_node_domain_offsets, c->shared_nodes)).empty()) return e; if (!(e = csr("shared faces of domain", m.sharedFaces, c->shared_face_domain_offsets, c->shared_faces)).empty()) return e; }
  return "";
}
static string emptyC(const CT* c) {
  if (c->num_nodes || c->num_cells || c->num_faces || c->num_boundary_nodes || c->num_boundary_faces || c->num_neighbor_domains) return "a cleared tessellation has counts";
  if (c->nodes || c->cell_offsets || c->cell_faces || c->face_offsets || c->face_nodes || c->boundary_nodes || c->boundary_faces || c->face_cells || c->convex_hull || c->neighbor_domains || c->shared_nodes || c->shared_faces || c->shared_node_domain_offsets || c->shared_face_domain_offsets || c->node_cells || c->node_cell_offsets) return "a cleared tessellation has arrays";
  return "";
}
// ---- text ------------------------------------------------------------------
template <class T> static string text(const T& t) { ostringstream s; s << t; return s.str(); }
static string slurp(function<void(FILE*)> f) { char* p = nullptr; size_t n = 0; FILE* o = open_memstream(&p, &n); f(o); fclose(o); string s(p, n); free(p); return s; }
// all truncations (or those around the ends and powers of two for long texts)
static string truncations(const string& want, function<void(char*, int)> f, bool all) {
  vector<int> ns; const int L = want.size();
  if (all) for (int n = 1; n <= L + 3; ++n) ns.push_back(n);
  else { for (int n : {1, 2, 3, 7, 8, 9, 64, 127, 128, 129, L/2, L - 1, L, L + 1, L + 2, L + 100}) if (n > 0) ns.push_back(n); }
  for (int n : ns) {
    vector<char> b(n + 32, '\x7e'); f(&b[16], n);
    for (int i = 0; i < 16; ++i) if (b[i] != '\x7e' || b[16 + n + i] != '\x7e') return mc::fmt("with n=%d bytes around the string were written", n);
    const string w = want.substr(0, n - 1);
    if (memchr(&b[16], 0, n) == nullptr) return mc::fmt("with n=%d the string is not terminated", n);
    if (w != &b[16]) return mc::fmt("with n=%d the string is '%.40s'", n, &b[16]);
  }
  return "";
}
// ---- A: all results --------------------------------------------------------
static string silo(const CT* cm, const M2& m, int salt, bool tags) {
  // fields and tags on every centering
  Fields F; const size_t n[4] = {m.nodes.size()/2, m.faces.size(), m.faces.size(), m.cells.size()}; const char* nm[4] = {"n", "e", "f", "c"};
  vector<string> fn[4], tn[4]; vector<char*> fp[4], tp[4]; vector<double*> fv[4]; vector<int*> tv[4]; vector<int> ts[4];
  for (int k = 0; k < 4; ++k) {
    for (int a = 0; a < (k + salt) % 3; ++a) { auto& v = F.f[k][mc::fmt("%s_f%d", nm[k], a)]; for (size_t i = 0; i < n[k]; ++i) v.push_back(1000*k + 100*a + i + salt); }
    if (tags) for (int a = 0; a < (k + salt + 1) % 3; ++a) { auto& v = F.t[k][mc::fmt("%s_t%d", nm[k], a)]; for (int i = 0; i <= a + k % 2; ++i) v.push_back(10*k + a + i + salt); }
    for (auto& x : F.f[k]) { fn[k].push_back(x.first); fv[k].push_back(&x.second[0]); }
    for (auto& x : F.t[k]) { tn[k].push_back(x.first); tv[k].push_back(&x.second[0]); ts[k].push_back(x.second.size()); }
    for (auto& s : fn[k]) fp[k].push_back(&s[0]);
    for (auto& s : tn[k]) tp[k].push_back(&s[0]);
  }
  string tmp = scratch + "/capi.XXXXXX"; vector<char> t(tmp.begin(), tmp.end()); t.push_back(0);
  if (!mkdtemp(&t[0])) abort();
  const Write w = {salt % 4 - 1, salt % 2 ? 0.5*salt : -FLT_MAX, 0, 0, 0};
  CT* c = const_cast<CT*>(cm);
  fmpi::Config cfg; cfg.nranks = 1;
  auto res = fmpi::run(cfg, [&](int) {
    if (!tags) polytope_write_silo(c, fp[0].size(), fp[0].data(), fv[0].data(), fp[1].size(), fp[1].data(), fv[1].data(), fp[2].size(), fp[2].data(), fv[2].data(), fp[3].size(), fp[3].data(), fv[3].data(), "m", &t[0], w.cycle, w.time, MPI_COMM_WORLD, 1, 5);
    else polytope_write_silo_with_tags(c, fp[0].size(), fp[0].data(), fv[0].data(), tp[0].size(), tp[0].data(), ts[0].data(), tv[0].data(), fp[1].size(), fp[1].data(), fv[1].data(), tp[1].size(), tp[1].data(), ts[1].data(), tv[1].data(),
        fp[2].size(), fp[2].data(), fv[2].data(), tp[2].size(), tp[2].data(), ts[2].data(), tv[2].data(), fp[3].size(), fp[3].data(), fv[3].data(), tp[3].size(), tp[3].data(), ts[3].data(), tv[3].data(), "m", &t[0], w.cycle, w.time, MPI_COMM_WORLD, 1, 5);
  });
  string e = res.ok ? "" : res.error;
  if (e.empty()) {
    const string fn0 = &t[0] + string("/0/m") + (w.cycle >= 0 ? mc::fmt("-%d", w.cycle) : "") + ".silo"; File f(fn0);
    if (!f.f) e = "the file cannot be opened";
    else if (DBSetDir(f.f, "domain_0")) e = "the file has no domain";
    else e = domain<2>(f.f, m, F, w);
  }
  wipe(&t[0]);
  return e.empty() ? "" : "silo: " + e;
}
static void results() {
  int k = 0;
  cs::Enum E{R, [&](const cs::Case& c) {
    ++k; Input in = input(c);
    for (int api = 0; api < 3; ++api) {
      if (api == 0 && c.gen.size() < 3) continue;
      if (api == 0) { bool flat = true; for (size_t i = 2; i < c.gen.size(); ++i) flat &= fabsl((c.gen[1].x - c.gen[0].x)*(c.gen[i].y - c.gen[0].y) - (c.gen[1].y - c.gen[0].y)*(c.gen[i].x - c.gen[0].x)) < 1e-9L*c.L*c.L; if (flat) continue; }
      if (api == 1 && !c.axisBox) continue;
      polytope_tessellator_t* t = boost_tessellator_new(); CT* m = polytope_tessellation_new(2);
      BT bt; M2 want;
      { mc::Quiet q; runCxx(bt, in, api, want); runC(t, in, api, m); }
      const char* A[3] = {"unbounded", "box", "plc"};
      string e = same(m, want); R.comparisons += 8; R.transitions++;
      if (!e.empty()) { R.fail(string(A[api]) + ": " + e); polytope_tessellator_free(t); return; }
      if (want.convexHull.empty() != (m->convex_hull == nullptr)) R.fail("convex hull");
      if (want.convexHull.empty() || want.convexHull.facets.empty()) { e = silo(m, want, k % 7, k & 1); R.comparisons++; if (!e.empty()) R.fail(string(A[api]) + ": " + e); }
      const string T = text(want);
      e = truncations(T, [&](char* s, int n) { polytope_tessellation_snprintf(m, s, n); }, false); if (!e.empty()) R.fail(string(A[api]) + ": snprintf: " + e);
      if (slurp([&](FILE* f) { polytope_tessellation_fprintf(m, f); }) != T) R.fail("fprintf prints something else");
      R.comparisons += 17;
      R.seen(mc::fnv(T)); R.nontrivial += c.gen.size() > 1;
      polytope_tessellation_free(m); polytope_tessellator_free(t);
    }
  }};
  cs::latticeBoxes(E, 3, R.thorough() ? 6 : 4, {0.5, 1.25});
  cs::shapeSubsets(E, R.thorough() ? 4 : 3, {1}, {}, {"id"});
  cs::shapeSubsets(E, 2, {0, 2}, {}, {"rotfar", "tiny"});
  cs::structured(E, 0);
}
// ---- B: histories of one tessellation and one tessellator --------------------
static vector<Input> inputs() {
  vector<Input> v;
  for (auto n : {"box", "holeT", "L"}) { cs::Case c; c.dom = cs::shape(n).d; auto g = cs::candidates(c.dom, 1); g.resize(v.size() == 1 ? 5 : 3 + 2*v.size()); c.gen = g; c.finish(); v.push_back(input(c)); }
  v[0].lo[0] = v[0].lo[1] = 0; v[0].hi[0] = v[0].hi[1] = 12;
  return v;
}
static string history(const vector<int>& h, vector<Input>& in, const vector<unique_ptr<M2>>& want) {
  string e; string now; M2 none; const M2* cur = &none; bool clean = true;
  CT* m = polytope_tessellation_new(2); polytope_tessellator_t* t = boost_tessellator_new(); const char* name = polytope_tessellator_name(t);
  if (!(e = emptyC(m)).empty()) return "new: " + e;
  for (size_t i = 0; i < h.size(); ++i) {
    const int o = h[i];
    if (o < 5) { mc::Quiet q; runC(t, in[o % 3], o == 0 ? 1 : o == 3 || o == 4 ? 0 : 2, m); cur = want[o].get(); clean = false; }
    else if (o == 5) { polytope_tessellation_clear(m); cur = &none; clean = true; }
    else { polytope_tessellator_free(t); t = boost_tessellator_new(); name = polytope_tessellator_name(t); }
    e = clean ? emptyC(m) : same(m, *cur);
    if (e.empty()) { const string T = text(*cur); if (slurp([&](FILE* f) { polytope_tessellation_fprintf(m, f); }) != T) e = "the printed text differs"; }
    if (e.empty() && string(name) != "BoostTessellator") e = "the name is gone";
    R.comparisons += 3; R.transitions++;
    if (!e.empty()) return mc::fmt("after operation %zu: ", i) + e;
    R.seen(mc::mix(mc::fnv(text(*cur)), o));
  }
  polytope_tessellation_free(m); polytope_tessellator_free(t);
  return "";
}
static void histories() {
  auto in = inputs(); vector<unique_ptr<M2>> want; BT bt;
  for (int o = 0; o < 5; ++o) { want.emplace_back(new M2); mc::Quiet q; runCxx(bt, in[o % 3], o == 0 ? 1 : o >= 3 ? 0 : 2, *want[o]); }
  const int D = R.thorough() ? 6 : 4;
  for (int n = 0; n <= D; ++n) mc::tuples(max(n, 1), 7, [&](const vector<int>& full) {
    vector<int> h = full; if (!n) { if (full[0]) return; h.clear(); }
    if (!R.begin("hist:" + mc::join(h))) return;
    R.describe("0 box, 1-2 boundary, 3-4 unbounded, 5 clear, 6 new tessellator: " + mc::join(h));
    static bool warm = false; if (!warm) { warm = true; history({0, 1, 2, 3, 4, 5, 6}, in, want); }
    string e = history(h, in, want);
    if (e.empty()) { const size_t a = heap(); e = history(h, in, want); const size_t b = heap(); R.comparisons++; if (e.empty() && b > a) e = mc::fmt("the history leaks %zu bytes", b - a); }
    if (!e.empty()) R.fail(e);
    R.nontrivial += n > 1;
    R.end();
  });
}
// ---- C: histories of one PLC -------------------------------------------------
struct Model { vector<vector<int>> f; vector<vector<vector<int>>> h; };
struct Op { int k, a, b; };
static string opName(const Op& o) { const char* N[6] = {"F", "f", "H", "G", "g", "C"}; return o.k == 0 || o.k == 2 || o.k == 5 ? N[o.k] : o.k == 4 ? mc::fmt("g%d.%d", o.a, o.b) : mc::fmt("%s%d", N[o.k], o.a); }
static vector<Op> ops(const Model& m) {
  vector<Op> r = {{0, 0, 0}, {2, 0, 0}, {5, 0, 0}};
  for (int i = 0; i < (int)m.f.size(); ++i) r.push_back({1, i, 0});
  for (int i = 0; i < (int)m.h.size(); ++i) { r.push_back({3, i, 0}); for (int j = 0; j < (int)m.h[i].size(); ++j) r.push_back({4, i, j}); }
  return r;
}
static void apply(Model& m, const Op& o, int v) {
  if (o.k == 0) m.f.push_back({}); else if (o.k == 1) m.f[o.a].push_back(v); else if (o.k == 2) m.h.push_back({});
  else if (o.k == 3) m.h[o.a].push_back({}); else if (o.k == 4) m.h[o.a][o.b].push_back(v); else m = Model();
}
static string comparePLC(polytope_plc_t* p, const Model& m, int D) {
  for (size_t f = 0; f < m.f.size(); ++f) {
    if (polytope_plc_num_facet_nodes(p, f) != (int)m.f[f].size()) return mc::fmt("facet %zu has %d nodes", f, polytope_plc_num_facet_nodes(p, f));
    vector<int> v(m.f[f].size() + 1, -7); polytope_plc_get_facet_nodes(p, f, &v[0]); if (v.back() != -7) return "get_facet_nodes writes too much"; v.pop_back();
    if (v != m.f[f]) return mc::fmt("facet %zu has nodes %s", f, mc::join(v).c_str());
  }
  for (size_t h = 0; h < m.h.size(); ++h) {
    if (polytope_plc_num_hole_facets(p, h) != (int)m.h[h].size()) return mc::fmt("hole %zu has %d facets", h, polytope_plc_num_hole_facets(p, h));
    for (size_t f = 0; f < m.h[h].size(); ++f) {
      if (polytope_plc_num_hole_facet_nodes(p, h, f) != (int)m.h[h][f].size()) return mc::fmt("facet %zu of hole %zu has %d nodes", f, h, polytope_plc_num_hole_facet_nodes(p, h, f));
      vector<int> v(m.h[h][f].size() + 1, -7); polytope_plc_get_hole_facet_nodes(p, h, f, &v[0]); if (v.back() != -7) return "get_hole_facet_nodes writes too much"; v.pop_back();
      if (v != m.h[h][f]) return mc::fmt("facet %zu of hole %zu has nodes %s", f, h, mc::join(v).c_str());
    }
  }
  if (polytope_plc_empty(p) != (m.f.empty() && m.h.empty())) return "empty() is wrong";
  bool ok = true; auto good = [&](size_t n) { return D == 2 ? n == 2 : n >= 3; };
  for (auto& f : m.f) ok &= good(f.size());
  for (auto& h : m.h) for (auto& f : h) ok &= good(f.size());
  if (polytope_plc_valid(p) != ok) return "valid() is wrong";
  string T; if (D == 2) { PLC<2, double> q; q.facets = m.f; q.holes = m.h; T = text(q); } else { PLC<3, double> q; q.facets = m.f; q.holes = m.h; T = text(q); }
  if (slurp([&](FILE* f) { polytope_plc_fprintf(p, f); }) != T) return "fprintf prints something else";
  string e = truncations(T, [&](char* s, int n) { polytope_plc_snprintf(p, s, n); }, false);
  return e.empty() ? "" : "snprintf: " + e;
}
static string plcHistory(const vector<Op>& h, int D) {
  polytope_plc_t* p = polytope_plc_new(D); Model m; string e = comparePLC(p, m, D);
  for (size_t i = 0; i < h.size() && e.empty(); ++i) {
    const Op& o = h[i]; const int v = 3*i + 1; int got = -1, want = -1;
    if (o.k == 0) { got = polytope_plc_add_facet(p); want = m.f.size(); }
    else if (o.k == 1) polytope_plc_add_facet_node(p, o.a, v);
    else if (o.k == 2) { got = polytope_plc_add_hole(p); want = m.h.size(); }
    else if (o.k == 3) { got = polytope_plc_add_hole_facet(p, o.a); want = m.h[o.a].size(); }
    else if (o.k == 4) polytope_plc_add_hole_facet_node(p, o.a, o.b, v);
    else polytope_plc_clear(p);
    apply(m, o, v);
    if (got != want) e = mc::fmt("%s returned index %d", opName(o).c_str(), got);
    else if (i + 1 == h.size()) e = comparePLC(p, m, D);
    R.transitions++; R.comparisons++;
  }
  polytope_plc_free(p);
  return e;
}
static void plcs() {
  const int D = R.thorough() ? 8 : 6;
  for (int dim = 2; dim <= 3; ++dim) {
    // one case per prefix of two operations; all its extensions inside
    vector<Op> h; Model m;
    function<void(int)> rec = [&](int depth) {
      if (R.failedThis) return;
      string e = plcHistory(h, dim); R.count("plc_histories", 1);
      if (!e.empty()) { vector<string> s; for (auto& o : h) s.push_back(opName(o)); R.fail(e + " after " + mc::join(s, " ")); return; }
      R.seen(mc::fnv(mc::fmt("%d", dim) + [&] { string s; for (auto& f : m.f) s += mc::fmt("f%zu", f.size()); for (auto& q : m.h) { s += "h"; for (auto& f : q) s += mc::fmt("g%zu", f.size()); } return s; }()));
      if (depth == 0) return;
      for (auto& o : ops(m)) { Model keep = m; h.push_back(o); apply(m, o, 3*(h.size() - 1) + 1); rec(depth - 1); h.pop_back(); m = keep; }
    };
    for (auto& a : ops(Model())) {
      Model m1; apply(m1, a, 1);
      for (auto& b : ops(m1)) {
        if (!R.begin(mc::fmt("plc%d:%s,%s", dim, opName(a).c_str(), opName(b).c_str()))) continue;
        R.describe("all extensions of the first two operations");
        h = {a, b}; m = m1; apply(m, b, 4);
        rec(D - 2); R.nontrivial++;
        const size_t x = heap(); plcHistory(h, dim); const size_t y = heap(); if (y > x) R.fail("a PLC leaks");
        R.end();
      }
    }
  }
}
// ---- D: queries and errors ---------------------------------------------------
static vector<string> heard;
static void hA(const char* m, int s) { heard.push_back(mc::fmt("A%s:%d", m, s)); }
static void hB(const char* m, int s) { heard.push_back(mc::fmt("B%s:%d", m, s)); }
static void queries() {
  if (R.begin("query:boost")) {
    polytope_tessellator_t* t = boost_tessellator_new(); BT bt;
    MC_CHECK(R, bt.name() == polytope_tessellator_name(t), "name"); MC_CHECK(R, bt.handlesPLCs() == polytope_tessellator_handles_plcs(t), "handles_plcs");
    MC_CHECK(R, bt.degeneracy() == polytope_tessellator_degeneracy(t), "degeneracy"); MC_CHECK(R, polytope_tessellator_dimension(t) == 2, "dimension");
    vector<polytope_tessellator_t*> more; for (int i = 0; i < 5; ++i) { more.push_back(boost_tessellator_new()); polytope_tessellator_name(more.back()); }
    MC_CHECK(R, bt.name() == polytope_tessellator_name(t), "name");
    for (auto x : more) polytope_tessellator_free(x);
    polytope_tessellator_free(t);
    CT* c = polytope_tessellation_new(3); MC_CHECK(R, c->dimension == 3, "dimension of a tessellation"); string e = emptyC(c); MC_CHECK(R, e.empty(), "%s", e.c_str());
    string T; { M3 m; T = text(m); } e = truncations(T, [&](char* s, int n) { polytope_tessellation_snprintf(c, s, n); }, true); MC_CHECK(R, e.empty(), "snprintf: %s", e.c_str());
    polytope_tessellation_clear(c); polytope_tessellation_clear(c); polytope_tessellation_free(c);
    R.nontrivial++; R.seen(1); R.transitions += 8; R.end();
  }
  // every sequence of installing handlers and raising errors
  mc::tuples(R.thorough() ? 7 : 5, 4, [&](const vector<int>& s) {
    if (s[0] > 1) return;
    if (!R.begin("error:" + mc::join(s))) return;
    R.describe("0,1 install a handler, 2,3 an error: " + mc::join(s));
    heard.clear(); vector<string> want; char cur = 0;
    for (int o : s) {
      if (o < 2) { polytope_set_error_handler(o ? hB : hA); cur = o ? 'B' : 'A'; }
      else if (o == 2) { polytope::error("some text", 3); want.push_back(string(1, cur) + "some text:3"); }
      else { polytope::error(""); want.push_back(string(1, cur) + ":-1"); }
      R.transitions++;
    }
    MC_CHECK(R, heard == want, "heard %s instead of %s", mc::join(heard).c_str(), mc::join(want).c_str());
    R.seen(mc::fnv(mc::join(want))); R.nontrivial += want.size() > 1; R.end();
  });
}
int main(int argc, char** argv) {
  R.parse(argc, argv);
  DBShowErrors(DB_NONE, nullptr);
  const char* e = getenv("VERIF_SCRATCH"); scratch = e ? e : "/tmp";
  results(); histories(); plcs(); queries();
  return R.finish();
}
