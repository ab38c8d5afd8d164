// Mesh editing and connectivity queries: properties P09-P11.
#include "cases.hh"
#include "MeshEditor.hh"
#include "deleteCells.hh"
#include "findBoundaryElements.hh"
#include "removeElements.hh"
using namespace polytope; using namespace std; using mc::fmt; using mchk::pos;
typedef BoostTessellator<double> BT;
static mc::Run R;
template <int D> using M = Tessellation<D, double>;

template <int D> static void copyMesh(const M<D>& a, M<D>& b) {
  b.nodes = a.nodes; b.cells = a.cells; b.faces = a.faces; b.faceCells = a.faceCells; b.boundaryNodes = a.boundaryNodes; b.boundaryFaces = a.boundaryFaces;
  b.neighborDomains = a.neighborDomains; b.sharedNodes = a.sharedNodes; b.sharedFaces = a.sharedFaces;
  b.convexHull.facets = a.convexHull.facets;
}
// ---- dimension-independent structure check -----------------------------------
// Faces are node loops, cells are sets of oriented faces enclosing a closed surface.
template <int D> static string valid(const M<D>& m, bool uniqueNodes = true, bool loops = true) {
  const size_t nn = m.nodes.size() / D, nf = m.faces.size(), nc = m.cells.size();
  if (m.nodes.size() % D) return "odd number of node coordinates";
  if (m.faceCells.size() != nf) return fmt("faceCells has %zu entries for %zu faces", m.faceCells.size(), nf);
  vector<char> nu(nn, 0); set<vector<unsigned>> fset;
  for (size_t f = 0; f < nf; ++f) {
    auto v = m.faces[f]; if (v.size() < (size_t)D) return fmt("face %zu has %zu nodes", f, v.size());
    for (auto n : v) { if (n >= nn) return fmt("face %zu refers to node %u of %zu", f, n, nn); nu[n] = 1; }
    sort(v.begin(), v.end());
    if (unique(v.begin(), v.end()) != v.end()) return fmt("face %zu visits a node twice", f);
    if (!fset.insert(v).second) return fmt("face %zu duplicates another face", f);
  }
  for (size_t n = 0; n < nn; ++n) if (!nu[n]) return fmt("node %zu belongs to no face", n);
  vector<vector<int>> fc(nf);
  for (size_t c = 0; c < nc; ++c) {
    if (m.cells[c].size() < (size_t)D + 1) return fmt("cell %zu has %zu faces", c, m.cells[c].size());
    map<pair<unsigned, unsigned>, int> ed; map<unsigned, int> ends; set<unsigned> fs;
    for (int f : m.cells[c]) {
      if (pos(f) >= nf) return fmt("cell %zu refers to face %d of %zu", c, f, nf);
      if (!fs.insert(pos(f)).second) return fmt("cell %zu lists face %u twice", c, pos(f));
      fc[pos(f)].push_back(f >= 0 ? (int)c : ~(int)c);
      auto v = m.faces[pos(f)]; if (f < 0) reverse(v.begin(), v.end());
      if (D == 2) { ends[v[0]]++; ends[v[1]]--; }
      else for (size_t k = 0; k < v.size(); ++k) { ed[{v[k], v[(k + 1) % v.size()]}]++; }
    }
    for (auto& e : ends) if (e.second) return fmt("cell %zu is not closed at node %u", c, e.first);
    for (auto& e : ed) if (e.second != 1 || !ed.count({e.first.second, e.first.first})) return fmt("cell %zu is not a closed surface at edge %u-%u", c, e.first.first, e.first.second);
    if (D == 2 && loops) {
      const auto& cell = m.cells[c];
      for (size_t k = 0; k < cell.size(); ++k) {
        int f = cell[k], g = cell[(k + 1) % cell.size()];
        if ((f >= 0 ? m.faces[f][1] : m.faces[~f][0]) != (g >= 0 ? m.faces[g][0] : m.faces[~g][1])) return fmt("the faces of cell %zu are not in loop order", c);
      }
    }
  }
  for (size_t f = 0; f < nf; ++f) {
    auto a = fc[f], b = m.faceCells[f]; sort(a.begin(), a.end()); sort(b.begin(), b.end());
    if (a != b) return fmt("faceCells[%zu] = (%s) but the cells using it are (%s)", f, mc::join(b).c_str(), mc::join(a).c_str());
    if (a.empty()) return fmt("face %zu belongs to no cell", f);
    if (a.size() > 2) return fmt("face %zu belongs to %zu cells", f, a.size());
    if (a.size() == 2 && (a[0] < 0) == (a[1] < 0)) return fmt("face %zu has the same orientation in both its cells", f);
  }
  if (uniqueNodes) { set<vector<double>> s; for (size_t n = 0; n < nn; ++n) if (!s.insert(vector<double>(m.nodes.begin() + D * n, m.nodes.begin() + D * (n + 1))).second) return fmt("node %zu duplicates another node's position", n); }
  return "";
}
template <int D> static string boundaryLists(const M<D>& m) {
  vector<unsigned> bf, bn; set<unsigned> ns;
  for (size_t f = 0; f < m.faces.size(); ++f) if (m.faceCells[f].size() == 1) { bf.push_back(f); ns.insert(m.faces[f].begin(), m.faces[f].end()); }
  bn.assign(ns.begin(), ns.end());
  auto gf = m.boundaryFaces, gn = m.boundaryNodes; sort(gf.begin(), gf.end()); sort(gn.begin(), gn.end());
  if (gf != bf) return fmt("boundary faces (%s) are not the single-cell faces (%s)", mc::join(gf).c_str(), mc::join(bf).c_str());
  if (gn != bn) return fmt("boundary nodes (%s) are not the nodes of the boundary faces (%s)", mc::join(gn).c_str(), mc::join(bn).c_str());
  return "";
}
typedef vector<double> Pt;
template <int D> static Pt at(const M<D>& m, unsigned n) { return Pt(m.nodes.begin() + D * n, m.nodes.begin() + D * (n + 1)); }
// canonical coordinate loop of a face as traversed by a cell
static vector<Pt> canon(vector<Pt> v) { rotate(v.begin(), min_element(v.begin(), v.end()), v.end()); return v; }
template <int D> static vector<Pt> faceLoop(const M<D>& m, int f) {
  vector<Pt> v; for (auto n : m.faces[pos(f)]) v.push_back(at<D>(m, n));
  if (f < 0) reverse(v.begin(), v.end());
  return v;
}
template <int D> static multiset<vector<Pt>> cellSig(const M<D>& m, size_t c) {
  multiset<vector<Pt>> s;
  for (int f : m.cells[c]) { auto v = faceLoop<D>(m, f); s.insert(D == 2 ? v : canon(v)); }
  return s;
}
template <int D> static set<Pt> faceKey(const M<D>& m, unsigned f) { set<Pt> s; for (auto n : m.faces[f]) s.insert(at<D>(m, n)); return s; }

// The mesh must be exactly the submesh of `o` induced by the kept cells.
template <int D> static string induced(const M<D>& o, const vector<unsigned>& keep, const M<D>& m) {
  size_t k = 0; set<unsigned> uf, un;
  for (auto x : keep) k += x;
  if (m.cells.size() != k) return fmt("%zu cells remain, expected %zu", m.cells.size(), k);
  string s = valid<D>(m); if (!s.empty()) return s;
  size_t j = 0;
  for (size_t c = 0; c < o.cells.size(); ++c) if (keep[c]) {
    if (cellSig<D>(m, j) != cellSig<D>(o, c)) return fmt("cell %zu is not the former cell %zu", j, c);
    for (int f : o.cells[c]) { uf.insert(pos(f)); un.insert(o.faces[pos(f)].begin(), o.faces[pos(f)].end()); }
    ++j;
  }
  if (m.faces.size() != uf.size() || m.nodes.size() != D * un.size()) return fmt("%zu faces and %zu nodes remain, expected %zu and %zu", m.faces.size(), m.nodes.size() / D, uf.size(), un.size());
  s = boundaryLists<D>(m); if (!s.empty()) return s;
  if (m.neighborDomains != o.neighborDomains || m.sharedNodes.size() != o.sharedNodes.size() || m.sharedFaces.size() != o.sharedFaces.size()) return "neighbor domains changed";
  for (size_t d = 0; d < o.sharedNodes.size(); ++d) {
    vector<Pt> want, got; vector<set<Pt>> wf, gf;
    for (auto n : o.sharedNodes[d]) if (un.count(n)) want.push_back(at<D>(o, n));
    for (auto n : m.sharedNodes[d]) { if (n >= m.nodes.size() / D) return "shared node out of range"; got.push_back(at<D>(m, n)); }
    for (auto f : o.sharedFaces[d]) if (uf.count(f)) wf.push_back(faceKey<D>(o, f));
    for (auto f : m.sharedFaces[d]) { if (f >= m.faces.size()) return "shared face out of range"; gf.push_back(faceKey<D>(m, f)); }
    if (want != got) return fmt("shared nodes with neighbor %zu are not the surviving ones in order", d);
    if (wf != gf) return fmt("shared faces with neighbor %zu are not the surviving ones in order", d);
  }
  if (!m.convexHull.facets.empty()) return "a convex hull of the former mesh is still attached";
  return "";
}
template <int D> static void addShared(M<D>& m, int pattern) {
  const unsigned nn = m.nodes.size() / D, nf = m.faces.size();
  m.neighborDomains.clear(); m.sharedNodes.clear(); m.sharedFaces.clear();
  m.convexHull.facets.resize(1); m.convexHull.facets[0].push_back(0);
  if (pattern == 0) return;
  m.neighborDomains = {1, 4, 7}; m.sharedNodes.resize(3); m.sharedFaces.resize(3);
  for (unsigned i = 0; i < nn; ++i) m.sharedNodes[0].push_back(nn - 1 - i);
  for (unsigned i = 0; i < nf; ++i) m.sharedFaces[0].push_back((i * 2) % nf + (nf % 2 == 0 && i >= nf / 2 ? 1 : 0));
  for (unsigned i = 0; i < nn; i += 2) m.sharedNodes[1].push_back(i);
  for (unsigned i = 1; i < nf; i += 3) m.sharedFaces[1].push_back(i);
}
// hexahedral lattice
static void hexMesh(int nx, int ny, int nz, M<3>& m) {
  auto N = [&](int i, int j, int k) { return (unsigned)(i + (nx + 1) * (j + (ny + 1) * k)); };
  for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { m.nodes.push_back(i * 1.5); m.nodes.push_back(j + 0.1 * k); m.nodes.push_back(k * 2); }
  map<set<unsigned>, int> id; m.cells.resize(nx * ny * nz);
  int c = 0;
  for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i, ++c) {
    vector<vector<unsigned>> fs = {
      {N(i,j,k), N(i,j+1,k), N(i+1,j+1,k), N(i+1,j,k)}, {N(i,j,k+1), N(i+1,j,k+1), N(i+1,j+1,k+1), N(i,j+1,k+1)},
      {N(i,j,k), N(i+1,j,k), N(i+1,j,k+1), N(i,j,k+1)}, {N(i,j+1,k), N(i,j+1,k+1), N(i+1,j+1,k+1), N(i+1,j+1,k)},
      {N(i,j,k), N(i,j,k+1), N(i,j+1,k+1), N(i,j+1,k)}, {N(i+1,j,k), N(i+1,j+1,k), N(i+1,j+1,k+1), N(i+1,j,k+1)}};
    for (auto& f : fs) {
      set<unsigned> key(f.begin(), f.end());
      auto it = id.find(key);
      if (it == id.end()) { id[key] = m.faces.size(); m.cells[c].push_back(m.faces.size()); m.faces.push_back(f); m.faceCells.push_back({c}); }
      else { m.cells[c].push_back(~it->second); m.faceCells[it->second].push_back(~c); }
    }
  }
  set<unsigned> bn;
  for (unsigned f = 0; f < m.faces.size(); ++f) if (m.faceCells[f].size() == 1) { m.boundaryFaces.push_back(f); bn.insert(m.faces[f].begin(), m.faces[f].end()); }
  m.boundaryNodes.assign(bn.begin(), bn.end());
}
template <int D> static uint64_t topo(const M<D>& m) {
  uint64_t h = D;
  for (auto& c : m.cells) { h = mc::mix(h, c.size()); for (int f : c) h = mc::mix(h, f); }
  for (auto& f : m.faces) for (auto n : f) h = mc::mix(h, n);
  for (double x : m.nodes) h = mc::mix(h, (uint64_t)(int64_t)llround(x * 1e6));
  return h;
}
// ---- P09 --------------------------------------------------------------------
// A history: successive deletions, each by one of the two public routes.
template <int D> static void deleteOnce(M<D>& m, const vector<unsigned>& keep, int api, MeshEditor<D, double>* ed, bool rev) {
  R.transitions++;
  if (api == 0) { deleteCells(m, keep); return; }
  vector<unsigned> del; for (unsigned c = 0; c < keep.size(); ++c) if (!keep[c]) del.push_back(c);
  if (rev) reverse(del.begin(), del.end());
  if (ed) ed->deleteCells(del); else { MeshEditor<D, double> e(m); e.deleteCells(del); }
}
// All histories of <= depth deletions starting from mesh o.
template <int D> static void histories(const string& id0, const M<D>& o, int depth, int maxn) {
  const int n = o.cells.size();
  if (n > maxn) return;
  for (int pattern = 0; pattern < 2; ++pattern) for (unsigned del = 1; del + 1 < (1u << n); ++del) {
    string id = fmt("%s:%d:%x", id0.c_str(), pattern, del);
    if (!R.begin(id)) continue;
    R.describe(id + fmt(" (%d cells)", n));
    vector<unsigned> keep(n); int left = 0; for (int c = 0; c < n; ++c) left += keep[c] = !(del >> c & 1);
    for (int api = 0; api < 2; ++api) {
      M<D> a; copyMesh<D>(o, a); addShared<D>(a, pattern); M<D> b; copyMesh<D>(a, b);
      MeshEditor<D, double> ed(b);
      deleteOnce<D>(b, keep, api, &ed, false);
      string s = induced<D>(a, keep, b); R.comparisons++;
      if (!s.empty()) { R.fail(fmt("%s, deleting cells %x: ", api ? "MeshEditor::deleteCells" : "deleteCells", del) + s); break; }
      R.seen(topo<D>(b)); R.nontrivial++;
      if (api == 1 && left < n - 1) {                     // the order of the indices does not matter
        M<D> c; copyMesh<D>(a, c); deleteOnce<D>(c, keep, 1, nullptr, true); R.comparisons++;
        s = induced<D>(a, keep, c);
        if (!s.empty()) { R.fail(fmt("MeshEditor::deleteCells with the indices in descending order, cells %x: ", del) + s); break; }
      }
      // keep everything: nothing may change
      { M<D> c; copyMesh<D>(b, c); deleteCells(c, vector<unsigned>(left, 1u)); R.transitions++; R.comparisons++; if (c.cells != b.cells || c.nodes != b.nodes || c.faces != b.faces || c.faceCells != b.faceCells) { R.fail("deleting no cell changed the mesh"); break; } }
      if (depth > 1) for (unsigned d2 = 1; d2 + 1 < (1u << left); ++d2) for (int api2 = 0; api2 < 2; ++api2) {
        vector<unsigned> k2(left); for (int c = 0; c < left; ++c) k2[c] = !(d2 >> c & 1);
        M<D> c, e; copyMesh<D>(b, c); copyMesh<D>(b, e);
        if (api == 1 && api2 == 1) {                       // one editor for both steps
          copyMesh<D>(a, c); MeshEditor<D, double> ed2(c); deleteOnce<D>(c, keep, 1, &ed2, false); deleteOnce<D>(c, k2, 1, &ed2, false);
        } else deleteOnce<D>(c, k2, api2, nullptr, false);
        string s = induced<D>(e, k2, c); R.comparisons++;
        if (!s.empty()) { R.fail(fmt("second deletion %x (route %d) after %x (route %d): ", d2, api2, del, api) + s); break; }
        R.seen(topo<D>(c));
      }
      if (R.failedThis) break;
    }
    R.end();
  }
}
// ---- P10: cleanEdges -----------------------------------------------------------
static double dist2(const M<2>& m, unsigned a, unsigned b) { return hypot(m.nodes[2*a] - m.nodes[2*b], m.nodes[2*a+1] - m.nodes[2*b+1]); }
// Facts about a mesh that decide what cleanEdges(tol) must and must not do.
struct Short {
  vector<char> corner, border, isShort;   // per node, node, face
  bool ok = true;                          // preconditions hold
  bool any = false;
};
static Short analyse(const M<2>& m, double tol) {
  Short s; const size_t nn = m.nodes.size() / 2, nf = m.faces.size();
  s.corner.assign(nn, 0); s.border.assign(nn, 0); s.isShort.assign(nf, 0);
  vector<vector<unsigned>> bf(nn);
  for (size_t f = 0; f < nf; ++f) if (m.faceCells[f].size() == 1) for (auto n : m.faces[f]) { s.border[n] = 1; bf[n].push_back(f); }
  for (size_t n = 0; n < nn; ++n) if (s.border[n]) {
    if (bf[n].size() != 2) { s.ok = false; return s; }
    double v[2][2], l[2];
    for (int k = 0; k < 2; ++k) { auto& f = m.faces[bf[n][k]]; unsigned o = f[0] == n ? f[1] : f[0]; v[k][0] = m.nodes[2*o] - m.nodes[2*n]; v[k][1] = m.nodes[2*o+1] - m.nodes[2*n+1]; l[k] = hypot(v[k][0], v[k][1]); }
    double si = fabs(v[0][0] * v[1][1] - v[0][1] * v[1][0]) / (l[0] * l[1]);
    if (si > 1e-2) { s.corner[n] = 1; if (l[0] < 1e-3 || l[1] < 1e-3) s.ok = false; }
    else if (si > 1e-7) s.ok = false;
  }
  vector<double> mx(nf, 0);
  for (auto& c : m.cells) { double x = 0; for (int f : c) x = max(x, dist2(m, m.faces[pos(f)][0], m.faces[pos(f)][1])); for (int f : c) mx[pos(f)] = max(mx[pos(f)], x); }
  for (size_t f = 0; f < nf; ++f) {
    unsigned a = m.faces[f][0], b = m.faces[f][1]; double l = dist2(m, a, b);
    if (fabs(l - tol * mx[f]) < 1e-9 * mx[f]) s.ok = false;       // too close to call
    s.isShort[f] = l < tol * mx[f] && !s.corner[a] && !s.corner[b];
    s.any |= s.isShort[f];
    // a chord between two boundary nodes: collapsing it pinches the mesh
    if (s.isShort[f] && m.faceCells[f].size() == 2 && s.border[a] && s.border[b]) { s.ok = false; }
  }
  // enough long edges in every cell
  for (auto& c : m.cells) { int l = 0; for (int f : c) l += !s.isShort[pos(f)]; if (l < 3) s.ok = false; }
  return s;
}
// What one cleanEdges(tol) turned `o` into `m`.
static string cleaned(const M<2>& o, double tol, const Short& s, const M<2>& m) {
  const size_t nn = o.nodes.size() / 2;
  if (m.cells.size() != o.cells.size()) return fmt("%zu cells instead of %zu", m.cells.size(), o.cells.size());
  string e = valid<2>(m); if (!e.empty()) return e;
  map<Pt, unsigned> newOf; for (unsigned n = 0; n < m.nodes.size() / 2; ++n) newOf[at<2>(m, n)] = n;
  vector<int> to(nn, -1); size_t surv = 0;
  for (unsigned n = 0; n < nn; ++n) { auto it = newOf.find(at<2>(o, n)); if (it != newOf.end()) { to[n] = it->second; ++surv; } }
  if (surv != m.nodes.size() / 2) return "a node sits where no node was before";
  vector<vector<unsigned>> cand(nn); vector<unsigned> gone;
  for (unsigned f = 0; f < o.faces.size(); ++f) if (s.isShort[f]) for (int k = 0; k < 2; ++k) { unsigned a = o.faces[f][k], b = o.faces[f][1 - k]; if (to[a] < 0 && to[b] >= 0) cand[a].push_back(b); }
  for (unsigned n = 0; n < nn; ++n) if (to[n] < 0) {
    if (s.corner[n]) return fmt("the boundary corner (%g,%g) was removed", o.nodes[2*n], o.nodes[2*n+1]);
    if (cand[n].empty()) return fmt("node %u was removed though no edge shorter than the tolerance joins it to a remaining node", n);
    gone.push_back(n);
  }
  // Find the collapse partners: every new cell must be the old loop with removed nodes replaced.
  vector<vector<unsigned>> oldRing, newRing;
  for (auto& c : o.cells) oldRing.push_back(mchk::ringIds(o, c));
  for (auto& c : m.cells) newRing.push_back(mchk::ringIds(m, c));
  vector<unsigned> part(nn, 0);
  auto cellOK = [&](size_t c) {
    vector<unsigned> v;
    for (auto n : oldRing[c]) { unsigned t = to[n] >= 0 ? to[n] : to[part[n]]; if (v.empty() || v.back() != t) v.push_back(t); }
    while (v.size() > 1 && v.front() == v.back()) v.pop_back();
    if (v.size() != newRing[c].size()) return false;
    for (size_t r = 0; r < v.size(); ++r) { rotate(v.begin(), v.begin() + 1, v.end()); if (v == newRing[c]) return true; }
    return false;
  };
  auto nodeCells = vector<vector<unsigned>>(nn);
  for (unsigned c = 0; c < oldRing.size(); ++c) for (auto n : oldRing[c]) nodeCells[n].push_back(c);
  long budget = 200000;
  function<bool(size_t)> rec = [&](size_t k) {
    if (--budget < 0) return true;
    if (k == gone.size()) { for (size_t c = 0; c < oldRing.size(); ++c) if (!cellOK(c)) return false; return true; }
    for (unsigned p : cand[gone[k]]) {
      part[gone[k]] = p;
      bool bad = false;                                    // prune on cells whose removed nodes are all assigned
      for (unsigned c : nodeCells[gone[k]]) {
        bool full = true; for (auto n : oldRing[c]) if (to[n] < 0 && n > gone[k]) full = false;
        if (full && !cellOK(c)) { bad = true; break; }
      }
      if (!bad && rec(k + 1)) return true;
    }
    return false;
  };
  if (!rec(0)) return "the cells are not the former cells with short edges collapsed";
  if (budget < 0) R.count("partner_search_gave_up");
  vector<char> touched(nn, 0);
  for (auto n : gone) {
    touched[n] = touched[part[n]] = 1;
    if (s.border[n] && !s.border[part[n]]) return fmt("boundary node (%g,%g) was collapsed onto an interior node", o.nodes[2*n], o.nodes[2*n+1]);
  }
  for (unsigned f = 0; f < o.faces.size(); ++f) if (s.isShort[f] && !touched[o.faces[f][0]] && !touched[o.faces[f][1]])
    return fmt("edge (%g,%g)-(%g,%g) is shorter than the tolerance and was left though nothing next to it was collapsed", o.nodes[2*o.faces[f][0]], o.nodes[2*o.faces[f][0]+1], o.nodes[2*o.faces[f][1]], o.nodes[2*o.faces[f][1]+1]);
  long double A = 0, B = 0;
  for (size_t c = 0; c < o.cells.size(); ++c) { A += orc::areaRel(mchk::ring(o, c)); B += orc::areaRel(mchk::ring(m, c)); }
  if (fabsl(A - B) > 1e-7L * fabsl(A)) return fmt("total area changed from %Lg to %Lg", A, B);
  e = boundaryLists<2>(m); if (!e.empty()) return e;
  // shared lists keep the surviving entities in order
  if (m.sharedNodes.size() != o.sharedNodes.size() || m.sharedFaces.size() != o.sharedFaces.size()) return "neighbor domains changed";
  for (size_t d = 0; d < o.sharedNodes.size(); ++d) {
    vector<unsigned> w; for (auto n : o.sharedNodes[d]) if (to[n] >= 0) w.push_back(to[n]);
    if (w != m.sharedNodes[d]) return fmt("shared nodes with neighbor %zu are not the surviving ones in order", d);
    map<set<unsigned>, unsigned> nf; for (unsigned f = 0; f < m.faces.size(); ++f) nf[set<unsigned>(m.faces[f].begin(), m.faces[f].end())] = f;
    w.clear();
    for (auto f : o.sharedFaces[d]) {
      set<unsigned> k; for (auto n : o.faces[f]) k.insert(to[n] >= 0 ? to[n] : to[part[n]]);
      if (k.size() == 2) { auto it = nf.find(k); if (it == nf.end()) return "an edge that was not collapsed disappeared"; w.push_back(it->second); }
    }
    if (w != m.sharedFaces[d]) return fmt("shared faces with neighbor %zu are not the surviving ones in order", d);
  }
  return "";
}
static void cleanHistory(const string& id, const M<2>& o, const vector<double>& tols, int pattern) {
  if (!R.begin(id)) return;
  R.describe(id + fmt(" %zu cells, tolerances %s", o.cells.size(), mc::join(tols).c_str()));
  M<2> a; copyMesh<2>(o, a); addShared<2>(a, pattern);
  MeshEditor<2, double> ed(a);
  int steps = 0;
  for (double tol : tols) {
    for (int rep = 0; rep < 30; ++rep) {
      Short s = analyse(a, tol);
      if (!s.ok) { R.count("outside_preconditions"); goto done; }
      M<2> before; copyMesh<2>(a, before);
      ed.cleanEdges(tol); R.transitions++; R.comparisons++; ++steps;
      if (!s.any) {
        if (a.nodes != before.nodes || a.cells != before.cells || a.faces != before.faces || a.faceCells != before.faceCells || a.boundaryNodes != before.boundaryNodes || a.boundaryFaces != before.boundaryFaces || a.sharedNodes != before.sharedNodes || a.sharedFaces != before.sharedFaces)
          R.fail(fmt("no edge is shorter than %g times the longest edge around it, but the mesh changed", tol));
        break;
      }
      string e = cleaned(before, tol, s, a);
      if (!e.empty()) { if (R.verbose) cerr << mchk::dump(before) << mchk::dump(a); R.fail(fmt("step %d, tolerance %g: ", steps, tol) + e); goto done; }
      R.seen(topo<2>(a)); R.nontrivial++;
    }
    if (R.failedThis) break;
  }
  if (R.executed % 500 == 1) R.sample(R.curDesc + fmt(": %zu -> %zu nodes in %d calls", o.nodes.size() / 2, a.nodes.size() / 2, steps));
done:
  R.end();
}
// ---- P11 -----------------------------------------------------------------------
template <int D> static string queries(M<D>& m) {
  vector<set<unsigned>> nc(m.nodes.size() / D), cn(m.cells.size());
  for (unsigned c = 0; c < m.cells.size(); ++c) for (int f : m.cells[c]) for (auto n : m.faces[pos(f)]) { nc[n].insert(c); cn[c].insert(n); }
  R.transitions += 3; R.comparisons += 3;
  if (m.computeNodeCells() != nc) return "the cells reported around the nodes are wrong";
  if (m.computeCellToNodes() != cn) return "the nodes reported for the cells are wrong";
  vector<unsigned> bf = {77, 78}, bn = {99};
  findBoundaryElements(m, bf, bn);
  set<unsigned> wf, wn;
  for (unsigned f = 0; f < m.faces.size(); ++f) { int k = 0; for (auto& c : m.cells) for (int g : c) k += pos(g) == f; if (k == 1) { wf.insert(f); wn.insert(m.faces[f].begin(), m.faces[f].end()); } }
  if (set<unsigned>(bf.begin(), bf.end()) != wf || bf.size() != wf.size()) return "the boundary faces found are not the faces of exactly one cell";
  if (set<unsigned>(bn.begin(), bn.end()) != wn || bn.size() != wn.size()) return "the boundary nodes found are not the nodes of the boundary faces";
  return "";
}
template <int D> static void queryCases(const string& id0, const M<D>& o, int maxn) {
  const int n = o.cells.size();
  if (n > maxn) return;
  for (unsigned del = 0; del + 1 < (1u << n); ++del) {
    string id = fmt("%s:%x", id0.c_str(), del);
    if (!R.begin(id)) continue;
    M<D> b; copyMesh<D>(o, b);
    // an independent deletion, so that this does not depend on P09
    vector<vector<int>> cells; for (int c = 0; c < n; ++c) if (!(del >> c & 1)) cells.push_back(o.cells[c]);
    map<unsigned, int> fm, nm; b.cells.clear(); b.faces.clear(); b.faceCells.clear(); b.nodes.clear(); b.boundaryFaces.clear(); b.boundaryNodes.clear();
    for (auto& c : cells) { b.cells.push_back({}); for (int f : c) {
      if (!fm.count(pos(f))) { fm[pos(f)] = b.faces.size(); b.faces.push_back({}); b.faceCells.push_back({}); for (auto k : o.faces[pos(f)]) { if (!nm.count(k)) { nm[k] = b.nodes.size() / D; for (int d = 0; d < D; ++d) b.nodes.push_back(o.nodes[D * k + d]); } b.faces.back().push_back(nm[k]); } }
      int g = fm[pos(f)], ci = b.cells.size() - 1; b.cells.back().push_back(f < 0 ? ~g : g); b.faceCells[g].push_back(f < 0 ? ~ci : ci); } }
    string s = queries<D>(b);
    if (!s.empty()) R.fail(s);
    R.seen(topo<D>(b)); R.nontrivial += del != 0;
    R.end();
  }
}
template <class I> static void removeCases(const char* name, int maxn) {
  for (int n = 0; n <= maxn; ++n) for (unsigned s = 0; s < (1u << n); ++s) {
    string id = fmt("remove:%s:%d:%x", name, n, s);
    if (!R.begin(id)) continue;
    vector<string> v, w; vector<I> e; vector<int> map;
    for (int i = 0; i < n; ++i) { v.push_back(fmt("e%d", i)); if (s >> i & 1) { e.push_back(i); map.push_back(-1); } else { map.push_back(w.size()); w.push_back(v.back()); } }
    auto got = internal::removeElements(v, e); R.transitions++; R.comparisons += 2;
    if (v != w) R.fail(fmt("removing elements %x of %d leaves (%s)", s, n, mc::join(v).c_str()));
    else if (got != map) R.fail(fmt("removing elements %x of %d: index map (%s) instead of (%s)", s, n, mc::join(got).c_str(), mc::join(map).c_str()));
    R.seen(mc::mix(mc::mix(3, n), s)); R.nontrivial += s != 0;
    R.end();
  }
}
// ---- mesh sources ------------------------------------------------------------------
// All subsets of lattice variants of the shapes; meshes come from the tessellator.
static void forMeshes(int maxn, const vector<string>& shapes, const vector<int>& variants, function<void(const string&, const cs::Case&, M<2>&)> f) {
  for (auto& sh : cs::shapes()) if (find(shapes.begin(), shapes.end(), sh.name) != shapes.end()) for (int v : variants) {
    auto cand = cs::candidates(sh.d, v);
    for (int n = 2; n <= maxn; ++n) { int k = 0; mc::subsets(cand.size(), n, [&](const vector<int>& s) {
      if (n > 3 && (k++ % (n == 4 ? 11 : 101))) return;
      cs::Case c; c.id = fmt("%s:%d:%s", sh.name.c_str(), v, mc::join(s).c_str()); c.dom = sh.d; for (int i : s) c.gen.push_back({(long double)(double)cand[i].x, (long double)(double)cand[i].y}); c.finish();
      if (!c.generalPosition()) return;
      M<2> m; BT t; t.tessellate(c.pts, c.plcpts, c.plc, m);
      if (!valid<2>(m).empty()) return;        // P01's concern
      f(c.id, c, m);
    }); }
  }
}
// Jittered lattices: every assignment of one of J offsets to each generator.
static void forJitter(int nx, int ny, int J, const vector<double>& deltas, const char* shape, function<void(const string&, M<2>&)> f) {
  static const double off[4][2] = {{0, 0}, {1, 0.35}, {-0.45, 0.8}, {0.2, -1}};
  const orc::Domain& d = cs::shape(shape).d;
  for (double del : deltas) mc::tuples(nx * ny, J, [&](const vector<int>& t) {
    cs::Case c; c.dom = d;
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { int k = t[j * nx + i]; c.gen.push_back({(long double)(double)(12.0 * (i + 0.5) / nx + del * off[k][0]), (long double)(double)(12.0 * (j + 0.5) / ny + del * off[k][1])}); }
    c.finish();
    M<2> m; BT b; b.tessellate(c.pts, c.plcpts, c.plc, m);
    if (!valid<2>(m).empty()) return;
    f(fmt("jit%dx%d:%s:%g:%s", nx, ny, shape, del, mc::join(t, "").c_str()), m);
  });
}
int main(int argc, char** argv) {
  R.parse(argc, argv);
  const string P = R.prop; const bool T = R.thorough();
  mc::Quiet quiet(!R.verbose);
  if (P == "P09") {
    forMeshes(T ? 5 : 4, {"box", "L", "hole", "star", "hex"}, T ? vector<int>{0, 1, 2} : vector<int>{1}, [&](const string& id, const cs::Case& c, M<2>& m) {
      histories<2>(id, m, 2, 5);
      if (id.compare(0, 4, "box:") == 0) { M<2> u; BT t; t.tessellate(c.pts, u); if (valid<2>(u).empty()) histories<2>("unb" + id, u, 1, 4); }
    });
    // all subsets of the cells of 3 x 3 lattices, and two-step histories on 3 x 2
    forJitter(3, 3, 1, {0}, "box", [&](const string& id, M<2>& m) { histories<2>(id, m, T ? 2 : 1, 9); });
    forJitter(3, 2, 2, {0.8}, "box", [&](const string& id, M<2>& m) { histories<2>(id, m, T ? 2 : 1, 6); });
    for (auto d : vector<vector<int>>{{2,1,1}, {3,1,1}, {2,2,1}, {3,2,1}, {2,2,2}}) { M<3> m; hexMesh(d[0], d[1], d[2], m); if (!valid<3>(m).empty()) abort(); histories<3>(fmt("hex:%d%d%d", d[0], d[1], d[2]), m, d[0] * d[1] * d[2] <= (T ? 8 : 6) ? 2 : 1, 8); }
  } else if (P == "P10") {
    const vector<vector<double>> tols = T ? vector<vector<double>>{{1e-5}, {1e-3}, {0.02}, {0.1}, {0.25}, {0.45}, {1e-3, 0.02, 0.1, 0.3}, {0.3, 0.1}} : vector<vector<double>>{{1e-3}, {0.05}, {0.25}, {1e-3, 0.02, 0.1, 0.3}};
    auto all = [&](const string& id, M<2>& m) { int k = 0; for (auto& t : tols) { cleanHistory(fmt("%s:%d", id.c_str(), k), m, t, k % 2); ++k; } };
    forJitter(3, 3, 2, {1e-4, 1e-2, 0.2, 0.7}, "box", all);
    forJitter(2, 2, 4, {1e-4, 1e-2, 0.2, 0.7}, "hex", all);
    forJitter(4, 2, T ? 3 : 2, {1e-2, 0.3}, "box", all);
    if (T) { forJitter(3, 3, 3, {0.05, 0.5}, "box", all); forJitter(4, 3, 2, {1e-3, 0.1, 0.6}, "box", all); }
    forMeshes(T ? 5 : 4, {"box", "L", "hole", "star", "hex", "tri"}, T ? vector<int>{0, 1, 2} : vector<int>{1, 2}, [&](const string& id, const cs::Case& c, M<2>& m) { all(id, m); });
  } else if (P == "P11") {
    removeCases<unsigned>("u", T ? 14 : 10); removeCases<int>("i", T ? 14 : 10); removeCases<size_t>("s", T ? 12 : 8);
    forMeshes(T ? 5 : 4, {"box", "L", "hole", "star", "hex"}, T ? vector<int>{0, 1, 2} : vector<int>{1, 2}, [&](const string& id, const cs::Case& c, M<2>& m) {
      queryCases<2>(id, m, 5);
      if (id.compare(0, 4, "box:") == 0) { M<2> u; BT t; t.tessellate(c.pts, u); if (valid<2>(u).empty()) queryCases<2>("unb" + id, u, 4); }
    });
    forJitter(3, 3, 1, {0}, "box", [&](const string& id, M<2>& m) { queryCases<2>(id, m, 9); });
    if (T) forJitter(4, 3, 1, {0}, "hex", [&](const string& id, M<2>& m) { queryCases<2>(id, m, 12); });
    for (auto d : vector<vector<int>>{{1,1,1}, {2,1,1}, {3,1,1}, {2,2,1}, {3,2,1}, {2,2,2}}) { M<3> m; hexMesh(d[0], d[1], d[2], m); queryCases<3>(fmt("hex:%d%d%d", d[0], d[1], d[2]), m, 8); }
  } else return 2;
  return R.finish();
}
