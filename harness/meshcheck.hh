// Structural and geometric checks of a polytope::Tessellation<2,double>.
#ifndef VERIF_MESHCHECK_HH
#define VERIF_MESHCHECK_HH
#include "polytope.hh"
#include "mc.hh"
#include "oracle.hh"
namespace mchk {
typedef polytope::Tessellation<2, double> Mesh;
using mc::fmt;
inline unsigned pos(int f) { return f < 0 ? ~f : f; }

inline std::string dump(const Mesh& m) {
  std::ostringstream o; o.precision(12);
  o << "nodes:"; for (size_t i = 0; i < m.nodes.size() / 2; ++i) o << " " << i << "(" << m.nodes[2*i] << "," << m.nodes[2*i+1] << ")";
  o << "\nfaces:"; for (size_t i = 0; i < m.faces.size(); ++i) { o << " " << i << "("; for (auto n : m.faces[i]) o << n << " "; o << "|"; if (i < m.faceCells.size()) for (auto c : m.faceCells[i]) o << " " << c; o << ")"; }
  o << "\ncells:"; for (size_t i = 0; i < m.cells.size(); ++i) { o << " " << i << "("; for (auto f : m.cells[i]) o << f << " "; o << ")"; }
  o << "\nbnodes:"; for (auto n : m.boundaryNodes) o << " " << n;
  o << "\nbfaces:"; for (auto n : m.boundaryFaces) o << " " << n;
  o << "\n";
  return o.str();
}
inline orc::P node(const Mesh& m, unsigned i) { return {m.nodes[2*i], m.nodes[2*i+1]}; }
// Ring of a cell by traversal (start node of each face).
inline std::vector<unsigned> ringIds(const Mesh& m, const std::vector<int>& cell) {
  std::vector<unsigned> r;
  for (int f : cell) r.push_back(f >= 0 ? m.faces[f][0] : m.faces[~f][1]);
  return r;
}
inline orc::Poly ring(const Mesh& m, size_t c) {
  orc::Poly p; for (unsigned n : ringIds(m, m.cells[c])) p.push_back(node(m, n)); return p;
}
struct Opt {
  bool uniqueNodes = true;     // no two nodes at the same coordinates
  bool usedNodes = true;       // every node used by a face
  bool usedFaces = true;       // every face used by a cell
  bool ccw = true;
  bool allowEmptyCells = false;
};
// "" if the mesh is structurally valid.
inline std::string structure(const Mesh& m, Opt o = Opt()) {
  if (m.nodes.size() % 2) return "odd number of node coordinates";
  const size_t nn = m.nodes.size() / 2, nf = m.faces.size(), nc = m.cells.size();
  for (double x : m.nodes) if (!std::isfinite(x)) return "non-finite node coordinate";
  if (m.faceCells.size() != nf) return fmt("faceCells has %zu entries for %zu faces", m.faceCells.size(), nf);
  std::set<std::pair<unsigned, unsigned>> edges;
  std::vector<char> nodeUsed(nn, 0);
  for (size_t f = 0; f < nf; ++f) {
    if (m.faces[f].size() != 2) return fmt("face %zu has %zu nodes", f, m.faces[f].size());
    unsigned a = m.faces[f][0], b = m.faces[f][1];
    if (a >= nn || b >= nn) return fmt("face %zu refers to node out of range (%u,%u of %zu)", f, a, b, nn);
    if (a == b) return fmt("face %zu is degenerate (node %u twice)", f, a);
    if (!edges.insert({std::min(a, b), std::max(a, b)}).second) return fmt("duplicate face on nodes %u,%u", a, b);
    nodeUsed[a] = nodeUsed[b] = 1;
  }
  if (o.usedNodes) for (size_t i = 0; i < nn; ++i) if (!nodeUsed[i]) return fmt("node %zu belongs to no face", i);
  std::vector<std::vector<int>> fc(nf);
  for (size_t c = 0; c < nc; ++c) {
    const auto& cell = m.cells[c];
    if (cell.empty() && o.allowEmptyCells) continue;
    if (cell.size() < 3) return fmt("cell %zu has %zu faces", c, cell.size());
    std::set<unsigned> fs, ns;
    for (size_t k = 0; k < cell.size(); ++k) {
      int f = cell[k];
      if (pos(f) >= nf) return fmt("cell %zu refers to face out of range (%d)", c, f);
      if (!fs.insert(pos(f)).second) return fmt("cell %zu lists face %u twice", c, pos(f));
      int g = cell[(k + 1) % cell.size()];
      if (pos(g) >= nf) return fmt("cell %zu refers to face out of range (%d)", c, g);
      unsigned e = f >= 0 ? m.faces[f][1] : m.faces[~f][0];
      unsigned s = g >= 0 ? m.faces[g][0] : m.faces[~g][1];
      if (e != s) return fmt("cell %zu is not a closed loop: face %d ends at node %u, next face %d starts at %u", c, f, e, g, s);
      if (!ns.insert(s).second) return fmt("cell %zu visits node %u twice", c, s);
      fc[pos(f)].push_back(f >= 0 ? (int)c : ~(int)c);
    }
    if (o.ccw && orc::areaRel(ring(m, c)) <= 0) return fmt("cell %zu is not counterclockwise (area %Lg)", c, orc::areaRel(ring(m, c)));
  }
  for (size_t f = 0; f < nf; ++f) {
    auto a = fc[f], b = m.faceCells[f];
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (a != b) return fmt("faceCells[%zu] = (%s) but the cells using it are (%s)", f, mc::join(b).c_str(), mc::join(a).c_str());
    if (a.empty() && o.usedFaces) return fmt("face %zu belongs to no cell", f);
    if (a.size() > 2) return fmt("face %zu belongs to %zu cells", f, a.size());
    if (a.size() == 2 && (a[0] < 0) == (a[1] < 0)) return fmt("face %zu is used with the same orientation by both its cells", f);
  }
  if (o.uniqueNodes) {
    std::set<std::pair<double, double>> s;
    for (size_t i = 0; i < nn; ++i) if (!s.insert({m.nodes[2*i], m.nodes[2*i+1]}).second) return fmt("node %zu duplicates another node's position", i);
  }
  return "";
}
// Boundary metadata of a bounded or unbounded mesh: boundary faces are exactly
// the faces of one cell, boundary nodes exactly their nodes.
inline std::string boundary(const Mesh& m) {
  std::vector<unsigned> bf, bn;
  std::set<unsigned> ns;
  for (size_t f = 0; f < m.faces.size(); ++f) if (m.faceCells[f].size() == 1) { bf.push_back(f); ns.insert(m.faces[f].begin(), m.faces[f].end()); }
  bn.assign(ns.begin(), ns.end());
  auto gf = m.boundaryFaces, gn = m.boundaryNodes;
  std::sort(gf.begin(), gf.end()); std::sort(gn.begin(), gn.end());
  if (gf != bf) return fmt("boundary faces (%s) are not the single-cell faces (%s)", mc::join(gf).c_str(), mc::join(bf).c_str());
  if (gn != bn) return fmt("boundary nodes (%s) are not the nodes of boundary faces (%s)", mc::join(gn).c_str(), mc::join(bn).c_str());
  return "";
}
// Order-independent fingerprint of a mesh up to tolerance q.
inline uint64_t fingerprint(const Mesh& m, double q) {
  uint64_t h = 17;
  std::vector<uint64_t> hs;
  for (size_t c = 0; c < m.cells.size(); ++c) {
    std::vector<std::pair<long, long>> v;
    for (auto p : ring(m, c)) v.push_back({lroundl(p.x / q), lroundl(p.y / q)});
    std::sort(v.begin(), v.end());
    uint64_t k = 5; for (auto& a : v) { k = mc::mix(k, a.first); k = mc::mix(k, a.second); }
    hs.push_back(k);
  }
  for (auto k : hs) h = mc::mix(h, k);
  return h;
}
} // namespace mchk
#endif
