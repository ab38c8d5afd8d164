// Reading one domain of a Silo file back and comparing it with the mesh, fields and tags.
#pragma once
#include <silo.h>
#include <float.h>
#include <cstring>
#include "Tessellation.hh"
using namespace polytope; using namespace std;
typedef Tessellation<2, double> M2; typedef Tessellation<3, double> M3;
typedef vector<int> Tag;
struct Fields { map<string, vector<double>> f[4]; map<string, Tag> t[4]; };   // node, edge, face, cell
static const char* TAGS[4] = {"node_tags", "edge_tags", "face_tags", "cell_tags"};
static const int CENT[4] = {DB_NODECENT, DB_EDGECENT, DB_FACECENT, DB_ZONECENT};
struct Write { int cycle; double time; int base; int fm, tm; };
// ---- reading back ----------------------------------------------------------
static string stem(string p) { size_t i = p.find(".silo"); return i == string::npos ? p : p.substr(0, i); }
struct File { DBfile* f; File(const string& n): f(DBOpen(n.c_str(), DB_HDF5, DB_READ)) {} ~File() { if (f) DBClose(f); } };
static vector<int> ints(const int* p, int n) { return vector<int>(p, p + n); }
template <int D> static string zones(DBfile* f, const Tessellation<D, double>& m);
template <> string zones<2>(DBfile* f, const M2& m) {
  unique_ptr<DBzonelist, void (*)(DBzonelist*)> z(DBGetZonelist(f, "mesh_zonelist"), DBFreeZonelist);
  if (!z) return "there is no zone list";
  if (z->nzones != (int)m.cells.size()) return "the number of zones is wrong";
  int p = 0;
  for (size_t c = 0; c < m.cells.size(); ++c) {
    if (p >= z->lnodelist) return "the zone list is too short";
    vector<int> want; for (int q : m.cells[c]) want.push_back(q >= 0 ? m.faces[q][0] : m.faces[~q][1]);
    int n = z->nodelist[p++];
    if (n < 1 || p + n > z->lnodelist) return "the zone list is broken";
    vector<int> got = ints(z->nodelist + p, n); p += n;
    if (got.size() == want.size() + 1 && got.back() == got.front()) got.pop_back();
    // any starting node will do
    bool same = false;
    for (size_t s = 0; s < got.size() && !same; ++s) { rotate(got.begin(), got.begin() + 1, got.end()); same = got == want; }
    if (!same) return mc::fmt("zone %zu has nodes %s instead of %s", c, mc::join(got).c_str(), mc::join(want).c_str());
  }
  if (p != z->lnodelist) return "the zone list is too long";
  unique_ptr<DBfacelist, void (*)(DBfacelist*)> l(DBGetFacelist(f, "boundary_faces"), DBFreeFacelist);
  if (m.boundaryFaces.empty()) return "";
  if (!l) return "there is no list of boundary faces";
  set<vector<int>> want, got; for (unsigned q : m.boundaryFaces) want.insert({int(min(m.faces[q][0], m.faces[q][1])), int(max(m.faces[q][0], m.faces[q][1]))});
  if (l->lnodelist != 2*(int)m.boundaryFaces.size() || l->nfaces != (int)m.boundaryFaces.size()) return "the number of boundary faces is wrong";
  for (int i = 0; i < l->nfaces; ++i) got.insert({min(l->nodelist[2*i], l->nodelist[2*i+1]), max(l->nodelist[2*i], l->nodelist[2*i+1])});
  return got == want ? "" : "the boundary faces are wrong";
}
template <> string zones<3>(DBfile* f, const M3& m) {
  unique_ptr<DBphzonelist, void (*)(DBphzonelist*)> z(DBGetPHZonelist(f, "mesh_zonelist"), DBFreePHZonelist);
  if (!z) return "there is no polyhedral zone list";
  vector<int> nc, fc, cc, cf;
  for (auto& q : m.faces) { nc.push_back(q.size()); fc.insert(fc.end(), q.begin(), q.end()); }
  for (auto& q : m.cells) { cc.push_back(q.size()); cf.insert(cf.end(), q.begin(), q.end()); }
  if (z->nfaces != (int)nc.size() || ints(z->nodecnt, z->nfaces) != nc) return "the node counts of the faces are wrong";
  if (z->lnodelist != (int)fc.size() || ints(z->nodelist, z->lnodelist) != fc) return "the nodes of the faces are wrong";
  if (z->nzones != (int)cc.size() || ints(z->facecnt, z->nzones) != cc) return "the face counts of the cells are wrong";
  if (z->lfacelist != (int)cf.size() || ints(z->facelist, z->lfacelist) != cf) return "the faces of the cells are wrong";
  if (z->lo_offset != 0 || z->hi_offset != z->nzones - 1) return "the zone offsets hide cells";
  if (!z->extface) return "the exterior faces are not marked";
  for (size_t i = 0; i < nc.size(); ++i) if ((z->extface[i] != 0) != (find(m.boundaryFaces.begin(), m.boundaryFaces.end(), i) != m.boundaryFaces.end())) return "the exterior faces are marked wrongly";
  return "";
}
static string compound(DBfile* f, const char* name, vector<pair<string, vector<int>>>& out) {
  unique_ptr<DBcompoundarray, void (*)(DBcompoundarray*)> c(DBGetCompoundarray(f, name), DBFreeCompoundarray);
  out.clear();
  if (!c) return mc::fmt("array %s is missing", name);
  int p = 0; const int* v = (const int*)c->values;
  for (int i = 0; i < c->nelems; ++i) {
    if (c->elemlengths[i] < 0 || p + c->elemlengths[i] > c->nvalues) return mc::fmt("the element lengths of array %s do not fit", name);
    out.push_back({c->elemnames[i], ints(v + p, c->elemlengths[i])}); p += c->elemlengths[i];
  }
  return p == c->nvalues ? "" : mc::fmt("array %s has %d values, its elements %d", name, c->nvalues, p);
}
template <int D> static string domain(DBfile* f, const Tessellation<D, double>& m, const Fields& F, const Write& w) {
  unique_ptr<DBucdmesh, void (*)(DBucdmesh*)> u(DBGetUcdmesh(f, "mesh"), DBFreeUcdmesh);
  if (!u) return "there is no mesh";
  const int nn = m.nodes.size()/D, nf = m.faces.size(), nc = m.cells.size();
  if (u->ndims != D || u->nnodes != nn) return mc::fmt("the mesh has %d nodes in %d dimensions instead of %d", u->nnodes, u->ndims, nn);
  for (int d = 0; d < D; ++d) for (int i = 0; i < nn; ++i) if (((double**)u->coords)[d][i] != m.nodes[D*i + d]) return mc::fmt("coordinate %d of node %d is wrong", d, i);
  if (w.cycle >= 0 && u->cycle != w.cycle) return mc::fmt("cycle is %d", u->cycle);
  if (w.time != -FLT_MAX && u->dtime != w.time) return mc::fmt("time is %g", u->dtime);
  string e = zones<D>(f, m); if (!e.empty()) return e;
  vector<pair<string, vector<int>>> a;
  e = compound(f, "conn", a); if (!e.empty()) return e;
  map<string, vector<int>> am(a.begin(), a.end());
  vector<int> ncf, cf; for (auto& c : m.cells) { ncf.push_back(c.size()); for (int q : c) cf.push_back(D == 3 ? (q < 0 ? ~q : q) : q); }
  if (am["ncellfaces"] != ncf) return "the array of face counts is wrong";
  vector<int> gcf = am["cellfaces"]; if (D == 3) for (int& q : gcf) if (q < 0) q = ~q;
  if (gcf != cf) return "the array of cell faces is wrong";
  auto& fc = am["facecells"];
  if ((int)fc.size() != 2*nf) return mc::fmt("the array of face cells has %zu entries for %d faces", fc.size(), nf);
  for (int q = 0; q < nf; ++q) {
    auto& x = m.faceCells[q];
    const bool ok = fc[2*q] == x[0] && (x.size() == 2 ? fc[2*q + 1] == x[1] : fc[2*q + 1] == -1 || fc[2*q + 1] == x[0]);
    if (!ok) return mc::fmt("the cells of face %d are (%d,%d) instead of (%s)", q, fc[2*q], fc[2*q + 1], mc::join(x).c_str());
  }
  if (!m.convexHull.facets.empty()) {
    e = compound(f, "convexhull", a); if (!e.empty()) return e;
    map<string, vector<int>> h(a.begin(), a.end()); vector<int> k, v;
    for (auto& q : m.convexHull.facets) { k.push_back(q.size()); v.insert(v.end(), q.begin(), q.end()); }
    if (h["nfacets"] != vector<int>(1, k.size()) || h["nfacetnodes"] != k || h["facetnodes"] != v) return "the convex hull is wrong";
  }
  for (int c = 0; c < 4; ++c) {
    if (!F.t[c].empty()) {
      e = compound(f, TAGS[c], a); if (!e.empty()) return e;
      map<string, Tag> got(a.begin(), a.end());
      if (a.size() != F.t[c].size()) return mc::fmt("%zu %s instead of %zu", a.size(), TAGS[c], F.t[c].size());
      for (auto& t : F.t[c]) { if (!got.count(t.first)) return mc::fmt("%s does not name tag %s", TAGS[c], t.first.c_str()); if (got[t.first] != t.second) return mc::fmt("tag %s has values %s", t.first.c_str(), mc::join(got[t.first]).c_str()); }
    }
    for (auto& x : F.f[c]) {
      unique_ptr<DBucdvar, void (*)(DBucdvar*)> v(DBGetUcdvar(f, x.first.c_str()), DBFreeUcdvar);
      if (!v) return "field " + x.first + " is missing";
      if (v->centering != CENT[c]) return "field " + x.first + " has another centering";
      if (v->nels != (int)x.second.size() || v->nvals != 1 || v->datatype != DB_DOUBLE) return "field " + x.first + " has another size";
      if (memcmp(v->vals[0], &x.second[0], 8*x.second.size())) return "field " + x.first + " has other values";
      if (!v->meshname || string(v->meshname) != "mesh") return "field " + x.first + " is not on the mesh";
      if (w.cycle >= 0 && v->cycle != w.cycle) return "field " + x.first + " has another cycle";
    }
  }
  return "";
}
