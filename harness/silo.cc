// Silo output: property P24.  Ranks run as fibers of one process; every baton,
// barrier and file system effect happens in an order the explorer chooses.
// The files are read back with the Silo library itself.
#include "mpi.h"
#include "fmpi.hh"
#include "cases.hh"
#include "SiloWriter.hh"
#include "silocheck.hh"
#include <ftw.h>
#include <sys/stat.h>
#include <dirent.h>
using namespace polytope; using namespace std;
static mc::Run R;
static string scratch;

static int rmOne(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void wipe(const string& d) { if (d.compare(0, scratch.size(), scratch) == 0 && d.size() > scratch.size() + 1) nftw(d.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS); }

// ---- the meshes ------------------------------------------------------------
// 2D: a block of nx x ny quadrilaterals with the bits of 'flip' reversing the storage of faces;
// bit 0 of 'cut' splits the first cell along its diagonal.
static void grid2(M2& m, int nx, int ny, unsigned flip, int cut, double o) {
  for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { m.nodes.push_back(o + i + 0.125*j); m.nodes.push_back(-o + 0.75*j); }
  auto N = [&](int i, int j) { return unsigned(j*(nx + 1) + i); };
  map<pair<unsigned, unsigned>, int> ids;
  auto add = [&](vector<unsigned> loop) {
    const int c = m.cells.size(); m.cells.push_back({});
    for (size_t k = 0; k < loop.size(); ++k) {
      unsigned a = loop[k], b = loop[(k + 1) % loop.size()]; auto key = make_pair(min(a, b), max(a, b));
      auto it = ids.find(key);
      if (it == ids.end()) {
        const int f = m.faces.size(); ids[key] = f; const bool rev = flip >> (f % 8) & 1;
        m.faces.push_back({rev ? b : a, rev ? a : b}); m.faceCells.push_back({rev ? ~c : c}); m.cells[c].push_back(rev ? ~f : f);
      } else {
        const int f = it->second; const bool rev = m.faces[f][0] != a;
        m.faceCells[f].push_back(rev ? ~c : c); m.cells[c].push_back(rev ? ~f : f);
      }
    }
  };
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
    if (cut && !i && !j) { add({N(0, 0), N(1, 0), N(1, 1)}); add({N(0, 0), N(1, 1), N(0, 1)}); }
    else add({N(i, j), N(i + 1, j), N(i + 1, j + 1), N(i, j + 1)});
  }
}
static void grid3(M3& m, int nx, int ny, int nz, unsigned flip, double o) {
  for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { m.nodes.push_back(o + i); m.nodes.push_back(j - o); m.nodes.push_back(0.5*k + 2*o); }
  auto N = [&](int i, int j, int k) { return unsigned((k*(ny + 1) + j)*(nx + 1) + i); };
  map<vector<unsigned>, int> ids;
  for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
    const int c = m.cells.size(); m.cells.push_back({});
    unsigned v[8]; for (int b = 0; b < 8; ++b) v[b] = N(i + (b & 1), j + (b >> 1 & 1), k + (b >> 2));
    const int F[6][4] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
    for (auto& q : F) {
      vector<unsigned> f = {v[q[0]], v[q[1]], v[q[2]], v[q[3]]}, key = f; sort(key.begin(), key.end());
      auto it = ids.find(key);
      if (it == ids.end()) {
        const int id = m.faces.size(); ids[key] = id; const bool rev = flip >> (id % 8) & 1;
        if (rev) reverse(f.begin(), f.end());
        m.faces.push_back(f); m.faceCells.push_back({rev ? ~c : c}); m.cells[c].push_back(rev ? ~id : id);
      } else {
        // the second cell sees the face from the other side
        const int id = it->second; const bool first = m.faceCells[id][0] >= 0;
        m.faceCells[id].push_back(first ? ~c : c); m.cells[c].push_back(first ? ~id : id);
      }
    }
  }
}
template <int D> static void metadata(Tessellation<D, double>& m, int hull) {
  set<unsigned> bn;
  for (size_t f = 0; f < m.faces.size(); ++f) if (m.faceCells[f].size() == 1) { m.boundaryFaces.push_back(f); bn.insert(m.faces[f].begin(), m.faces[f].end()); }
  m.boundaryNodes.assign(bn.begin(), bn.end());
  for (int i = 0; i < hull; ++i) { vector<int> f; for (int k = 0; k < (D == 2 ? 2 : 3 + i % 2); ++k) f.push_back(100*i + 7*k); m.convexHull.facets.push_back(f); }
}
// mesh number i: all are different
static void make(M2& m, int i) { grid2(m, 1 + i % 3, 1 + (i/2) % 2, i*37 + 1, i % 2, 0.25*i); metadata<2>(m, i % 3 ? 2 + i % 3 : 0); }
static void make(M3& m, int i) { grid3(m, 1 + i % 3, 1 + (i/2) % 2, 1 + (i/3) % 2, i*37 + 1, 0.25*i); metadata<3>(m, i % 3 ? 1 + i % 3 : 0); }

// ---- one call of write -----------------------------------------------------
template <int D> static Fields fields(const Tessellation<D, double>& m, int fm, int tm, int salt) {
  Fields r; const size_t n[4] = {m.nodes.size()/D, m.faces.size(), m.faces.size(), m.cells.size()};
  const char* nm[4] = {"n", "e", "f", "c"};
  for (int k = 0; k < 4; ++k) {
    const int nf = fm == 0 ? 0 : fm == 1 ? 1 : fm == 2 ? (k + 1) % 3 : (k == 3);
    for (int a = 0; a < nf; ++a) { auto& v = r.f[k][mc::fmt("%s_field%d", nm[k], a)]; for (size_t i = 0; i < n[k]; ++i) v.push_back(salt + k*1000 + a*100 + i + 0.5); }
    const int nt = tm == 0 ? 0 : tm == 1 ? 1 : tm == 2 ? (k + 2) % 4 : (k == 1 ? 2 : 0);
    for (int a = 0; a < nt; ++a) { auto& v = r.t[k][mc::fmt("%s_tag%d", nm[k], a)]; for (int i = 0; i < 1 + (a + k) % 3; ++i) v.push_back(salt*100 + k*10 + a + i); }
    if (tm == 3 && nt) r.t[k][mc::fmt("%s_tag0", nm[k])].clear();            // an empty tag beside a full one
  }
  return r;
}
struct Setup { int nproc, nfiles, dirmode; string prefix; vector<Write> w; };
template <int D> struct World {
  const Setup& S; vector<vector<Tessellation<D, double>>> mesh; vector<vector<Fields>> fld;
  World(const Setup& s): S(s), mesh(s.w.size()), fld(s.w.size()) {
    for (size_t k = 0; k < s.w.size(); ++k) {
      vector<Tessellation<D, double>> fresh(s.nproc); mesh[k].swap(fresh);
      for (int r = 0; r < s.nproc; ++r) { make(mesh[k][r], s.w[k].base + r); fld[k].push_back(fields<D>(mesh[k][r], s.w[k].fm, s.w[k].tm, 7*r + 3*k)); }
    }
  }
  string dir() const { return S.dirmode == 0 ? "" : S.dirmode == 1 ? "out" : S.dirmode == 2 ? "have" : "have/sub"; }
  string where() const { return S.dirmode == 0 ? mc::fmt("%s-%d", S.prefix.c_str(), S.nproc) : dir(); }
  fmpi::Result go(fmpi::Config cfg) {
    if (S.dirmode >= 2) mkdir("have", 0700);
    cfg.nranks = S.nproc;
    return fmpi::run(cfg, [&](int r) {
      for (size_t k = 0; k < S.w.size(); ++k) {
        map<string, double*> f[4]; map<string, Tag*> t[4];
        for (int c = 0; c < 4; ++c) { for (auto& x : fld[k][r].f[c]) f[c][x.first] = &x.second[0]; for (auto& x : fld[k][r].t[c]) t[c][x.first] = &x.second; }
        const Write& w = S.w[k];
        SiloWriter<D, double>::write(mesh[k][r], f[0], t[0], f[1], t[1], f[2], t[2], f[3], t[3], S.prefix, dir(), w.cycle, w.time, MPI_COMM_WORLD, S.nfiles, 3);
      }
    });
  }
};
static pair<string, string> split(const string& block) { size_t i = block.rfind(':'); if (i == string::npos) return {"", block}; return {block.substr(0, i), block.substr(i + 1)}; }
static string dirOf(string p) { size_t i = p.rfind('/'); return i == string::npos ? "" : p.substr(0, i); }
template <int D> static string readBack(const World<D>& W, size_t k) {
  const Setup& S = W.S; const Write& w = S.w[k];
  const string st = stem(S.prefix), master = W.where() + "/" + st + (w.cycle >= 0 ? mc::fmt("-%d", w.cycle) : "") + ".silo";
  File M(master); if (!M.f) return "the master file " + master + " cannot be opened";
  unique_ptr<DBmultimesh, void (*)(DBmultimesh*)> mm(DBGetMultimesh(M.f, "mesh"), DBFreeMultimesh);
  if (!mm) return "the master file has no mesh";
  if (mm->nblocks != S.nproc) return mc::fmt("the master file lists %d blocks for %d processes", mm->nblocks, S.nproc);
  map<string, vector<string>> var;     // field -> block names
  for (int c = 0; c < 4; ++c) for (auto& x : W.fld[k][0].f[c]) {
    unique_ptr<DBmultivar, void (*)(DBmultivar*)> v(DBGetMultivar(M.f, x.first.c_str()), DBFreeMultivar);
    if (!v) return "the master file has no field " + x.first;
    if (v->nvars != S.nproc) return "the master file lists another number of blocks for field " + x.first;
    for (int i = 0; i < v->nvars; ++i) var[x.first].push_back(v->varnames[i]);
  }
  set<string> files, blocks; set<int> used; map<string, vector<string>> inFile;
  for (int i = 0; i < S.nproc; ++i) {
    auto b = split(mm->meshnames[i]);
    const string file = b.first.empty() ? master : W.where() + "/" + b.first, path = dirOf(b.second);
    if (!blocks.insert(mm->meshnames[i]).second) return string("the master file lists block ") + mm->meshnames[i] + " twice";
    files.insert(file); inFile[file].push_back(path);
    File B(file); if (!B.f) return "block file " + file + " cannot be opened";
    if (DBSetDir(B.f, path.c_str()) != 0) return "block " + string(mm->meshnames[i]) + " does not exist";
    // which rank wrote it?
    string why, first; int who = -1;
    for (int q = 0; q < S.nproc && who < 0; ++q) { int r = (i + q) % S.nproc; if (used.count(r)) continue; why = domain<D>(B.f, W.mesh[k][r], W.fld[k][r], w); if (why.empty()) who = r; if (q == 0) first = why; }
    if (who < 0) return mc::fmt("block %d (%s): %s", i, mm->meshnames[i], first.c_str());
    used.insert(who);
    for (auto& v : var) if (dirOf(split(v.second[i]).second) != path || split(v.second[i]).first != b.first) return "field " + v.first + " and mesh blocks do not correspond";
    for (auto& v : var) { string n = split(v.second[i]).second; n = n.substr(n.rfind('/') + 1); if (n != v.first) return "block of field " + v.first + " is called " + n; }
  }
  const int nfiles = S.nfiles == -1 ? S.nproc : S.nfiles;
  if ((int)files.size() != nfiles) return mc::fmt("%zu files were written instead of %d", files.size(), nfiles);
  // each of them lists its own domains
  for (auto& f : files) {
    File B(f); if (!B.f) return "file " + f + " cannot be opened";
    unique_ptr<DBmultimesh, void (*)(DBmultimesh*)> g(DBGetMultimesh(B.f, "mesh"), DBFreeMultimesh);
    if (!g) return "file " + f + " has no list of its domains";
    set<string> a, b; for (auto& p : inFile[f]) a.insert(p[0] == '/' ? p.substr(1) : p);
    for (int i = 0; i < g->nblocks; ++i) { string d = dirOf(g->meshnames[i]); b.insert(d[0] == '/' ? d.substr(1) : d); }
    if (a != b || g->nblocks != (int)inFile[f].size()) return mc::fmt("file %s lists %d of its %zu domains", f.c_str(), g->nblocks, inFile[f].size());
    for (int c = 0; c < 4; ++c) for (auto& x : W.fld[k][0].f[c]) {
      unique_ptr<DBmultivar, void (*)(DBmultivar*)> v(DBGetMultivar(B.f, x.first.c_str()), DBFreeMultivar);
      if (!v || v->nvars != g->nblocks) return "file " + f + " lists field " + x.first + " wrongly";
      for (int i = 0; i < v->nvars; ++i) if (string(v->varnames[i]) != dirOf(g->meshnames[i]) + "/" + x.first) return "file " + f + " lists block " + v->varnames[i] + " of field " + x.first;
    }
  }
  return "";
}
template <int D> static void one(const string& id, const Setup& S, bool schedules) {
  if (!R.begin(id)) return;
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) abort();
  World<D> W(S);
  auto attempt = [&](fmpi::Config cfg, const string& how) -> fmpi::Result {
    string tmp = scratch + "/silo.XXXXXX"; vector<char> t(tmp.begin(), tmp.end()); t.push_back(0);
    if (!mkdtemp(&t[0]) || chdir(&t[0])) abort();
    R.describe(mc::fmt("%dD, %d processes, %d files, prefix '%s', directory '%s', %zu writes, %s", D, S.nproc, S.nfiles, S.prefix.c_str(), W.dir().c_str(), S.w.size(), how.c_str()));
    fmpi::Result r; { mc::Quiet q; r = W.go(cfg); }
    R.comparisons++;
    if (!r.ok) R.fail("writing fails: " + r.error);
    else for (size_t k = 0; k < S.w.size(); ++k) {
      bool later = false; for (size_t j = k + 1; j < S.w.size(); ++j) later |= S.w[j].cycle == S.w[k].cycle;
      if (later) continue;                                 // overwritten
      string e = readBack<D>(W, k); R.comparisons++; R.transitions++;
      if (!e.empty()) { R.fail(mc::fmt("write %zu: ", k) + e); break; }
    }
    R.seen(mc::mix(mc::fnv(id.substr(0, id.find('#'))), r.trace)); R.transitions += r.steps;
    if (chdir(cwd)) abort();
    wipe(&t[0]);
    return r;
  };
  fmpi::Config base; auto ref = attempt(base, "default schedule");
  if (schedules && !R.failedThis) {
    // every schedule with one deviation, and (thorough) with two
    int n = 1;
    for (size_t i = 0; i < ref.branching.size() && !R.failedThis; ++i) for (int a = 1; a < ref.branching[i] && !R.failedThis; ++a) {
      fmpi::Config c; c.script.assign(i, 0); c.script.push_back(a); auto r = attempt(c, mc::fmt("schedule %zu:%d", i, a)); ++n;
      if (R.thorough() && S.nproc <= 4) for (size_t j = i + 1; j < r.branching.size() && !R.failedThis; ++j) for (int b = 1; b < r.branching[j] && !R.failedThis; ++b) {
        fmpi::Config d = c; d.script.resize(j, 0); d.script.push_back(b); attempt(d, mc::fmt("schedule %zu:%d %zu:%d", i, a, j, b)); ++n;
      }
    }
    R.count("schedules", n);
  }
  R.nontrivial += S.nproc > 1;
  R.end();
}
template <int D> static void p24() {
  const int P = R.thorough() ? 6 : 4;
  const double NT = -FLT_MAX;
  const vector<vector<Write>> hist = {{{-1, NT, 0, 1, 1}}, {{7, 2.5, 1, 2, 2}}, {{0, 0.0, 2, 3, 0}, {1, 0.5, 0, 3, 0}}, {{3, 1.0, 0, 1, 0}, {3, 1.5, 4, 2, 1}}, {{0, 1.0, 3, 0, 3}}};
  for (int np = 1; np <= P; ++np) for (int nf = -1; nf <= np; ++nf) {
    if (nf == 0) continue;
    for (int dm = 0; dm < 4; ++dm) for (size_t h = 0; h < hist.size(); ++h) for (const char* prefix : {"mesh", "m.silo"}) {
      if (string(prefix) != "mesh" && h > 1) continue;
      one<D>(mc::fmt("%d:%d:%d:%d:%zu:%s", D, np, nf, dm, h, prefix), {np, nf, dm, prefix, hist[h]}, false);
    }
    // every interleaving with one (two) deviations
    if (np > 1) for (int dm = 0; dm < 2; ++dm) one<D>(mc::fmt("sched:%d:%d:%d:%d", D, np, nf, dm), {np, nf, dm, "mesh", hist[2]}, true);
  }
  // every mesh with every choice of fields and tags, alone
  for (int i = 0; i < 12; ++i) for (int fm = 0; fm < 4; ++fm) for (int tm = 0; tm < 4; ++tm)
    one<D>(mc::fmt("mesh:%d:%d:%d:%d", D, i, fm, tm), {1, -1, 1, "mesh", {{i % 4 - 1, i % 3 ? 0.25*i : NT, i, fm, tm}}}, false);
}
int main(int argc, char** argv) {
  R.parse(argc, argv);
  DBShowErrors(DB_NONE, nullptr);
  const char* e = getenv("VERIF_SCRATCH");
  scratch = e ? e : "/tmp";
  R.caseTimeout = 300;
  p24<2>(); p24<3>();
  return R.finish();
}
