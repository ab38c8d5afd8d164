#include "mpi.h"
#include "fmpi.hh"
#include <ucontext.h>
#include <sys/mman.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <memory>
#include <stdexcept>
#include <algorithm>
#if defined(__SANITIZE_ADDRESS__)
#define FMPI_ASAN 1
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif

using std::string;
using std::vector;

struct fmpi_request_s {
  bool isSend = false, done = false;
  int owner = 0, peer = 0, tag = 0, comm = 0, dtype = 0;
  void* buf = nullptr;
  size_t bytes = 0;
  MPI_Status st{};
  long msg = -1;
};

namespace {

struct Abort {};                        // unwinds a rank

struct Message {
  int src, dst, tag, comm, dtype;
  size_t bytes;
  const char* live;                     // sender's buffer (late mode), or null once captured
  vector<char> data;                    // snapshot taken at the send call
  bool captured = false, received = false;
};

struct Coll {
  string op; int root; size_t bytes; int dtype, mop; const void* in; void* out; int comm;
  const int* rc; const int* displs;
};

enum St { READY, BLOCKED, DONE };

struct Rank {
  ucontext_t ctx;
  char* stack = nullptr;
  St st = READY;
  std::function<bool()> pred;
  string where;
  Coll coll; bool inColl = false; bool collDone = false;
#ifdef FMPI_ASAN
  void* fake = nullptr;
#endif
};

const size_t STACK = 16u << 20;

struct World {
  fmpi::Config cfg;
  fmpi::Result res;
  std::function<void(int)> body;
  vector<Rank> ranks;
  int cur = -1;
  ucontext_t sched;
#ifdef FMPI_ASAN
  void* schedFake = nullptr; const void* schedStack = nullptr; size_t schedSize = 0;
#endif
  std::deque<Message> msgs;             // all messages of the run; index is its id
  vector<std::unique_ptr<fmpi_request_s>> reqs;
  bool aborting = false;
  size_t choice = 0;
};
World* W = nullptr;
vector<char*> stackPool;

uint64_t mixh(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h; }

[[noreturn]] void problem(const string& what) {
  if (W->res.ok) { W->res.ok = false; W->res.error = "rank " + std::to_string(W->cur) + ": " + what; }
  W->aborting = true;
  throw Abort();
}

void toScheduler() {
  Rank& r = W->ranks[W->cur];
#ifdef FMPI_ASAN
  __sanitizer_start_switch_fiber(r.st == DONE ? nullptr : &r.fake, W->schedStack, W->schedSize);
#endif
  swapcontext(&r.ctx, &W->sched);
#ifdef FMPI_ASAN
  __sanitizer_finish_switch_fiber(r.fake, nullptr, nullptr);
#endif
  if (W->aborting && r.st != DONE) throw Abort();
}

// A scheduling point without blocking.
void yieldPoint(const string& where) {
  if (!W) return;
  if (W->aborting) throw Abort();
  Rank& r = W->ranks[W->cur];
  r.where = where;
  W->res.steps++;
  toScheduler();
}
void block(const string& where, std::function<bool()> p) {
  if (W->aborting) throw Abort();
  Rank& r = W->ranks[W->cur];
  r.where = where;
  W->res.steps++;
  while (true) {
    r.st = BLOCKED; r.pred = p;
    toScheduler();
    r.st = READY;
    if (p()) break;
  }
}

void entry() {
#ifdef FMPI_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &W->schedStack, &W->schedSize);
#endif
  int me = W->cur;
  try { if (!W->aborting) W->body(me); }
  catch (Abort&) {}
  catch (std::exception& e) {
    if (W->res.ok) { W->res.ok = false; W->res.error = "rank " + std::to_string(me) + ": exception " + e.what(); }
    W->aborting = true;
  }
  catch (...) {
    if (W->res.ok) { W->res.ok = false; W->res.error = "rank " + std::to_string(me) + ": unknown exception"; }
    W->aborting = true;
  }
  W->ranks[me].st = DONE;
  W->ranks[me].where = "finished";
  toScheduler();
  abort();
}

void resume(int k) {
  if (W->cur != k) W->res.switches++;
  W->cur = k;
  Rank& r = W->ranks[k];
#ifdef FMPI_ASAN
  __sanitizer_start_switch_fiber(&W->schedFake, r.stack, STACK);
#endif
  swapcontext(&W->sched, &r.ctx);
#ifdef FMPI_ASAN
  __sanitizer_finish_switch_fiber(W->schedFake, nullptr, nullptr);
#endif
}

void capture(Message& m) {
  if (m.captured) return;
  if (m.live && m.bytes && memcmp(m.live, m.data.data(), m.bytes) != 0) {
    m.captured = true;
    if (W->res.ok) {
      W->res.ok = false;
      W->res.error = "rank " + std::to_string(m.src) + ": buffer of a nonblocking send to rank " + std::to_string(m.dst) +
                     " (tag " + std::to_string(m.tag) + ") was modified before the send completed";
    }
    W->aborting = true;
    return;
  }
  m.captured = true;
  m.live = nullptr;
}

bool match(const Message& m, int me, int src, int tag, int comm) {
  return !m.received && m.dst == me && m.comm == comm &&
         (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag);
}
long findMsg(int me, int src, int tag, int comm) {
  for (size_t i = 0; i < W->msgs.size(); ++i) if (match(W->msgs[i], me, src, tag, comm)) return (long)i;
  return -1;
}

void checkPeer(int p, const char* what) {
  if (p < 0 || p >= W->cfg.nranks) problem(string(what) + " with invalid rank " + std::to_string(p));
}

long post(const void* buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm, bool nonblocking) {
  checkPeer(dst, "send");
  if (n < 0) problem("send with negative count");
  Message m;
  m.src = W->cur; m.dst = dst; m.tag = tag; m.comm = comm; m.dtype = t;
  m.bytes = (size_t)n * (t & 255);
  m.data.assign((const char*)buf, (const char*)buf + m.bytes);
  m.live = nonblocking ? (const char*)buf : nullptr;
  m.captured = !(nonblocking && W->cfg.lateSend);
  W->res.messages++; W->res.bytes += m.bytes;
  W->msgs.push_back(std::move(m));
  return (long)W->msgs.size() - 1;
}

void receive(void* buf, int n, MPI_Datatype t, long id, MPI_Status* st) {
  Message& m = W->msgs[id];
  size_t cap = (size_t)n * (t & 255);
  if (m.bytes > cap) problem("message of " + std::to_string(m.bytes) + " bytes from rank " + std::to_string(m.src) +
                             " truncated to " + std::to_string(cap));
  if (m.bytes && (m.dtype >> 8) != (t >> 8)) problem("receive datatype differs from the send's");
  if (m.bytes) memcpy(buf, m.data.data(), m.bytes);
  m.received = true;
  if (st) { st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->MPI_ERROR = 0; st->fmpi_bytes = (int)m.bytes; }
}

template <class T> void red(const void* a, void* b, size_t n, int op) {
  const T* x = (const T*)a; T* y = (T*)b;
  for (size_t i = 0; i < n; ++i) switch (op) {
    case MPI_SUM: y[i] = y[i] + x[i]; break;
    case MPI_MIN: y[i] = std::min(y[i], x[i]); break;
    case MPI_MAX: y[i] = std::max(y[i], x[i]); break;
    case MPI_PROD: y[i] = y[i] * x[i]; break;
    case MPI_LAND: y[i] = y[i] && x[i]; break;
    case MPI_LOR: y[i] = y[i] || x[i]; break;
    default: y[i] = x[i];
  }
}
void reduceInto(const void* a, void* b, size_t bytes, int t, int op) {
  size_t n = bytes / (t & 255);
  switch (t) {
    case MPI_CHAR: case MPI_BYTE: case MPI_SIGNED_CHAR: red<signed char>(a, b, n, op); break;
    case MPI_UNSIGNED_CHAR: case MPI_C_BOOL: red<unsigned char>(a, b, n, op); break;
    case MPI_INT: red<int>(a, b, n, op); break;
    case MPI_UNSIGNED: red<unsigned>(a, b, n, op); break;
    case MPI_LONG: case MPI_INT64_T: case MPI_LONG_LONG: red<long>(a, b, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UINT64_T: case MPI_UNSIGNED_LONG_LONG: red<unsigned long>(a, b, n, op); break;
    case MPI_FLOAT: red<float>(a, b, n, op); break;
    case MPI_DOUBLE: red<double>(a, b, n, op); break;
    default: problem("reduction on an unsupported datatype");
  }
}

void finishCollective() {
  auto& R = W->ranks;
  int n = W->cfg.nranks;
  Coll& c0 = R[0].coll;
  for (int i = 1; i < n; ++i) {
    Coll& c = R[i].coll;
    if (c.op != c0.op || c.comm != c0.comm) problem("mismatched collectives: " + c0.op + " on rank 0, " + c.op + " on rank " + std::to_string(i));
    if (c.root != c0.root) problem(c.op + " with different roots");
    if (c.op != "Gatherv" && c.op != "Allgatherv" && c.bytes != c0.bytes) problem(c.op + " with different counts on rank 0 and rank " + std::to_string(i));
    if (c.dtype != c0.dtype || c.mop != c0.mop) problem(c.op + " with different datatype or operation");
  }
  W->res.collectives++;
  size_t B = c0.bytes;
  if (c0.op == "Bcast") {
    for (int i = 0; i < n; ++i) if (i != c0.root && B) memmove(R[i].coll.out, R[c0.root].coll.out, B);
  } else if (c0.op == "Reduce" || c0.op == "Allreduce") {
    vector<char> acc;
    for (int i = 0; i < n; ++i) {
      const void* in = R[i].coll.in == MPI_IN_PLACE ? R[i].coll.out : R[i].coll.in;
      if (i == 0) acc.assign((const char*)in, (const char*)in + B);
      else reduceInto(in, acc.data(), B, c0.dtype, c0.mop);
    }
    for (int i = 0; i < n; ++i) if (c0.op == "Allreduce" || i == c0.root) if (B) memcpy(R[i].coll.out, acc.data(), B);
  } else if (c0.op == "Scan" || c0.op == "Exscan") {
    vector<char> acc; vector<vector<char>> outs(n);
    for (int i = 0; i < n; ++i) {
      const void* in = R[i].coll.in == MPI_IN_PLACE ? R[i].coll.out : R[i].coll.in;
      vector<char> mine((const char*)in, (const char*)in + B);
      if (c0.op == "Exscan") outs[i] = acc;
      if (i == 0) acc = mine; else reduceInto(mine.data(), acc.data(), B, c0.dtype, c0.mop);
      if (c0.op == "Scan") outs[i] = acc;
    }
    for (int i = 0; i < n; ++i) if (!outs[i].empty()) memcpy(R[i].coll.out, outs[i].data(), B);
  } else if (c0.op == "Gather" || c0.op == "Allgather") {
    vector<char> all;
    for (int i = 0; i < n; ++i) { const char* p = (const char*)R[i].coll.in; all.insert(all.end(), p, p + B); }
    for (int i = 0; i < n; ++i) if (c0.op == "Allgather" || i == c0.root) if (!all.empty()) memcpy(R[i].coll.out, all.data(), all.size());
  } else if (c0.op == "Gatherv" || c0.op == "Allgatherv") {
    for (int i = 0; i < n; ++i) if (c0.op == "Allgatherv" || i == c0.root) {
      size_t sz = c0.dtype & 255;
      for (int j = 0; j < n; ++j) {
        if ((size_t)R[i].coll.rc[j] * sz < R[j].coll.bytes) problem("Gatherv truncation");
        memcpy((char*)R[i].coll.out + R[i].coll.displs[j] * sz, R[j].coll.in, R[j].coll.bytes);
      }
    }
  } else if (c0.op == "Alltoall") {
    vector<vector<char>> outs(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { const char* p = (const char*)R[j].coll.in + i * B; outs[i].insert(outs[i].end(), p, p + B); }
    for (int i = 0; i < n; ++i) memcpy(R[i].coll.out, outs[i].data(), outs[i].size());
  }
  for (int i = 0; i < n; ++i) { R[i].inColl = false; R[i].collDone = true; }
}

void collective(const string& op, int root, size_t bytes, int dtype, int mop, const void* in, void* out, int comm,
                const int* rc = nullptr, const int* displs = nullptr) {
  if (root < 0 || root >= W->cfg.nranks) problem(op + " with invalid root");
  if (comm == MPI_COMM_SELF) problem(op + " on MPI_COMM_SELF is not modelled");
  Rank& me = W->ranks[W->cur];
  if (W->aborting) throw Abort();
  me.coll = Coll{op, root, bytes, dtype, mop, in, out, comm, rc, displs};
  me.inColl = true; me.collDone = false;
  bool all = true;
  for (auto& r : W->ranks) all = all && r.inColl;
  if (all) { finishCollective(); me.collDone = false; yieldPoint(op); return; }
  Rank* p = &me;
  block(op, [p] { return p->collDone; });
  me.collDone = false;
}

} // namespace

namespace fmpi {
Result run(const Config& cfg, const std::function<void(int)>& body) {
  World w;
  W = &w;
  w.cfg = cfg; w.body = body;
  w.ranks.resize(cfg.nranks);
  while ((int)stackPool.size() < cfg.nranks) {
    char* s = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    stackPool.push_back(s);
  }
  for (int i = 0; i < cfg.nranks; ++i) {
    Rank& r = w.ranks[i];
    r.stack = stackPool[i];
#ifdef FMPI_ASAN
    __asan_unpoison_memory_region(r.stack, STACK);
#endif
    getcontext(&r.ctx);
    r.ctx.uc_stack.ss_sp = r.stack; r.ctx.uc_stack.ss_size = STACK; r.ctx.uc_link = nullptr;
    makecontext(&r.ctx, (void (*)())entry, 0);
    r.where = "start";
  }
  int last = -1;
  while (true) {
    if (w.aborting) {
      // unwind everybody
      for (int i = 0; i < cfg.nranks; ++i) while (w.ranks[i].st != DONE) resume(i);
      break;
    }
    vector<int> run;
    int alive = 0;
    for (int k = 0; k < cfg.nranks; ++k) {
      Rank& r = w.ranks[k];
      if (r.st != DONE) ++alive;
      if (r.st == READY || (r.st == BLOCKED && r.pred())) run.push_back(k);
    }
    if (alive == 0) break;
    if (run.empty()) {
      // In late mode the library must make progress on pending sends inside blocking calls.
      bool released = false;
      for (auto& m : w.msgs) if (!m.captured) { capture(m); released = true; if (w.aborting) break; }
      if (released) continue;
      string s = "deadlock:";
      for (int k = 0; k < cfg.nranks; ++k) s += " rank " + std::to_string(k) + " in " + w.ranks[k].where + ";";
      w.res.ok = false; w.res.error = s;
      w.aborting = true;
      continue;
    }
    // Default: keep running the same rank if it can, else the next one cyclically.
    int base = last < 0 ? cfg.firstRank : last;
    std::sort(run.begin(), run.end(), [&](int a, int b) {
      return (a - base + cfg.nranks) % cfg.nranks < (b - base + cfg.nranks) % cfg.nranks; });
    int pick = 0;
    if (run.size() > 1) {
      if (w.choice < cfg.script.size()) pick = std::min<int>(cfg.script[w.choice], run.size() - 1);
      w.res.branching.push_back((int)run.size());
      w.choice++;
    }
    last = run[pick];
    w.res.trace = mixh(w.res.trace, last + 1);
    resume(last);
    if (w.res.steps > 2000000) { w.res.ok = false; w.res.error = "livelock: more than 2000000 communication steps"; w.aborting = true; }
  }
  if (w.res.ok) {
    for (auto& m : w.msgs) if (!m.received) {
      w.res.ok = false;
      w.res.error = "message from rank " + std::to_string(m.src) + " to rank " + std::to_string(m.dst) + " tag " + std::to_string(m.tag) + " is never received";
      break;
    }
    for (auto& q : w.reqs) if (w.res.ok && !q->done) { w.res.ok = false; w.res.error = "a nonblocking request of rank " + std::to_string(q->owner) + " is never completed"; }
  }
  W = nullptr;
  return w.res;
}
} // namespace fmpi

extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int) { if (W) problem("MPI_Abort called"); abort(); }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = W && c != MPI_COMM_SELF ? W->cfg.nranks : 1; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = W && c != MPI_COMM_SELF ? W->cur : 0; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { *d = c; return 0; }
int MPI_Comm_free(MPI_Comm*) { return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = t & 255; return 0; }
double MPI_Wtime(void) { return 0.0; }

int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q) {
  yieldPoint("Isend");
  auto r = std::make_unique<fmpi_request_s>();
  r->isSend = true; r->owner = W->cur; r->msg = post(b, n, t, dst, tag, c, true);
  *q = r.get();
  W->reqs.push_back(std::move(r));
  return 0;
}
static int blockingSend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, bool sync) {
  yieldPoint("Send");
  long id = post(b, n, t, dst, tag, c, false);
  if (sync) { World* w = W; block("Send to " + std::to_string(dst), [w, id] { return w->msgs[id].received; }); }
  return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return blockingSend(b, n, t, dst, tag, c, W->cfg.syncSend); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return blockingSend(b, n, t, dst, tag, c, true); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st) {
  if (src != MPI_ANY_SOURCE) checkPeer(src, "receive");
  int me = W->cur; World* w = W;
  block("Recv from " + std::to_string(src) + " tag " + std::to_string(tag), [=] {
    long i = findMsg(me, src, tag, c); return i >= 0 && w->msgs[i].captured; });
  receive(b, n, t, findMsg(me, src, tag, c), st);
  return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q) {
  yieldPoint("Irecv");
  auto r = std::make_unique<fmpi_request_s>();
  r->owner = W->cur; r->peer = src; r->tag = tag; r->comm = c; r->dtype = t; r->buf = b; r->bytes = n;
  *q = r.get();
  W->reqs.push_back(std::move(r));
  return 0;
}
static bool reqReady(fmpi_request_s* r) {
  if (!r || r->done) return true;
  if (r->isSend) return W->msgs[r->msg].captured;
  long i = findMsg(r->owner, r->peer, r->tag, r->comm);
  return i >= 0 && W->msgs[i].captured;
}
static void reqFinish(fmpi_request_s* r) {
  if (!r || r->done) return;
  r->done = true;
  if (!r->isSend) receive(r->buf, (int)r->bytes, r->dtype, findMsg(r->owner, r->peer, r->tag, r->comm), &r->st);
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st) {
  for (int i = 0; i < n; ++i) if (q[i] && q[i]->isSend && !q[i]->done) { capture(W->msgs[q[i]->msg]); if (W->aborting) throw Abort(); }
  block("Waitall", [=] { for (int i = 0; i < n; ++i) if (!reqReady(q[i])) return false; return true; });
  for (int i = 0; i < n; ++i) { reqFinish(q[i]); if (st && q[i]) st[i] = q[i]->st; q[i] = MPI_REQUEST_NULL; }
  return 0;
}
int MPI_Wait(MPI_Request* q, MPI_Status* st) { return MPI_Waitall(1, q, st); }
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* st) {
  yieldPoint("Test");
  if (*q && (*q)->isSend) { capture(W->msgs[(*q)->msg]); if (W->aborting) throw Abort(); }
  *flag = reqReady(*q);
  if (*flag) { reqFinish(*q); if (st && *q) *st = (*q)->st; *q = MPI_REQUEST_NULL; }
  return 0;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stt, int dst, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* st) {
  yieldPoint("Sendrecv");
  post(sb, sn, stt, dst, stag, c, false);
  return MPI_Recv(rb, rn, rt, src, rtag, c, st);
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = st->fmpi_bytes / (t & 255); return 0; }
static size_t nb(int n, MPI_Datatype t) { if (n < 0) problem("collective with negative count"); return (size_t)n * (t & 255); }
int MPI_Barrier(MPI_Comm c) { if (!W) return 0; collective("Barrier", 0, 0, 0, 0, 0, 0, c); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { if (!W) return 0; collective("Bcast", root, nb(n, t), t, 0, b, b, c); return 0; }
int MPI_Reduce(const void* i, void* o, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  if (!W) { if (i != MPI_IN_PLACE) memcpy(o, i, nb(n, t)); return 0; }
  collective("Reduce", root, nb(n, t), t, op, i, o, c); return 0; }
int MPI_Allreduce(const void* i, void* o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  if (!W) { if (i != MPI_IN_PLACE) memcpy(o, i, (size_t)n * (t & 255)); return 0; }
  collective("Allreduce", 0, nb(n, t), t, op, i, o, c); return 0; }
int MPI_Gather(const void* i, int n, MPI_Datatype t, void* o, int, MPI_Datatype, int root, MPI_Comm c) { collective("Gather", root, nb(n, t), t, 0, i, o, c); return 0; }
int MPI_Allgather(const void* i, int n, MPI_Datatype t, void* o, int, MPI_Datatype, MPI_Comm c) {
  if (!W) { memcpy(o, i, (size_t)n * (t & 255)); return 0; }
  collective("Allgather", 0, nb(n, t), t, 0, i, o, c); return 0; }
int MPI_Gatherv(const void* i, int n, MPI_Datatype t, void* o, const int* rc, const int* d, MPI_Datatype, int root, MPI_Comm c) { collective("Gatherv", root, nb(n, t), t, 0, i, o, c, rc, d); return 0; }
int MPI_Allgatherv(const void* i, int n, MPI_Datatype t, void* o, const int* rc, const int* d, MPI_Datatype, MPI_Comm c) { collective("Allgatherv", 0, nb(n, t), t, 0, i, o, c, rc, d); return 0; }
int MPI_Scan(const void* i, void* o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { collective("Scan", 0, nb(n, t), t, op, i, o, c); return 0; }
int MPI_Exscan(const void* i, void* o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { collective("Exscan", 0, nb(n, t), t, op, i, o, c); return 0; }
int MPI_Alltoall(const void* i, int n, MPI_Datatype t, void* o, int, MPI_Datatype, MPI_Comm c) { collective("Alltoall", 0, nb(n, t), t, 0, i, o, c); return 0; }
}
