// Small bounded-exhaustive exploration framework shared by every harness.
//
// A harness enumerates cases in a fixed order.  Every case has a textual id
// which is unique within the property and is all that is needed to replay it
// (--replay <id> reruns the enumeration and executes only that case).
#ifndef VERIF_MC_HH
#define VERIF_MC_HH
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <csignal>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace mc {

inline std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return buf;
}

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
inline uint64_t mix(uint64_t h, uint64_t v) { return fnv(&v, sizeof v, h); }

inline std::string jesc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o;
}

struct Run;
Run*& current();

struct Violation { std::string id, msg; };

struct Run {
  std::string prop, tier = "quick", out, replay, trace;
  int shard = 0, nshards = 1;
  int every = 1;                       // take every n-th case only (a second, instrumented run)
  uint64_t passed = 0;
  unsigned seed = 1;
  bool verbose = false;
  int maxViolations = 8, nNew = 0;
  std::unordered_set<std::string> known;  // listed findings: recorded, but they do not stop the exploration
  unsigned caseTimeout = 60;           // wall seconds for one case

  uint64_t enumerated = 0;             // cases enumerated (all shards see the same number)
  uint64_t executed = 0;               // cases executed by this shard
  uint64_t transitions = 0;            // operations / calls on the implementation
  uint64_t nontrivial = 0;             // cases counted nontrivial by the harness' rule
  uint64_t comparisons = 0;            // implementation-vs-oracle comparisons made
  std::unordered_set<uint64_t> distinct;   // hashes of distinct observed outcomes (model states)
  std::unordered_set<uint64_t> fails;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  std::string curId, curDesc;
  bool inCase = false, failedThis = false;

  bool thorough() const { return tier == "thorough"; }

  void parse(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--prop") prop = val();
      else if (a == "--tier") tier = val();
      else if (a == "--shard") shard = atoi(val().c_str());
      else if (a == "--nshards") nshards = atoi(val().c_str());
      else if (a == "--out") out = val();
      else if (a == "--replay") { replay = val(); verbose = true; nshards = 1; shard = 0; }
      else if (a == "--seed") seed = atoi(val().c_str());
      else if (a == "--every") every = atoi(val().c_str());
      else if (a == "--max-violations") maxViolations = atoi(val().c_str());
      else if (a == "--known") {
        std::string f = val(); FILE* h = fopen(f.c_str(), "r"); char b[8192];
        if (h) { while (fgets(b, sizeof b, h)) { b[strcspn(b, "\n")] = 0; if (*b) known.insert(b); } fclose(h); }
      }
      else { fprintf(stderr, "unknown argument %s\n", a.c_str()); exit(2); }
    }
    current() = this;
    install();
  }

  volatile unsigned ticks = 0;
  long memLimitMB = 3000;
  static long rssMB() {
    int fd = open("/proc/self/statm", O_RDONLY);
    if (fd < 0) return 0;
    char b[128]; ssize_t n = read(fd, b, sizeof b - 1); close(fd);
    if (n <= 0) return 0;
    b[n] = 0; const char* p = strchr(b, ' ');
    return p ? atol(p + 1) / 256 : 0;
  }
  static void onSignal(int sig) {
    Run* r = current();
    if (sig == SIGALRM) {              // periodic tick: time and memory limits of one case
      if (!r || !r->inCase) return;
      const char* why = nullptr;
      if (++r->ticks > 2 * r->caseTimeout) why = "did not terminate within the case time limit";
      else if (rssMB() > r->memLimitMB) why = "exceeded the memory limit";
      if (!why) return;
      r->inCase = false;
      r->violations.push_back({r->curId, std::string("implementation ") + why + " on " + r->curDesc});
      r->dump(false);
      if (r->verbose) fprintf(stderr, "%s\n", r->violations.back().msg.c_str());
      _exit(0);
    }
    const char* name = sig == SIGSEGV ? "crashed (SIGSEGV)" : sig == SIGABRT ? "aborted (SIGABRT)" :
                       sig == SIGFPE ? "crashed (SIGFPE)" : sig == SIGBUS ? "crashed (SIGBUS)" : "died on a signal";
    signal(sig, SIG_DFL);
    if (r && r->inCase) {
      r->inCase = false;
      r->violations.push_back({r->curId, std::string("implementation ") + name + " on " + r->curDesc});
      r->dump(false);
      if (r->verbose) fprintf(stderr, "%s\n", r->violations.back().msg.c_str());
      _exit(0);
    }
    if (r) { r->dump(false); }
    _exit(4);
  }

  static void install() {
    // Alternate stack so stack overflows are reported too.
    static char alt[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM};
    struct itimerval tv = {{0, 500000}, {0, 500000}};
    setitimer(ITIMER_REAL, &tv, 0);
    for (int s : sigs) {
      struct sigaction sa; memset(&sa, 0, sizeof sa);
      sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER | (s == SIGALRM ? SA_RESTART : 0); sigaction(s, &sa, 0);
    }
  }

  // Begin a case; false means: another shard's, or not the one being replayed.
  bool begin(const std::string& id) {
    if (every > 1 && replay.empty() && passed++ % every) return false;
    uint64_t k = enumerated++;
    if (!replay.empty()) { if (id != replay) return false; }
    else if ((int)(k % nshards) != shard) return false;
    if (nNew >= maxViolations) return false;
    ++executed;
    curId = id; curDesc = id; inCase = true; failedThis = false;
    if (verbose) fprintf(stderr, "[case] %s\n", id.c_str());
    ticks = 0;
    return true;
  }
  void describe(const std::string& d) { curDesc = d; if (verbose) fprintf(stderr, "[desc] %s\n", d.c_str()); }
  void end() { inCase = false; }
  void seen(uint64_t h) { distinct.insert(h); }
  void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }
  void count(const std::string& c, uint64_t n = 1) { counters[c] += n; }

  // Report at most one violation per case.
  void fail(const std::string& msg) {
    if (verbose) fprintf(stderr, "[FAIL] %s\n", msg.c_str());
    if (failedThis) return;
    failedThis = true;
    if (!known.count(curId)) ++nNew;
    violations.push_back({curId, msg + " [" + curDesc + "]"});
  }

  void dump(bool complete) {
    if (out.empty()) return;
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"complete\": %s, \"enumerated\": %llu, \"executed\": %llu, \"transitions\": %llu, \"nontrivial\": %llu, \"comparisons\": %llu,\n",
            complete ? "true" : "false",
            (unsigned long long)enumerated, (unsigned long long)executed, (unsigned long long)transitions,
            (unsigned long long)nontrivial, (unsigned long long)comparisons);
    fprintf(f, "\"counters\": {");
    bool first = true;
    for (auto& c : counters) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\n\"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(samples[i]).c_str());
    fprintf(f, "],\n\"violations\": [");
    for (size_t i = 0; i < violations.size(); ++i)
      fprintf(f, "%s{\"id\": \"%s\", \"msg\": \"%s\"}", i ? ",\n" : "", jesc(violations[i].id).c_str(), jesc(violations[i].msg).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    // distinct outcome hashes, merged by the driver
    FILE* g = fopen((out + ".distinct").c_str(), "wb");
    if (g) {
      for (uint64_t h : distinct) fwrite(&h, sizeof h, 1, g);
      fclose(g);
    }
  }
  int finish() {
    inCase = false;
    dump(true);
    if (!replay.empty() && executed == 0) { fprintf(stderr, "no such case\n"); return 2; }
    if (verbose) fprintf(stderr, "%zu violation(s)\n", violations.size());
    return !replay.empty() && !violations.empty() ? 1 : 0;
  }
};

inline Run*& current() { static Run* r = nullptr; return r; }

// ---- enumeration helpers -------------------------------------------------
// All k-subsets of {0..n-1}, visited in lexicographic order.
template <class F> void subsets(int n, int k, F f) {
  std::vector<int> c(k);
  for (int i = 0; i < k; ++i) c[i] = i;
  if (k > n) return;
  while (true) {
    f(c);
    int i = k - 1;
    while (i >= 0 && c[i] == n - k + i) --i;
    if (i < 0) return;
    ++c[i];
    for (int j = i + 1; j < k; ++j) c[j] = c[j - 1] + 1;
  }
}
// All tuples in {0..b-1}^n.
template <class F> void tuples(int n, int b, F f) {
  std::vector<int> t(n, 0);
  while (true) {
    f(t);
    int i = n - 1;
    while (i >= 0 && t[i] == b - 1) t[i--] = 0;
    if (i < 0) return;
    ++t[i];
  }
}
template <class T> std::string join(const std::vector<T>& v, const char* sep = ",") {
  std::ostringstream o; o.precision(17);
  for (size_t i = 0; i < v.size(); ++i) { if (i) o << sep; o << v[i]; }
  return o.str();
}

// Silence the implementation's stderr/stdout chatter while exploring.
struct Quiet {
  int so = -1, se = -1;
  bool on;
  Quiet(bool on_ = true) : on(on_) {
    if (!on) return;
    fflush(stdout); fflush(stderr);
    so = dup(1); se = dup(2);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1); dup2(n, 2); close(n);
  }
  ~Quiet() {
    if (!on) return;
    std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
    dup2(so, 1); dup2(se, 2); close(so); close(se);
  }
};

} // namespace mc

#define MC_CHECK(R, cond, ...) do { (R).comparisons++; if (!(cond)) { (R).fail(mc::fmt(__VA_ARGS__)); } } while (0)
// Like MC_CHECK but returns from the enclosing function on failure.
#define MC_REQUIRE(R, cond, ...) do { (R).comparisons++; if (!(cond)) { (R).fail(mc::fmt(__VA_ARGS__)); return; } } while (0)
#endif
