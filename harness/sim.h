// Deterministic simulation runtime, world A: one simulated thread of control,
// with simulated memory, clock, process exit, randomness and streams.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <setjmp.h>
#include <sstream>
#include <streambuf>
#include <string>
#include <utility>
#include <vector>

namespace sim {

typedef long long i64;
typedef unsigned long long u64;
typedef unsigned int u32;

// ---------------------------------------------------------------- randomness
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  i64 below(i64 n) { return n <= 0 ? 0 : (i64)(next() % (u64)n); }
  i64 range(i64 lo, i64 hi) { return lo + below(hi - lo + 1); }  // inclusive
  bool chance(int pct) { return below(100) < pct; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  template <class T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + below((i64)l.size()));
  }
  // small numbers likely, large ones possible
  i64 skew(i64 n) {
    i64 m = below(n) + 1;
    return below(m);
  }
};
u64 mix(u64 a, u64 b);

// ---------------------------------------------------------------- plans
// A plan is one simulated execution written down: configuration, operations
// and the faults placed in them.  Execution is a pure function of plan + code.
enum FaultKind {
  F_NONE = 0,
  F_OOM_ONE = 1,    // the fa-th allocation of the operation fails
  F_OOM_FROM = 2,   // all allocations of the operation from the fa-th on fail
  F_OOM_SCAN = 3,   // retry with failure at allocation 0,1,2,... until it works
  F_THROW_ONE = 4,  // the fa-th user callback (copy/compare/...) throws
  F_THROW_SCAN = 5,
  F_STREAM = 6,     // workload specific stream fault (fa, fb)
  F_OOM_SIZE = 7,   // allocations of at least fa bytes fail (fragmented memory)
};
struct Step {
  int op = 0;
  i64 a[6] = {0, 0, 0, 0, 0, 0};
  int fk = 0;
  i64 fa = 0, fb = 0;
  std::string s;  // text payload
};
struct Plan {
  std::string prop;
  u64 seed = 0;
  std::map<std::string, i64> cfg;
  std::vector<Step> steps;
  i64 get(const std::string& k, i64 dflt = 0) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? dflt : it->second;
  }
};

// ---------------------------------------------------------------- run
struct Run {
  u64 hash = 1469598103934665603ull;
  std::vector<u64> events;              // hash after every event
  const std::vector<u64>* expect = nullptr;  // earlier execution to agree with
  bool verbose = false;
  u64 faultsFired = 0;
  void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void logd(const char* what, double d);
  void logs(const char* what, const std::string& s);
};
extern Run* g_run;
// Report a violation of the property and stop the run.
void violate(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3), noreturn));
void fault(const char* name);            // count a fault that really fired
void probe(const char* name);            // count a rare condition reached
#define SIM_CHECK(cond, cls, ...) \
  do {                            \
    if (!(cond)) sim::violate(cls, __VA_ARGS__); \
  } while (0)

// ---------------------------------------------------------------- scopes
// Inside Lib the code under test runs: its allocations are simulated and its
// steps are counted.  Inside Out (callbacks) the harness runs.
extern int g_inlib;
struct Lib {
  int old;
  Lib() : old(g_inlib) { g_inlib = 1; }
  ~Lib() { g_inlib = old; }
};
struct Out {
  int old;
  Out() : old(g_inlib) { g_inlib = 0; }
  ~Out() { g_inlib = old; }
};

// ---------------------------------------------------------------- heap
size_t liveBlocks();                     // blocks allocated by the library
size_t liveBytes();
std::string describeLive(int max = 4);
u64 allocSeq();                          // allocations attempted so far
struct HeapMark {
  size_t blocks;
};

// ---------------------------------------------------------------- calls
struct UserError {                       // thrown by simulated user callbacks
  int tag;
};
enum Outcome { O_OK, O_BADALLOC, O_USER, O_OTHER, O_EXIT, O_ABORT };
const char* outcomeName(Outcome o);
struct CallInfo {
  Outcome out = O_OK;
  int exitCode = 0;
  bool fired = false;                    // an injected fault fired in the call
  u64 allocs = 0;
  u64 steps = 0;
  u64 callbacks = 0;
  std::string what;
};
// fault armed for the next call
struct Arm {
  int kind = F_NONE;
  i64 k = 0;
};
void setBudget(u64 steps);               // per call step budget
CallInfo call(const Arm& arm, const std::function<void()>& fn);
inline CallInfo call(const std::function<void()>& fn) { return call(Arm(), fn); }
// A user callback was entered: may throw UserError if so armed.
void userPoint();

// ---------------------------------------------------------------- seams
void setClock(i64 t);                    // simulated wall clock (seconds)
extern std::function<u64(u64)> g_engineHook;   // may replace engine outputs
u64 engineDraws();
std::string takeStderr();
enum SinkMode { SINK_OK, SINK_FAIL_AT, SINK_SHORT_AT, SINK_THROW_AT };
void setStderrSink(SinkMode m, i64 at);
void ambient(u64 v);                     // changes every ambient value (clock..)
int envIndex();                          // 0 or 1: which of the two executions

// ---------------------------------------------------------------- properties
struct Property {
  const char* id;
  void (*gen)(Rng&, Plan&);
  void (*exec)(const Plan&);
  void (*warm)();  // touches every lazily created process-wide object
};
Property* getProperty();                 // defined by the property file

}  // namespace sim
#endif
