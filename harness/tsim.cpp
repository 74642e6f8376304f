#include "tsim.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <condition_variable>
#include <mutex>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {
int g_inlib = 0;
u64 mix(u64 a, u64 b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull)); r.next(); return r.next(); }
}
using sim::i64; using sim::u64; using sim::u32; using sim::Rng; using sim::Plan; using sim::Step; using sim::mix;
namespace tsim {
static const int MAXT = 4;
static const int SWITCH_OP = 9000;
struct Switch { int tid; u64 idx; int to; u64 addr; int kind; };
enum { PK_READ, PK_WRITE, PK_ATOMIC, PK_LOCK, PK_UNLOCK, PK_GUARD, PK_ONCE, PK_FUNC, PK_YIELD, PK_END, PK_BLOCK, PK_N };
static const char* PKN[] = {"read", "write", "atomic", "lock", "unlock", "static-init", "once", "call", "yield", "end", "block"};
enum { N_SW = 6000, N_EV = 2000, N_TR = 200000, N_CLK = 64, N_PROBE = 40 };
struct NameCount { char name[40]; u64 n; };
// results of a simulated process, in memory shared with its parent
struct Shared {
  int state;                      // 0 running, 1 done, 2 violation
  char cls[64];
  char msg[600];
  int nsw, nev, nclk;
  Switch sw[N_SW];
  Event ev[N_EV];
  i64 clk[N_CLK];
  u32 trLen[MAXT];
  unsigned char tr[MAXT][N_TR];
  u64 points, hot, steps;
  u64 hash;
  u64 preemptHot, preemptCold, forced, blocked, clockJumps, lockWaits;
  NameCount probes[N_PROBE];
};
static Shared* S;

// ------------------------------------------------------------ simulated process
static const u64 ARENA = 0x500000000000ull, ARENA_SZ = 1ull << 30;
static const u64 STACKS = 0x510000000000ull, STACK_SZ = 1ull << 20;
static u64 g_brk = ARENA;
static bool g_sim = false;        // simulated threads exist in this process
static bool g_setup = false;      // shared objects are being built
struct Th {
  sem_t sem;
  bool done = false, started = false;
  const void* waits = nullptr;    // blocked on this object
  u64 points = 0;
};
static Th g_th[MAXT];
static int g_n = 0, g_cur = -1;
static __thread int t_tid = -1;
static __thread int t_off = 0;    // runtime code of the thread is active
static sem_t g_doneSem;
static Rng g_rng;
static int g_mode = 0;            // 0 explicit, 1 random
static int g_pHot, g_pCold, g_pLock;  // per 10000
static u64 g_hotBudget;
static std::vector<Switch>* g_script[MAXT];
static size_t g_scriptPos[MAXT];
static u64 g_streak = 0, g_total = 0, g_time = 0;
static i64 g_clock = 1500000000;
static int g_clockJump = 0;
static bool g_verbose = false;
static u64 g_swHash = 14695981039346656037ull;

int self() { return t_tid; }
u64 now() { return ++g_time; }
static void die() { fflush(stdout); _exit(3); }
void violate(const char* cls, const char* fmt, ...) {
  t_off++;
  if (S->state != 2) {
    snprintf(S->cls, sizeof S->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
    for (char* p = S->msg; *p; p++) if (*p == '\n') *p = ' ';
    S->state = 2;
  }
  die();
  __builtin_unreachable();
}
void probe(const char* name) {
  for (int i = 0; i < N_PROBE; i++) {
    if (!S->probes[i].name[0]) snprintf(S->probes[i].name, sizeof S->probes[i].name, "%s", name);
    if (!strcmp(S->probes[i].name, name)) { S->probes[i].n++; return; }
  }
}
void emit(const void* p, size_t n) {
  int t = t_tid;
  if (S->trLen[t] + n > N_TR) return;
  memcpy(S->tr[t] + S->trLen[t], p, n);
  S->trLen[t] += (u32)n;
}
void emitU(u64 v) { emit(&v, 8); }
void emitD(double v) { emit(&v, 8); }
void emitS(const std::string& s) { emitU(s.size()); emit(s.data(), s.size()); }
void event(const Event& e) {
  if (S->nev < N_EV) S->ev[S->nev++] = e;
}
static std::vector<Event> g_events;
static std::vector<i64> g_clocks;
const std::vector<Event>& events() { return g_events; }
const std::vector<i64>& clockReadings() { return g_clocks; }

// ------------------------------------------------------------ who touched what
extern "C" char __data_start, _end;
// One cell for 8 bytes: who wrote and who read them last, at which time of its
// own; times are compared through vector clocks that locks, once, static
// initialisation and atomics carry from thread to thread.
struct Cell { u32 w, r[MAXT], owner; };
static Cell *g_heapCells, *g_dataCells;
static u64 g_dataFrom, g_dataTo;
static u32 g_vc[MAXT][MAXT];
struct Clock { u32 c[MAXT] = {}; };
static std::unordered_map<u64, Clock>* g_sync;
static const u64 FENCE = 1;
static Cell* cellOf(u64 addr) {
  if (addr >= ARENA && addr < ARENA + ARENA_SZ) return g_heapCells + ((addr - ARENA) >> 3);
  if (addr >= g_dataFrom && addr < g_dataTo) return g_dataCells + ((addr - g_dataFrom) >> 3);
  return nullptr;
}
static bool isHot(u64 addr) {
  if (addr >= g_dataFrom && addr < g_dataTo) return true;
  if (addr < ARENA || addr >= ARENA + ARENA_SZ) return false;
  Cell* c = cellOf(addr);
  u32 me = (u32)t_tid + 1;
  if (c->owner == 0) c->owner = me;
  if (c->owner == me) return false;
  c->owner = 99;
  return true;
}
static void syncRelease(u64 a) {
  Clock& k = (*g_sync)[a];
  for (int t = 0; t < MAXT; t++) k.c[t] = std::max(k.c[t], g_vc[t_tid][t]);
  if (g_vc[t_tid][t_tid] < (1u << 22) - 2) g_vc[t_tid][t_tid]++;
}
static void syncAcquire(u64 a) {
  auto it = g_sync->find(a);
  if (it == g_sync->end()) return;
  for (int t = 0; t < MAXT; t++) g_vc[t_tid][t] = std::max(g_vc[t_tid][t], it->second.c[t]);
}
static void syncAtomic(u64 a, int order, bool load, bool store) {
  if (load && order != 0 && order != 3) syncAcquire(a);
  if (store && order >= 3) syncRelease(a);
}
static bool stream(u64 a) {   // formatted output to these is synchronised by definition
  const char* o[] = {(const char*)&std::cout, (const char*)&std::cerr, (const char*)&std::clog, (const char*)&std::cin};
  for (const char* x : o) if (a >= (u64)x && a < (u64)x + (x == o[3] ? sizeof(std::istream) : sizeof(std::ostream))) return true;
  return false;
}
static void race(int other, bool mine, bool its) {
  std::string op = "?";
  std::string tr((char*)S->tr[t_tid], S->trLen[t_tid]);
  size_t m = tr.rfind(std::string("\x01OP:"));
  if (m != std::string::npos) op = tr.substr(m + 4, tr.find('\x02', m) - m - 4);
  violate("data-race", "thread %d %s memory that thread %d %s, with nothing that orders the two accesses (in %s)", t_tid, mine ? "writes" : "reads", other, its ? "wrote" : "read", op.c_str());
}
static void touch(u64 a, u64 n, bool write) {
  if (g_n < 2 || n == 0) return;
  int me = t_tid;
  u32 now = g_vc[me][me];
  for (u64 g = a & ~7ull; g < a + n; g += 8) {
    Cell* c = cellOf(g);
    if (!c) return;
    u32 from = g < a ? (u32)(a - g) : 0, to = a + n < g + 8 ? (u32)(a + n - g) : 8;
    u32 mask = ((1u << to) - 1) & ~((1u << from) - 1);
    if (c->w) {
      int t = (int)(c->w >> 30);
      if (t != me && (c->w & mask) && ((c->w >> 8) & 0x3fffff) > g_vc[me][t] && !stream(g)) race(t, write, true);
    }
    if (write) {
      for (int t = 0; t < g_n; t++)
        if (t != me && (c->r[t] & mask) && (c->r[t] >> 8) > g_vc[me][t] && !stream(g)) race(t, true, false);
      u32 head = (u32)me << 30 | now << 8;
      c->w = (c->w & ~0xffu) == head ? c->w | mask : head | mask;
    } else {
      u32 head = now << 8;
      c->r[me] = (c->r[me] & ~0xffu) == head ? c->r[me] | mask : head | mask;
    }
  }
}
static void point(int kind, u64 addr);
static void access(int kind, void* a, u64 n) {
  point(kind, (u64)a);
  touch((u64)a, n, kind == PK_WRITE);
}

// ------------------------------------------------------------ baton
static void record(int tid, u64 idx, int to, int kind, u64 addr) {
  g_swHash = (g_swHash ^ (u64)(tid * 64 + to * 8 + kind)) * 1099511628211ull;
  if (!((addr >= ARENA && addr < ARENA + ARENA_SZ) || (addr >= (u64)&__data_start && addr < (u64)&_end))) addr = 0;
  g_swHash = (g_swHash ^ (addr & 0xffffff)) * 1099511628211ull;
  if (S->nsw < N_SW) { S->sw[S->nsw++] = Switch{tid, idx, to, addr, kind}; }
  if (g_verbose)
    fprintf(stdout, "  thread %d at its point %llu (%s%s%llx): thread %d goes on\n", tid, idx, PKN[kind],
            addr ? " " : "", addr, to);
}
static void handTo(int to) {
  int me = t_tid;
  g_cur = to;
  g_streak = 0;
  sem_post(&g_th[to].sem);
  while (sem_wait(&g_th[me].sem) != 0) {}
}
static int runnable(int from, bool other) {
  for (int k = other ? 1 : 0; k <= g_n; k++) {
    int t = (from + k) % g_n;
    if (other && t == from) continue;
    if (!g_th[t].done && !g_th[t].waits) return t;
  }
  return -1;
}
static int randomRunnable(int from) {
  int c[MAXT], n = 0;
  for (int t = 0; t < g_n; t++)
    if (t != from && !g_th[t].done && !g_th[t].waits) c[n++] = t;
  return n ? c[g_rng.below(n)] : -1;
}
// explicit switch for this thread at its current point, or -1
static int scripted(int tid, u64 idx) {
  auto& v = *g_script[tid];
  size_t& p = g_scriptPos[tid];
  while (p < v.size() && v[p].idx < idx) p++;
  if (p < v.size() && v[p].idx == idx) return v[p].to;
  return -1;
}
static void tick() {
  if (g_clockJump && (g_total % 1024) == 0 && g_rng.below(8) < g_clockJump) {
    g_clock += 1 + (i64)(g_total % 5);
    S->clockJumps++;
  }
}
static void point(int kind, u64 addr) {
  int me = t_tid;
  Th& th = g_th[me];
  u64 idx = ++th.points;
  g_total++;
  tick();
  if (g_total > 12000000ull) violate("hang", "no completion within %llu scheduling points", g_total);
  bool sync = kind != PK_READ && kind != PK_WRITE && kind != PK_FUNC;
  bool hot = sync || (kind != PK_FUNC && isHot(addr));
  if (hot) S->hot++;
  int to = -1;
  bool forced = ++g_streak > 40000;
  if (forced) to = runnable(me, true);
  else if (g_mode == 0) {
    to = scripted(me, idx);
    if (to >= 0 && (to >= g_n || g_th[to].done || g_th[to].waits || to == me)) to = -1;
  } else if (g_hotBudget) {
    int p = kind == PK_YIELD ? 5000 : sync ? g_pLock : hot ? g_pHot : g_pCold;
    if (p && g_rng.below(10000) < p) { to = randomRunnable(me); g_hotBudget--; }
  }
  if (to < 0) return;
  if (forced) S->forced++;
  else {
    if (hot) S->preemptHot++; else S->preemptCold++;
    record(me, idx, to, kind, addr);
  }
  handTo(to);
}
static bool active() { return g_sim && t_tid >= 0 && !t_off; }
// The current thread cannot go on: somebody else must.
static void blockOn(const void* what) {
  int me = t_tid;
  Th& th = g_th[me];
  u64 idx = ++th.points;
  th.waits = what;
  S->blocked++;
  int to = -1;
  if (g_mode == 0) {
    to = scripted(me, idx);
    if (to >= 0 && (to >= g_n || g_th[to].done || g_th[to].waits)) to = -1;
  } else to = randomRunnable(me);
  int dflt = runnable(me, true);
  if (to < 0) to = dflt;
  if (to < 0) violate("deadlock", "all unfinished threads wait for each other");
  if (to != dflt) record(me, idx, to, PK_BLOCK, 0);
  handTo(to);
}
static void wake(const void* what) {
  for (int t = 0; t < g_n; t++)
    if (g_th[t].waits == what) g_th[t].waits = nullptr;
}
static void finish() {
  int me = t_tid;
  Th& th = g_th[me];
  u64 idx = ++th.points;
  th.done = true;
  int to = -1, dflt = runnable(me, true);
  if (g_mode == 0) {
    to = scripted(me, idx);
    if (to >= 0 && (to >= g_n || g_th[to].done || g_th[to].waits)) to = -1;
  } else to = randomRunnable(me);
  if (to < 0) to = dflt;
  if (to < 0) {
    for (int t = 0; t < g_n; t++)
      if (!g_th[t].done) violate("deadlock", "thread %d waits for a lock that nobody will release", t);
    sem_post(&g_doneSem);
    return;
  }
  if (to != dflt) record(me, idx, to, PK_END, 0);
  g_cur = to;
  g_streak = 0;
  sem_post(&g_th[to].sem);
}
struct Guard { int owner = -1; int depth = 0; int readers = 0; };
static std::unordered_map<const void*, Guard>* g_locks;
struct Off { Off() { t_off++; } ~Off() { t_off--; } };
static Guard& guardOf(const void* m) { return (*g_locks)[m]; }
static int simLock(const void* m, bool recursive, bool tryOnly) {
  Off o;
  point(PK_LOCK, (u64)m);
  for (;;) {
    Guard& g = guardOf(m);
    if (g.owner < 0 && g.readers == 0) { g.owner = t_tid; g.depth = 1; syncAcquire((u64)m); return 0; }
    if (g.owner == t_tid && recursive) { g.depth++; return 0; }
    if (tryOnly) return EBUSY;
    S->lockWaits++;
    blockOn(m);
  }
}
static int simUnlock(const void* m) {
  Off o;
  syncRelease((u64)m);
  Guard& g = guardOf(m);
  if (g.owner == t_tid && --g.depth == 0) { g.owner = -1; wake(m); }
  else if (g.owner < 0 && g.readers > 0) { if (--g.readers == 0) wake(m); }
  point(PK_UNLOCK, (u64)m);
  return 0;
}
static int simRdLock(const void* m) {
  Off o;
  point(PK_LOCK, (u64)m);
  for (;;) {
    Guard& g = guardOf(m);
    if (g.owner < 0) { g.readers++; syncAcquire((u64)m); return 0; }
    blockOn(m);
  }
}
static void simWait(const void* cv) { Off o; blockOn(cv); }
static void simNotify(const void* cv) { Off o; wake(cv); point(PK_YIELD, 0); }

static thread_local bool t_ownClock = false;
void ownClock(bool on) { t_ownClock = on; }
static i64 readClock() {
  if (S && !t_ownClock && S->nclk < N_CLK) {
    bool dup = false;
    for (int i = 0; i < S->nclk; i++) dup |= S->clk[i] == g_clock;
    if (!dup) S->clk[S->nclk++] = g_clock;
  }
  return g_clock;
}

// ------------------------------------------------------------ heap
struct Hdr { u64 size, magic; };
static const u64 LIVE = 0xA11CA7EDA11CA7EDull, DEAD = 0xDEADDEADDEADDEADull;
static void* alloc(size_t n) {
  if (!g_setup && (!g_sim || t_tid < 0 || t_off)) return malloc(n ? n : 1);
  u64 p = g_brk;
  // a spread layout keeps one thread's blocks off another's granules
  g_brk += ((n + 15) & ~15ull) + sizeof(Hdr) + 16;
  if (g_brk > ARENA + ARENA_SZ) violate("out-of-arena", "more than %llu bytes allocated", ARENA_SZ);
  Hdr* h = (Hdr*)p;
  h->size = n;
  h->magic = LIVE;
  void* q = h + 1;
  memset(q, 0xCB, n);
  return q;
}
static void release(void* q) {
  if (!q) return;
  if ((u64)q < ARENA || (u64)q >= ARENA + ARENA_SZ) { free(q); return; }
  Hdr* h = (Hdr*)q - 1;
  if (h->magic == DEAD) violate("double-free", "a block of %llu bytes was released twice", h->size);
  if (h->magic != LIVE) violate("heap-corruption", "a block header was overwritten");
  h->magic = DEAD;
  memset(q, 0xDD, h->size);
}

// ------------------------------------------------------------ one simulated process
struct Start { const Plan* p; int tid; };
static void* threadMain(void* a) {
  Start* s = (Start*)a;
  t_tid = s->tid;
  while (sem_wait(&g_th[t_tid].sem) != 0) {}
  try {
    getProperty()->body(*s->p, s->tid);
  } catch (std::exception& e) {
    violate("exception", "thread %d ended with %s", s->tid, e.what());
  } catch (...) {
    violate("exception", "thread %d ended with an unknown exception", s->tid);
  }
  t_off++;
  finish();
  return nullptr;
}
static void onSignal(int sig) {
  t_off++;
  char b[64];
  snprintf(b, sizeof b, "crash-signal%d", sig);
  violate(b, "thread %d crashed with signal %d", t_tid, sig);
}
static void onTerminate() { violate("terminate", "std::terminate was called in thread %d", t_tid); }
// only >= 0: run that thread alone
static void child(const Plan& p, int only) {
  static char altstack[64 * 1024];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  std::set_terminate(onTerminate);
  if (mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (void*)ARENA ||
      mmap((void*)STACKS, MAXT * STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (void*)STACKS)
    _exit(4);
  auto cells = [](u64 bytes) {
    void* p = mmap(nullptr, (bytes / 8 + 1) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) _exit(4);
    return (Cell*)p;
  };
  g_heapCells = cells(ARENA_SZ);
  g_dataFrom = (u64)&__data_start & ~7ull;
  g_dataTo = (u64)&_end;
  g_dataCells = cells(g_dataTo - g_dataFrom);
  g_sync = new std::unordered_map<u64, Clock>;
  for (int t = 0; t < MAXT; t++) g_vc[t][t] = 1;
  g_locks = new std::unordered_map<const void*, Guard>;
  int T = (int)p.get("threads", 2);
  if (T > MAXT) T = MAXT;
  g_n = T;
  u64 sched = (u64)p.get("sched", 1);
  g_rng = Rng(mix(sched, 0x5C4ED));
  g_mode = only >= 0 || p.get("explicit") ? 0 : 1;
  g_pHot = (int)p.get("phot");
  g_pCold = (int)p.get("pcold");
  g_pLock = (int)p.get("plock");
  g_hotBudget = (u64)p.get("switches", 1000);
  g_clock = p.get("clock", 1500000000);
  g_clockJump = (int)p.get("clockjump");
  for (int t = 0; t < T; t++) g_script[t] = new std::vector<Switch>;
  if (only < 0)
    for (auto& s : p.steps)
      if (s.op == SWITCH_OP && s.a[0] >= 0 && s.a[0] < T) g_script[s.a[0]]->push_back(Switch{(int)s.a[0], (u64)s.a[1], (int)s.a[2], 0, 0});
  for (int t = 0; t < T; t++)
    std::stable_sort(g_script[t]->begin(), g_script[t]->end(), [](const Switch& a, const Switch& b) { return a.idx < b.idx; });
  sem_init(&g_doneSem, 0, 0);
  static Start st[MAXT];
  pthread_t pt[MAXT];
  for (int t = 0; t < T; t++) {
    sem_init(&g_th[t].sem, 0, 0);
    g_th[t].done = only >= 0 && t != only;
    if (g_th[t].done) continue;
    st[t] = Start{&p, t};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)(STACKS + t * STACK_SZ), STACK_SZ);
    if (pthread_create(&pt[t], &at, threadMain, &st[t]) != 0) _exit(4);
  }
  int first = only >= 0 ? only : (int)(p.get("first") % T);
  if (getProperty()->setup) { g_setup = true; getProperty()->setup(p); g_setup = false; }
  g_sim = true;
  g_cur = first;
  sem_post(&g_th[first].sem);
  while (sem_wait(&g_doneSem) != 0) {}
  g_sim = false;
  S->points = g_total;
  S->hash = g_swHash;
  S->state = 1;
  fflush(stdout);
  _exit(0);
}
static void runChild(const Plan& p, int only) {
  memset(S, 0, offsetof(Shared, sw));
  memset(S->trLen, 0, sizeof S->trLen);
  S->points = S->hot = S->hash = S->preemptHot = S->preemptCold = S->forced = S->blocked = S->clockJumps = S->lockWaits = 0;
  memset(S->probes, 0, sizeof S->probes);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) child(p, only);
  if (pid < 0) { fprintf(stderr, "fork failed\n"); _exit(4); }
  int st = 0;
  double t0 = 0;
  for (int spin = 0;; spin++) {
    pid_t r = waitpid(pid, &st, spin < 0 ? 0 : WNOHANG);
    if (r == pid) break;
    struct timespec ts = {0, spin < 50 ? 20000 : 300000};
    nanosleep(&ts, nullptr);
    t0 += (double)ts.tv_nsec * 1e-9;
    if (t0 > 60) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      S->state = 2;
      strcpy(S->cls, "hang-real");
      strcpy(S->msg, "no completion within 60 s of real time");
      break;
    }
  }
  if (S->state == 0) {
    S->state = 2;
    snprintf(S->cls, sizeof S->cls, "crash");
    snprintf(S->msg, sizeof S->msg, "the simulated process ended with status %x", st);
  }
}
}  // namespace tsim
using namespace tsim;

// ------------------------------------------------------------ instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (active()) { Off o; point(PK_FUNC, 0); } }
void __tsan_func_exit() {}
#define RW1(NAME, KIND, N) void NAME##N(void* a) { if (active()) { Off o; access(KIND, a, N); } }
#define RW(N) \
  RW1(__tsan_read, PK_READ, N) RW1(__tsan_write, PK_WRITE, N) RW1(__tsan_unaligned_read, PK_READ, N) \
  RW1(__tsan_unaligned_write, PK_WRITE, N) RW1(__tsan_volatile_read, PK_READ, N) RW1(__tsan_volatile_write, PK_WRITE, N)
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, u64 n) { if (active()) { Off o; access(PK_READ, a, n); } }
void __tsan_write_range(void* a, u64 n) { if (active()) { Off o; access(PK_WRITE, a, n); } }
void __tsan_vptr_update(void** a, void* v) { if (active()) { Off o; point(PK_WRITE, (u64)a); touch((u64)a, 8, *a != v); } }
void __tsan_vptr_read(void** a) { if (active()) { Off o; access(PK_READ, a, 8); } }
// the operation happens where its point is passed; what it orders depends on the order it asks for
#define ATOM(L, ST) if (active()) { Off o; point(PK_ATOMIC, (u64)a); syncAtomic((u64)a, mo, L, ST); }
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { ATOM(true, false) return __atomic_load_n(a, 5); } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { ATOM(false, true) __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { ATOM(true, true) return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { ATOM(true, true) return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { ATOM(true, true) return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { ATOM(true, true) return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { ATOM(true, true) return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { ATOM(true, true) return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { ATOM(true, true) return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { ATOM(true, true) return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { ATOM(true, true) return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { ATOM(true, true) __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { if (active()) { Off o; syncAcquire(FENCE); syncRelease(FENCE); } }
void __tsan_atomic_signal_fence(int) {}
// block copies of instrumented code
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (active()) { Off o; touch((u64)s, n, false); touch((u64)d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (active()) { Off o; touch((u64)s, n, false); touch((u64)d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (active()) { Off o; touch((u64)d, n, true); } return __real_memset(d, c, n); }
// the lock inside atomic operations on shared pointers
void __wrap__ZNSt10_Sp_lockerC1EPKv(void*, const void*) { if (active()) simLock((const void*)2, true, false); }
void __wrap__ZNSt10_Sp_lockerC1EPKvS1_(void*, const void*, const void*) { if (active()) simLock((const void*)2, true, false); }
void __wrap__ZNSt10_Sp_lockerD1Ev(void*) { if (active()) simUnlock((const void*)2); }

int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
static bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return active() ? simLock(m, isRecursive(m), false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return active() ? simLock(m, isRecursive(m), true) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return active() ? simUnlock(m) : __real_pthread_mutex_unlock(m); }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return active() ? simRdLock(m) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return active() ? simLock(m, false, false) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return active() ? simUnlock(m) : __real_pthread_rwlock_unlock(m); }
int __real_pthread_spin_lock(pthread_spinlock_t*);
int __real_pthread_spin_unlock(pthread_spinlock_t*);
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { return active() ? simLock((const void*)m, false, false) : __real_pthread_spin_lock(m); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { return active() ? simUnlock((const void*)m) : __real_pthread_spin_unlock(m); }
int __wrap_sched_yield() { if (active()) { Off o; point(PK_YIELD, 0); } return 0; }
int __real_usleep(unsigned);
int __wrap_usleep(unsigned u) { if (!active()) return __real_usleep(u); Off o; point(PK_YIELD, 0); return 0; }
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* t, struct timespec* r) { if (!active()) return __real_nanosleep(t, r); Off o; point(PK_YIELD, 0); return 0; }

static std::unordered_map<const void*, int>* g_once;   // 1 running, 2 done
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* c, void (*f)()) {
  if (!active()) return __real_pthread_once(c, f);
  {
    Off o;
    if (!g_once) g_once = new std::unordered_map<const void*, int>;
    point(PK_ONCE, (u64)c);
    for (;;) {
      int s = (*g_once)[c];
      if (s == 2) { syncAcquire((u64)c); return 0; }
      if (s == 0) break;
      blockOn(c);
    }
    (*g_once)[c] = 1;
    syncAcquire((u64)c);
  }
  try {
    f();
  } catch (...) {
    Off o;
    syncRelease((u64)c);
    (*g_once)[c] = 0;
    wake(c);
    throw;
  }
  Off o;
  syncRelease((u64)c);
  (*g_once)[c] = 2;
  wake(c);
  point(PK_ONCE, (u64)c);
  return 0;
}
int __real___cxa_guard_acquire(u64*);
void __real___cxa_guard_release(u64*);
void __real___cxa_guard_abort(u64*);
int __wrap___cxa_guard_acquire(u64* g) {
  if (!active()) return __real___cxa_guard_acquire(g);
  Off o;
  point(PK_GUARD, (u64)g);
  for (;;) {
    if (*(volatile char*)g) { syncAcquire((u64)g); return 0; }
    Guard& k = guardOf(g);
    if (k.owner < 0) { k.owner = t_tid; syncAcquire((u64)g); return 1; }
    if (k.owner == t_tid) violate("recursive-init", "a static object is initialised recursively");
    blockOn(g);
  }
}
void __wrap___cxa_guard_release(u64* g) {
  if (!active()) return __real___cxa_guard_release(g);
  Off o;
  syncRelease((u64)g);
  *(volatile char*)g = 1;
  guardOf(g).owner = -1;
  wake(g);
  point(PK_GUARD, (u64)g);
}
void __wrap___cxa_guard_abort(u64* g) {
  if (!active()) return __real___cxa_guard_abort(g);
  Off o;
  syncRelease((u64)g);
  guardOf(g).owner = -1;
  wake(g);
}
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, void*);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* cv, void* lk) {
  if (!active()) return __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(cv, lk);
  auto* u = (std::unique_lock<std::mutex>*)lk;
  pthread_mutex_t* m = u->mutex()->native_handle();
  simUnlock(m);
  simWait(cv);
  simLock(m, false, false);
}
void __real__ZNSt18condition_variable10notify_oneEv(void*);
void __real__ZNSt18condition_variable10notify_allEv(void*);
void __wrap__ZNSt18condition_variable10notify_oneEv(void* cv) { if (!active()) return __real__ZNSt18condition_variable10notify_oneEv(cv); simNotify(cv); }
void __wrap__ZNSt18condition_variable10notify_allEv(void* cv) { if (!active()) return __real__ZNSt18condition_variable10notify_allEv(cv); simNotify(cv); }

void __real_exit(int);
void __wrap_exit(int c) {
  if (g_sim && t_tid >= 0) violate("exit", "thread %d ended the process with status %d", t_tid, c);
  __real_exit(c);
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t) {
  if (!g_sim || t_tid < 0) return __real_time(t);
  Off o;
  i64 v = readClock();
  if (t) *t = (time_t)v;
  return (time_t)v;
}
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
  if (!g_sim || t_tid < 0) return __real_clock_gettime(id, ts);
  Off o;
  ts->tv_sec = (time_t)readClock();
  ts->tv_nsec = 0;
  return 0;
}
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void* z) {
  if (!g_sim || t_tid < 0) return __real_gettimeofday(tv, z);
  Off o;
  tv->tv_sec = (time_t)readClock();
  tv->tv_usec = 0;
  return 0;
}
i64 __real__ZNSt6chrono3_V212system_clock3nowEv();
i64 __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  if (!g_sim || t_tid < 0) return __real__ZNSt6chrono3_V212system_clock3nowEv();
  Off o;
  return readClock() * 1000000000ll;
}
i64 __real__ZNSt6chrono3_V212steady_clock3nowEv();
i64 __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
  if (!g_sim || t_tid < 0) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
  Off o;
  return readClock() * 1000000000ll;
}
unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* p) {
  if (!g_sim || t_tid < 0) return __real__ZNSt13random_device9_M_getvalEv(p);
  return (unsigned)mix(0xA5A5, g_total);
}
}
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }

// ------------------------------------------------------------ plan text
static std::string esc(const std::string& s) {
  static const char* hex = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    if (c > 32 && c < 127 && c != '%') o += (char)c;
    else { o += '%'; o += hex[c >> 4]; o += hex[c & 15]; }
  }
  return o;
}
static std::string unesc(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%' && i + 2 < s.size() + 0) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else o += s[i];
  }
  return o;
}
static void printPlan(FILE* f, const Plan& p) {
  fprintf(f, "plan %s seed %llu\n", p.prop.c_str(), p.seed);
  for (auto& kv : p.cfg) fprintf(f, "cfg %s %lld\n", kv.first.c_str(), kv.second);
  for (auto& s : p.steps)
    fprintf(f, "step op %d args %lld %lld %lld %lld %lld %lld fault %d %lld %lld text .%s\n", s.op, s.a[0], s.a[1],
            s.a[2], s.a[3], s.a[4], s.a[5], s.fk, s.fa, s.fb, esc(s.s).c_str());
}
static bool readPlans(const char* path, std::vector<Plan>& ps) {
  std::ifstream in(path);
  if (!in) return false;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string w;
    ls >> w;
    if (w == "plan") {
      std::string t;
      ps.push_back(Plan());
      ls >> ps.back().prop >> t >> ps.back().seed;
    } else if (ps.empty()) {
      continue;
    } else if (w == "cfg") {
      std::string k;
      i64 v;
      ls >> k >> v;
      ps.back().cfg[k] = v;
    } else if (w == "step") {
      Step s;
      std::string t;
      ls >> t >> s.op >> t;
      for (int i = 0; i < 6; i++) ls >> s.a[i];
      ls >> t >> s.fk >> s.fa >> s.fb >> t >> t;
      s.s = unesc(t.substr(t.empty() ? 0 : 1));
      ps.back().steps.push_back(s);
    }
  }
  return !ps.empty();
}
static Plan makePlan(u64 seed, i64 idx) {
  Plan p;
  p.prop = getProperty()->id;
  p.seed = mix(mix(seed, 0xB0B), (u64)idx);
  Rng r(p.seed);
  getProperty()->gen(r, p);
  // how this run is scheduled
  p.cfg["sched"] = (i64)(r.next() >> 2);
  p.cfg["first"] = r.below(4);
  switch (r.below(5)) {
    case 0: p.cfg["phot"] = 3000; p.cfg["plock"] = 3000; p.cfg["pcold"] = 0; break;
    case 1: p.cfg["phot"] = 300; p.cfg["plock"] = 1000; p.cfg["pcold"] = 20; break;
    case 2: p.cfg["phot"] = 800; p.cfg["plock"] = 500; p.cfg["pcold"] = 2; p.cfg["switches"] = r.range(1, 6); break;
    case 3: p.cfg["phot"] = 200; p.cfg["plock"] = 200; p.cfg["pcold"] = 200; break;
    default: p.cfg["phot"] = 2000; p.cfg["plock"] = 2000; p.cfg["pcold"] = 5; p.cfg["switches"] = r.range(1, 30); break;
  }
  p.cfg["clockjump"] = r.chance(40) ? r.range(1, 8) : 0;
  return p;
}

// ------------------------------------------------------------ executions
static i64 g_curRun = -1;
static struct Tot {
  u64 runs = 0, preempted = 0, points = 0, hot = 0, events = 0;
  u64 preemptHot = 0, preemptCold = 0, forced = 0, blocked = 0, clockJumps = 0, lockWaits = 0;
  std::map<std::string, u64> probes;
} tot;
static std::vector<u64> g_distinct;
static u64 hashBytes(u64 h, const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
struct Verdict { bool bad = false; std::string cls, msg; u64 hash = 0; };
static Verdict runPlan(const Plan& p, bool verbose, bool quietOracle = false) {
  Verdict v;
  g_verbose = verbose;
  runChild(p, -1);
  g_verbose = false;
  tot.points += S->points;
  tot.hot += S->hot;
  tot.preemptHot += S->preemptHot;
  tot.preemptCold += S->preemptCold;
  tot.forced += S->forced;
  tot.blocked += S->blocked;
  tot.clockJumps += S->clockJumps;
  tot.lockWaits += S->lockWaits;
  for (int i = 0; i < N_PROBE && S->probes[i].name[0]; i++) tot.probes[S->probes[i].name] += S->probes[i].n;
  v.hash = S->hash;
  bool nontrivial = S->preemptHot + S->preemptCold > 0;
  if (S->state == 2) {
    v.bad = true;
    v.cls = S->cls;
    v.msg = S->msg;
    return v;
  }
  for (int t = 0; t < MAXT; t++) v.hash = hashBytes(v.hash, S->tr[t], S->trLen[t]);
  for (int i = 0; i < S->nev; i++) v.hash = hashBytes(v.hash, S->ev[i].out, sizeof S->ev[i].out);
  tot.runs++;
  tot.events += (u64)S->nev;
  if (nontrivial) tot.preempted++;
  if (g_distinct.size() < 400000) g_distinct.push_back(nontrivial ? v.hash | 1 : v.hash & ~1ull);
  if (quietOracle) return v;
  int T = (int)p.get("threads", 2);
  if (getProperty()->solo) {
    std::vector<std::string> got;
    for (int t = 0; t < T; t++) got.push_back(std::string((char*)S->tr[t], S->trLen[t]));
    for (int t = 0; t < T; t++) {
      runChild(p, t);
      std::string alone((char*)S->tr[t], S->trLen[t]);
      if (S->state == 2) {
        v.bad = true;
        v.cls = std::string("alone-") + S->cls;
        v.msg = S->msg;
        return v;
      }
      if (alone != got[t]) {
        size_t k = 0;
        while (k < alone.size() && k < got[t].size() && alone[k] == got[t][k]) k++;
        v.bad = true;
        v.cls = "not-as-alone";
        // which operation: transcripts carry a marker before each operation
        std::string op = "?";
        size_t m = got[t].rfind(std::string("\x01OP:"), k);
        if (m != std::string::npos) op = got[t].substr(m + 4, got[t].find('\x02', m) - m - 4);
        v.msg = "thread " + std::to_string(t) + " got another result than alone in " + op;
        return v;
      }
    }
  }
  if (getProperty()->check) {
    g_events.assign(S->ev, S->ev + S->nev);
    g_clocks.assign(S->clk, S->clk + S->nclk);
    // in a process of its own, so that the library is not touched here
    memset(S->msg, 0, sizeof S->msg);
    memset(S->cls, 0, sizeof S->cls);
    S->state = 0;
    pid_t pid = fork();
    if (pid == 0) {
      std::string m = getProperty()->check(p);
      if (!m.empty()) {
        size_t c = m.find(':');
        snprintf(S->cls, sizeof S->cls, "%s", m.substr(0, c).c_str());
        snprintf(S->msg, sizeof S->msg, "%s", m.substr(c + 1).c_str());
        S->state = 2;
      } else S->state = 1;
      _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (S->state != 1) {
      v.bad = true;
      v.cls = S->state == 2 ? S->cls : "oracle-crashed";
      v.msg = S->state == 2 ? S->msg : "the oracle ended unexpectedly";
    }
  }
  return v;
}
static void report(const Verdict& v) {
  printf("VIOL run=%lld class=%s env=0 hash=%llx events=%d msg=%s\n", g_curRun, v.cls.c_str(), v.hash, 0, v.msg.c_str());
  fflush(stdout);
}

int main(int argc, char** argv) {
  std::string mode = argc > 1 ? argv[1] : "";
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  signal(SIGPIPE, SIG_IGN);
  auto opt = [&](const char* k, const char* d) -> std::string {
    for (int i = 2; i + 1 < argc; i++)
      if (!strcmp(argv[i], k)) return argv[i + 1];
    return d;
  };
  u64 seed = strtoull(opt("--seed", "1").c_str(), nullptr, 10);
  if (mode == "gen") {
    g_curRun = atoll(opt("--run", "0").c_str());
    Plan p = makePlan(seed, g_curRun);
    runPlan(p, false, true);
    p.cfg["explicit"] = 1;
    for (int i = 0; i < S->nsw; i++) {
      Step s;
      s.op = SWITCH_OP;
      s.a[0] = S->sw[i].tid;
      s.a[1] = (i64)S->sw[i].idx;
      s.a[2] = S->sw[i].to;
      p.steps.push_back(s);
    }
    printPlan(stdout, p);
    fflush(stdout);
    _exit(0);
  }
  if (mode == "replay") {
    std::vector<Plan> ps;
    if (!readPlans(opt("--plan", "").c_str(), ps)) { fprintf(stderr, "cannot read plan\n"); _exit(4); }
    for (auto& p : ps) {
      Verdict v = runPlan(p, opt("--verbose", "1") == "1");
      if (v.bad) { report(v); _exit(3); }
      if (opt("--verbose", "1") == "1") printf("OK hash=%llx\n", v.hash);
    }
    fflush(stdout);
    _exit(0);
  }
  if (mode != "work") { fprintf(stderr, "usage: work|gen|replay\n"); _exit(4); }
  i64 from = atoll(opt("--from", "0").c_str()), to = atoll(opt("--to", "100").c_str()), stride = atoll(opt("--stride", "1").c_str());
  double limit = atof(opt("--limit", "60").c_str());
  std::string prog = opt("--progress", "");
  i64* progress = nullptr;
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) progress = (i64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  struct timespec t0, t1;
  __real_clock_gettime(CLOCK_MONOTONIC, &t0);
  bool timeUp = false;
  i64 idx = from;
  for (; idx < to; idx += stride) {
    g_curRun = idx;
    if (progress) *progress = idx;
    Plan p = makePlan(seed, idx);
    Verdict v = runPlan(p, false);
    if (v.bad) { report(v); _exit(3); }
    __real_clock_gettime(CLOCK_MONOTONIC, &t1);
    if ((double)(t1.tv_sec - t0.tv_sec) > limit) { timeUp = true; idx += stride; break; }
  }
  printf("STATS {\"runs\": %llu, \"runs_with_faults\": %llu, \"events\": %llu, \"steps\": %llu, \"blocks\": 0, \"time_up\": %d, \"next\": %lld, "
         "\"faults\": {\"preemption_at_shared_access\": %llu, \"preemption_elsewhere\": %llu, \"forced_switch\": %llu, \"blocked_on_lock\": %llu, \"clock_jump\": %llu}, \"probes\": {\"shared_accesses\": %llu, \"lock_contention\": %llu",
         tot.runs, tot.preempted, tot.events, tot.points, timeUp ? 1 : 0, idx, tot.preemptHot, tot.preemptCold, tot.forced, tot.blocked, tot.clockJumps, tot.hot, tot.lockWaits);
  for (auto& kv : tot.probes) printf(", \"%s\": %llu", kv.first.c_str(), kv.second);
  printf("}}\n");
  std::string hp = opt("--hashes", "");
  if (!hp.empty()) {
    FILE* f = fopen(hp.c_str(), "wb");
    if (f) { fwrite(g_distinct.data(), 8, g_distinct.size(), f); fclose(f); }
  }
  fflush(stdout);
  _exit(0);
}
