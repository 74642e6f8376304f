// World A runtime.  Compiled without instrumentation and linked last, so the
// library and the workloads keep their instrumented template instances.
#include "sim.h"
#include <cstdarg>

#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <random>
#include <unordered_set>

extern "C" {
void __asan_poison_memory_region(void const volatile*, size_t);
void __asan_unpoison_memory_region(void const volatile*, size_t);
const char* __asan_get_report_description();
void __real_exit(int) __attribute__((noreturn));
void __real__exit(int) __attribute__((noreturn));
void __real_abort() __attribute__((noreturn));
time_t __real_time(time_t*);
}

namespace sim {

int g_inlib = 0;
Run* g_run = nullptr;
std::function<u64(u64)> g_engineHook;

// ---------------------------------------------------------------- state
static bool g_active = false;      // a simulated execution is in progress
static int g_env = 0;
static int g_fill = 0;             // leftover contents of heap and stack
static int g_guard = 0;            // inside the first use of a local static
static i64 g_clock = 1500000000;
static u64 g_ambient = 0;
static u64 g_ambientDraws = 0;
static u64 g_draws = 0;
static u64 g_steps = 0, g_budget = 60000000ull, g_totalSteps = 0;
static Arm g_arm;
static bool g_fired = false;
static u64 g_callAllocs = 0, g_callbacks = 0, g_allocSeq = 0;
static jmp_buf* g_callJmp = nullptr;
static int g_exitCode = 0;
static i64 g_curRun = -1;
static i64* g_progress = nullptr;
static FILE* g_out = stdout;

u64 mix(u64 a, u64 b) {
  Rng r(a ^ (b * 0xD6E8FEB86659FD93ull));
  r.next();
  return r.next() ^ b;
}

// ---------------------------------------------------------------- counters
struct Counter {
  const char* name;
  u64 n;
};
static Counter g_faults[64], g_probes[128];
static void bump(Counter* t, int cap, const char* name) {
  for (int i = 0; i < cap; i++) {
    if (!t[i].name) t[i].name = name;
    if (t[i].name == name || !strcmp(t[i].name, name)) {
      t[i].n++;
      return;
    }
  }
}
void fault(const char* name) {
  bump(g_faults, 64, name);
  g_fired = true;
  if (g_run) g_run->faultsFired++;
}
void probe(const char* name) { bump(g_probes, 128, name); }

// ---------------------------------------------------------------- reporting
static char g_cls[128];
static bool g_reported = false;
static void emit(const char* cls, const char* msg) {
  if (g_reported) return;
  g_reported = true;
  char buf[4096];
  int n = snprintf(buf, sizeof buf, "VIOL run=%lld class=%s env=%d hash=%llx events=%zu msg=%s\n",
                   g_curRun, cls, g_env, g_run ? g_run->hash : 0ull,
                   g_run ? g_run->events.size() : (size_t)0, msg);
  fflush(g_out);
  ssize_t w = write(fileno(g_out), buf, (size_t)std::min<int>(n, (int)sizeof buf - 1));
  (void)w;
}
void violate(const char* cls, const char* fmt, ...) {
  g_inlib = 0;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  for (char* p = buf; *p; p++)
    if ((unsigned char)*p < 32 || (unsigned char)*p > 126) *p = '?';
  snprintf(g_cls, sizeof g_cls, "%s", cls);
  emit(cls, buf);
  __real__exit(3);
}

void Run::log(const char* fmt, ...) {
  int old = g_inlib;
  g_inlib = 0;
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = (int)sizeof buf - 1;
  for (int i = 0; i < n; i++) hash = (hash ^ (unsigned char)buf[i]) * 1099511628211ull;
  hash = (hash ^ 10) * 1099511628211ull;
  events.push_back(hash);
  if (verbose) {
    for (int i = 0; i < n; i++)
      if ((unsigned char)buf[i] < 32 || (unsigned char)buf[i] > 126) buf[i] = '?';
    fprintf(g_out, "  [%d:%zu] %s\n", g_env, events.size(), buf);
    fflush(g_out);
  }
  if (expect) {
    size_t i = events.size() - 1;
    if (i >= expect->size() || (*expect)[i] != hash)
      violate("not-repeatable",
              "same plan, other leftover memory/addresses/ambient values: event %zu "
              "differs: %s", i, buf);
  }
  g_inlib = old;
}
void Run::logd(const char* what, double d) {
  u64 b;
  memcpy(&b, &d, 8);
  if (d != d) b = 0x7ff8000000000000ull;
  log("%s %.17g %llx", what, d, b);
}
void Run::logs(const char* what, const std::string& s) {
  int old = g_inlib;
  g_inlib = 0;
  u64 h = 1469598103934665603ull;
  for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull;
  std::string cut = s.substr(0, 300);
  log("%s %zu:%llx:%s", what, s.size(), h, cut.c_str());
  g_inlib = old;
}

// ---------------------------------------------------------------- heap
static const uintptr_t ARENA = 0x300000000000ull;
static const size_t ARENA_SZ = 4096ull << 20;
static const size_t HUGE_REQ = 64ull << 20;
struct Hdr {
  u64 magic;
  u64 size;
  u32 kind;
  u32 state;
  u64 seq;
  void* prev;
  void* next;
  u64 pad[2];
};
static_assert(sizeof(Hdr) == 64, "");
static const u64 MAGIC = 0x51AC0FFEE51AC0FEull;
static uintptr_t g_lo, g_hi;       // free part of the arena
static Hdr g_list;                 // live blocks, in allocation order
static size_t g_live = 0, g_liveBytes = 0;

static void heapInit() {
  void* p = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)ARENA) {
    fprintf(stderr, "sim: arena\n");
    __real__exit(4);
  }
}
static uintptr_t g_loBase = ARENA, g_hiBase = ARENA + ARENA_SZ;
static void heapReset() {
  if (!g_lo) {
    g_lo = g_loBase;
    g_hi = g_hiBase;
    g_list.prev = g_list.next = &g_list;
  }
  if (g_live) {
    // Process-lifetime blocks stay where they are and stay valid.
    for (Hdr* h = (Hdr*)g_list.next; h != &g_list; h = (Hdr*)h->next) h->state = 3;
    g_loBase = g_lo;
    g_hiBase = g_hi;
  } else {
    size_t used = g_lo - g_loBase, usedTop = g_hiBase - g_hi;
    if (used) __asan_unpoison_memory_region((void*)g_loBase, used);
    if (usedTop) __asan_unpoison_memory_region((void*)g_hi, usedTop);
    if (used > (32u << 20)) {
      uintptr_t x = (g_loBase + 4095) & ~4095ull;
      madvise((void*)x, (g_lo - x) & ~4095ull, MADV_DONTNEED);
    }
    if (usedTop > (32u << 20)) {
      uintptr_t x = (g_hi + 4095) & ~4095ull;
      madvise((void*)x, (g_hiBase - x) & ~4095ull, MADV_DONTNEED);
    }
    g_lo = g_loBase;
    g_hi = g_hiBase;
  }
  g_list.prev = g_list.next = &g_list;
  g_live = g_liveBytes = 0;
}
size_t liveBlocks() { return g_live; }
size_t liveBytes() { return g_liveBytes; }
u64 allocSeq() { return g_allocSeq; }
std::string describeLive(int max) {
  std::string s;
  int n = 0;
  for (Hdr* h = (Hdr*)g_list.next; h != &g_list && n < max; h = (Hdr*)h->next, n++) {
    s += (n ? ", #" : "#") + std::to_string(h->seq) + " size " + std::to_string(h->size);
  }
  return s;
}

static bool armedOom(size_t n) {
  switch (g_arm.kind) {
    case F_OOM_ONE:
    case F_OOM_SCAN:
      return (i64)g_callAllocs == g_arm.k;
    case F_OOM_FROM:
      return (i64)g_callAllocs >= g_arm.k;
    case F_OOM_SIZE:
      return (i64)n >= g_arm.k;
  }
  return false;
}

static void* simAlloc(size_t n, size_t align, u32 kind, bool nothrow) {
  if (!g_inlib || !g_active || g_guard) {   // lazily created constants live as long as the process
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p) {
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    return p;
  }
  bool failNow = armedOom(n);
  g_callAllocs++;
  g_allocSeq++;
  if (failNow) {
    fault(g_arm.kind == F_OOM_FROM ? "alloc_fail_from" : g_arm.kind == F_OOM_SIZE ? "alloc_fail_large" : "alloc_fail_once");
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  if (n > HUGE_REQ) {
    probe("huge_request");
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  size_t body = (n + 15) & ~size_t(15);
  size_t total = sizeof(Hdr) + body + 32;
  if (align > 16) total += align;
  if (g_lo + total + 64 > g_hi) {
    probe("arena_full");
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  uintptr_t base;
  if (g_env == 0) {
    base = g_lo;
    g_lo += total;
  } else {
    g_hi -= total;
    base = g_hi;
  }
  uintptr_t user = base + sizeof(Hdr);
  if (align > 16) user = (user + align - 1) & ~(align - 1);
  Hdr* h = (Hdr*)(user - sizeof(Hdr));
  h->magic = MAGIC ^ user;
  h->size = n;
  h->kind = kind;
  h->state = 1;
  h->seq = g_allocSeq;
  h->prev = g_list.prev;
  h->next = &g_list;
  ((Hdr*)g_list.prev)->next = h;
  g_list.prev = h;
  memset((void*)user, g_fill, body);
  __asan_poison_memory_region((void*)base, total);
  __asan_unpoison_memory_region((void*)user, n);
  g_live++;
  g_liveBytes += n;
  return (void*)user;
}
static void simFree(void* p, u32 kind) {
  if (!p) return;
  uintptr_t u = (uintptr_t)p;
  if (u < ARENA || u >= ARENA + ARENA_SZ) {
    free(p);
    return;
  }
  Hdr* h = (Hdr*)(u - sizeof(Hdr));
  if (u < ARENA + sizeof(Hdr) || h->magic != (MAGIC ^ u))
    violate("bad-free", "release of an address that is no block");
  if (h->state == 3) {
    h->state = 2;
    return;
  }
  if (h->state != 1)
    violate("double-free", "block #%llu of %llu bytes released twice", h->seq, h->size);
  if ((h->kind & 1) != (kind & 1))
    violate("mismatched-free", "block #%llu: array and single forms of new/delete mixed", h->seq);
  h->state = 2;
  ((Hdr*)h->prev)->next = h->next;
  ((Hdr*)h->next)->prev = h->prev;
  memset(p, g_env == 0 ? 0xFD : g_fill ^ 0x0C, h->size);
  __asan_poison_memory_region(p, h->size);
  g_live--;
  g_liveBytes -= h->size;
}

// ---------------------------------------------------------------- calls
const char* outcomeName(Outcome o) {
  static const char* n[] = {"ok", "bad_alloc", "user-exception", "other-exception", "exit", "abort"};
  return n[o];
}
void setBudget(u64 s) { g_budget = s; }

void userPoint() {
  if (g_arm.kind == F_THROW_ONE || g_arm.kind == F_THROW_SCAN) {
    i64 i = (i64)g_callbacks++;
    if (i == g_arm.k) {
      fault("user_callback_throw");
      throw UserError{(int)i};
    }
  } else {
    g_callbacks++;
  }
}

static void __attribute__((noinline)) fillStack(int v, size_t n) {
  char* p = (char*)__builtin_alloca(n);
  memset(p, v, n);
  asm volatile("" : : "r"(p) : "memory");
}
static void onTerminate() {
  if (g_callJmp) longjmp(*g_callJmp, 2);
  emit("terminate", "std::terminate outside a call");
  __real__exit(3);
}

CallInfo call(const Arm& arm, const std::function<void()>& fn) {
  CallInfo ci;
  if (g_callJmp) {
    fprintf(stderr, "sim: nested call\n");
    __real__exit(4);
  }
  g_arm = arm;
  g_fired = false;
  g_callAllocs = 0;
  g_callbacks = 0;
  g_steps = 0;
  g_guard = 0;
  fillStack(g_fill, 12 * 1024);
  jmp_buf jb;
  g_callJmp = &jb;
  int jr = _setjmp(jb);
  if (jr == 0) {
    try {
      Lib l;
      fn();
      ci.out = O_OK;
    } catch (std::bad_alloc&) {
      ci.out = O_BADALLOC;
    } catch (UserError&) {
      ci.out = O_USER;
    } catch (std::exception& e) {
      Out o;
      ci.out = O_OTHER;
      ci.what = e.what();
    } catch (...) {
      ci.out = O_OTHER;
      ci.what = "?";
    }
  } else {
    g_inlib = 0;
    ci.out = jr == 1 ? O_EXIT : O_ABORT;
    ci.exitCode = g_exitCode;
  }
  g_callJmp = nullptr;
  g_arm = Arm();
  ci.fired = g_fired;
  ci.allocs = g_callAllocs;
  ci.callbacks = g_callbacks;
  ci.steps = g_steps;
  g_totalSteps += g_steps;
  return ci;
}

// ---------------------------------------------------------------- clock etc.
void setClock(i64 t) { g_clock = t; }
void ambient(u64 v) { g_ambient = v; }
int envIndex() { return g_env; }
u64 engineDraws() { return g_draws; }

// ---------------------------------------------------------------- stderr
struct ErrBuf : std::streambuf {
  std::string got;
  SinkMode mode = SINK_OK;
  i64 at = 0;
  int_type overflow(int_type c) override {
    if (c == traits_type::eof()) return 0;
    Out o;
    if (mode != SINK_OK && (i64)got.size() >= at) {
      fault("stderr_broken");
      if (mode == SINK_THROW_AT) throw std::runtime_error("simulated stderr failure");
      return traits_type::eof();
    }
    got.push_back((char)c);
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    std::streamsize i = 0;
    for (; i < n; i++)
      if (overflow((unsigned char)s[i]) == traits_type::eof()) break;
    return i;
  }
};
static ErrBuf* g_err = nullptr;
std::string takeStderr() {
  std::string s = g_err->got;
  g_err->got.clear();
  return s;
}
void setStderrSink(SinkMode m, i64 at) {
  g_err->mode = m;
  g_err->at = at;
}

// ---------------------------------------------------------------- coverage
static const size_t COV_SZ = 1 << 16;
static unsigned char g_cov[COV_SZ];

}  // namespace sim
using namespace sim;

extern "C" {
void __sanitizer_cov_trace_pc() {
  if (!g_inlib) return;
  u64 pc = (u64)__builtin_return_address(0);
  g_cov[(pc * 0x9E3779B97F4A7C15ull) >> 48] = 1;
  if (++g_steps > g_budget) {
    g_inlib = 0;
    violate("hang", "no completion within %llu basic-block steps", (unsigned long long)g_budget);
  }
}
std::uint64_t verif_engine_output(std::uint64_t real) {
  if (!g_inlib) return real;
  g_draws++;
  if (g_engineHook) {
    Out o;
    return g_engineHook(real);
  }
  return real;
}
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g) {
  int r = __real___cxa_guard_acquire(g);
  if (r && g_inlib) g_guard++;
  return r;
}
void __wrap___cxa_guard_release(void* g) {
  if (g_guard) g_guard--;
  __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(void* g) {
  if (g_guard) g_guard--;
  __real___cxa_guard_abort(g);
}
void __wrap_exit(int code) {
  if (g_callJmp) {
    g_exitCode = code;
    longjmp(*g_callJmp, 1);
  }
  __real_exit(code);
}
void __wrap__exit(int code) { __wrap_exit(code); }
void __wrap__Exit(int code) { __wrap_exit(code); }
void __wrap_quick_exit(int code) { __wrap_exit(code); }
void __wrap_abort() {
  if (g_callJmp) longjmp(*g_callJmp, 2);
  __real_abort();
}
// standard error as a C stream or descriptor: the same simulated sink
static size_t cErr(const char* s, size_t n) {
  std::streamsize k = 0;
  try { k = g_err->sputn(s, (std::streamsize)n); } catch (...) { k = 0; }
  return (size_t)k;
}
int __real_vfprintf(FILE*, const char*, va_list);
int __wrap_vfprintf(FILE* f, const char* fmt, va_list ap) {
  if (!g_inlib || f != stderr) return __real_vfprintf(f, fmt, ap);
  Out o;
  char buf[4096];
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  if (n > (int)sizeof buf - 1) n = (int)sizeof buf - 1;
  return cErr(buf, (size_t)n) == (size_t)n ? n : -1;
}
int __wrap_fprintf(FILE* f, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int n = __wrap_vfprintf(f, fmt, ap);
  va_end(ap);
  return n;
}
int __wrap___fprintf_chk(FILE* f, int, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int n = __wrap_vfprintf(f, fmt, ap);
  va_end(ap);
  return n;
}
int __wrap___vfprintf_chk(FILE* f, int, const char* fmt, va_list ap) { return __wrap_vfprintf(f, fmt, ap); }
int __real_fputs(const char*, FILE*);
int __wrap_fputs(const char* s, FILE* f) {
  if (!g_inlib || f != stderr) return __real_fputs(s, f);
  return cErr(s, strlen(s)) == strlen(s) ? 1 : EOF;
}
int __real_fputc(int, FILE*);
int __wrap_fputc(int c, FILE* f) {
  if (!g_inlib || f != stderr) return __real_fputc(c, f);
  char ch = (char)c;
  return cErr(&ch, 1) == 1 ? c : EOF;
}
int __wrap_putc(int c, FILE* f) { return __wrap_fputc(c, f); }
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
size_t __wrap_fwrite(const void* p, size_t a, size_t b, FILE* f) {
  if (!g_inlib || f != stderr) return __real_fwrite(p, a, b, f);
  size_t k = cErr((const char*)p, a * b);
  return a ? k / a : 0;
}
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* p, size_t n) {
  if (!g_inlib || fd != 2) return __real_write(fd, p, n);
  size_t k = cErr((const char*)p, n);
  return k || !n ? (ssize_t)k : -1;
}
int __real_fflush(FILE*);
int __wrap_fflush(FILE* f) { return g_inlib && f == stderr ? 0 : __real_fflush(f); }
time_t __wrap_time(time_t* t) {
  if (g_inlib) probe("clock_read");
  if (t) *t = (time_t)g_clock;
  return (time_t)g_clock;
}
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
  if (!g_inlib) return __real_clock_gettime(id, ts);
  probe("clock_read");
  ts->tv_sec = (time_t)g_clock;
  ts->tv_nsec = (long)(mix(g_ambient, ++g_ambientDraws) % 1000000000ull);
  return 0;
}
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void* z) {
  if (!g_inlib) return __real_gettimeofday(tv, z);
  tv->tv_sec = (time_t)g_clock;
  tv->tv_usec = (long)(mix(g_ambient, ++g_ambientDraws) % 1000000ull);
  return 0;
}
clock_t __real_clock();
clock_t __wrap_clock() {
  if (!g_inlib) return __real_clock();
  return (clock_t)(mix(g_ambient, ++g_ambientDraws) % 100000000ull);
}
// std::chrono::system_clock::now() and steady_clock::now(): nanoseconds
i64 __real__ZNSt6chrono3_V212system_clock3nowEv();
i64 __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  if (!g_inlib) return __real__ZNSt6chrono3_V212system_clock3nowEv();
  return g_clock * 1000000000ll + (i64)(mix(g_ambient, ++g_ambientDraws) % 1000000000ull);
}
i64 __real__ZNSt6chrono3_V212steady_clock3nowEv();
i64 __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
  if (!g_inlib) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
  return g_clock * 1000000000ll + (i64)(mix(g_ambient, ++g_ambientDraws) % 1000000000ull);
}
unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* p) {
  if (!g_inlib) return __real__ZNSt13random_device9_M_getvalEv(p);
  return (unsigned)mix(g_ambient, ++g_ambientDraws);
}
int __real_rand();
int __wrap_rand() {
  if (!g_inlib) return __real_rand();
  return (int)(mix(g_ambient, ++g_ambientDraws) & 0x7fffffff);
}
long __real_random();
long __wrap_random() {
  if (!g_inlib) return __real_random();
  return (long)(mix(g_ambient, ++g_ambientDraws) & 0x7fffffff);
}
int __real_getpid();
int __wrap_getpid() {
  if (!g_inlib) return __real_getpid();
  return (int)(g_ambient % 30000) + 2;
}
const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "exitcode=77:handle_abort=1:alloc_dealloc_mismatch=0:detect_container_overflow=0:"
         "print_summary=1:symbolize=0:max_malloc_fill_size=0:quarantine_size_mb=8:"
         "thread_local_quarantine_size_kb=64";
}
void __asan_on_error() {
  g_inlib = 0;
  const char* d = __asan_get_report_description();
  char cls[128];
  snprintf(cls, sizeof cls, "memory-%s", d && *d ? d : "error");
  for (char* p = cls; *p; p++)
    if (*p == ' ' || *p == '\n') *p = '-';
  emit(cls, "memory error detected inside the code under test");
}
}

// ---------------------------------------------------------------- new/delete
void* operator new(size_t n) { return simAlloc(n, 16, 0, false); }
void* operator new[](size_t n) { return simAlloc(n, 16, 1, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simAlloc(n, 16, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simAlloc(n, 16, 1, true); }
void operator delete(void* p) noexcept { simFree(p, 0); }
void operator delete[](void* p) noexcept { simFree(p, 1); }
void operator delete(void* p, size_t) noexcept { simFree(p, 0); }
void operator delete[](void* p, size_t) noexcept { simFree(p, 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simFree(p, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simFree(p, 1); }

// ---------------------------------------------------------------- plan text
static std::string esc(const std::string& s) {
  static const char* hex = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    if (c > 32 && c < 127 && c != '%') o += (char)c;
    else {
      o += '%';
      o += hex[c >> 4];
      o += hex[c & 15];
    }
  }
  return o;
}
static std::string unesc(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1) {
      o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else {
      o += s[i];
    }
  }
  return o;
}
static void printPlan(FILE* f, const Plan& p) {
  fprintf(f, "plan %s seed %llu\n", p.prop.c_str(), p.seed);
  for (auto& kv : p.cfg) fprintf(f, "cfg %s %lld\n", kv.first.c_str(), kv.second);
  for (auto& s : p.steps)
    fprintf(f, "step op %d args %lld %lld %lld %lld %lld %lld fault %d %lld %lld text .%s\n", s.op,
            s.a[0], s.a[1], s.a[2], s.a[3], s.a[4], s.a[5], s.fk, s.fa, s.fb, esc(s.s).c_str());
}
static bool readPlans(const char* path, std::vector<Plan>& ps) {
  std::ifstream in(path);
  if (!in) return false;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string w;
    ls >> w;
    if (w == "plan") {
      std::string t;
      ps.push_back(Plan());
      ls >> ps.back().prop >> t >> ps.back().seed;
    } else if (ps.empty()) {
      continue;
    } else if (w == "cfg") {
      std::string k;
      i64 v;
      ls >> k >> v;
      ps.back().cfg[k] = v;
    } else if (w == "step") {
      Step s;
      std::string t;
      ls >> t >> s.op >> t;
      for (int i = 0; i < 6; i++) ls >> s.a[i];
      ls >> t >> s.fk >> s.fa >> s.fb >> t >> t;
      s.s = unesc(t.substr(t.empty() ? 0 : 1));
      ps.back().steps.push_back(s);
    }
  }
  return !ps.empty();
}

// ---------------------------------------------------------------- executions
static void execOnce(const Plan& p, int env, Run& r) {
  g_env = env;
  g_run = &r;
  static const unsigned char fills[] = {0xD7, 0xD7, 0xD7, '{', '}', ',', ']', '"', '0', ' ', 0x01, 0xFF, 0x80, '=', '%', '\n'};
  g_fill = env == 0 ? 0 : fills[mix(p.seed, 4242) % sizeof fills];
  g_guard = 0;
  heapReset();
  g_active = true;
  g_inlib = 0;
  g_clock = p.get("clock", 1500000000);
  g_ambient = mix(p.seed, 77 + (u64)env);
  g_ambientDraws = 0;
  g_draws = 0;
  g_engineHook = nullptr;
  g_allocSeq = 0;
  g_budget = 60000000ull;
  g_err->got.clear();
  g_err->mode = SINK_OK;
  std::cerr.clear();
  std::cout.clear();
  std::clog.clear();
  fillStack(g_fill, 96 * 1024);
  getProperty()->exec(p);
  g_engineHook = nullptr;
  g_active = false;
  g_run = nullptr;
}

static std::vector<u64> g_distinct;
static u64 g_runs = 0, g_runsFaulty = 0, g_events = 0;

static void runPlan(const Plan& p, bool verbose) {
  Run a;
  a.verbose = verbose;
  alarm(120);
  execOnce(p, 0, a);
  Run b;
  b.verbose = verbose;
  b.expect = &a.events;
  execOnce(p, 1, b);
  g_run = &b;
  if (a.hash != b.hash || a.events.size() != b.events.size())
    violate("not-repeatable", "transcripts of the two executions differ in length (%zu, %zu)",
            a.events.size(), b.events.size());
  g_run = nullptr;
  g_runs++;
  g_events += a.events.size();
  if (a.faultsFired) g_runsFaulty++;
  if (g_distinct.size() < 400000) g_distinct.push_back(a.faultsFired ? (a.hash | 1) : (a.hash & ~1ull));
  if (verbose)
    fprintf(g_out, "OK hash=%llx events=%zu faults=%llu\n", a.hash, a.events.size(), a.faultsFired);
}
static Plan makePlan(u64 seed, i64 idx) {
  Plan p;
  p.prop = getProperty()->id;
  p.seed = mix(mix(seed, 0xC0FFEE), (u64)idx);
  Rng r(p.seed);
  getProperty()->gen(r, p);
  return p;
}
static void onAlarm(int) {
  g_inlib = 0;
  emit("hang-real", "no completion within 120 s of real time");
  __real__exit(3);
}
static void warmUp() {
  // Everything the standard library allocates lazily, before simulation.
  std::ostringstream o;
  o << 1 << 1.5 << "x" << std::string("y") << 'c' << true << 1.5f << 10000000000ull;
  std::istringstream i("1 2.5 x");
  int a;
  double b;
  std::string c;
  i >> a >> b >> c;
  std::cerr << "";
}

int main(int argc, char** argv) {
  std::string mode = argc > 1 ? argv[1] : "";
  heapInit();
  g_err = new ErrBuf;
  std::cerr.rdbuf(g_err);
  std::clog.rdbuf(g_err);
  std::cerr.unsetf(std::ios::unitbuf);
  std::set_terminate(onTerminate);
  signal(SIGALRM, onAlarm);
  signal(SIGPIPE, SIG_IGN);
  warmUp();
  if (getProperty()->warm) getProperty()->warm();
  auto opt = [&](const char* k, const char* d) -> std::string {
    for (int i = 2; i + 1 < argc; i++)
      if (!strcmp(argv[i], k)) return argv[i + 1];
    return d;
  };
  u64 seed = strtoull(opt("--seed", "1").c_str(), nullptr, 10);
  if (mode == "gen") {
    g_curRun = atoll(opt("--run", "0").c_str());
    i64 last = atoll(opt("--last", "-1").c_str()), by = atoll(opt("--stride", "1").c_str());
    for (i64 i = g_curRun; i == g_curRun || i <= last; i += by) printPlan(stdout, makePlan(seed, i));
    fflush(stdout);
    __real__exit(0);
  }
  if (mode == "replay") {
    std::vector<Plan> ps;
    if (!readPlans(opt("--plan", "").c_str(), ps)) {
      fprintf(stderr, "cannot read plan\n");
      __real__exit(4);
    }
    for (auto& p : ps) runPlan(p, opt("--verbose", "1") == "1");
    fflush(stdout);
    __real__exit(0);
  }
  if (mode != "work") {
    fprintf(stderr, "usage: work|gen|replay\n");
    __real__exit(4);
  }
  i64 from = atoll(opt("--from", "0").c_str()), to = atoll(opt("--to", "100").c_str()),
      stride = atoll(opt("--stride", "1").c_str());
  double limit = atof(opt("--limit", "60").c_str());
  std::string prog = opt("--progress", "");
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, 4096) == 0)
      g_progress = (i64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  double t0 = (double)std::chrono::duration_cast<std::chrono::milliseconds>(
                  std::chrono::steady_clock::now().time_since_epoch()).count() / 1000.0;
  bool timeUp = false;
  i64 idx = from;
  for (; idx < to; idx += stride) {
    g_curRun = idx;
    if (g_progress) *g_progress = idx;
    Plan p = makePlan(seed, idx);
    runPlan(p, false);
    double t = (double)std::chrono::duration_cast<std::chrono::milliseconds>(
                   std::chrono::steady_clock::now().time_since_epoch()).count() / 1000.0;
    // What ended runs leave behind fills memory: go on in a fresh process.
    bool full = g_loBase - ARENA + (ARENA + ARENA_SZ - g_hiBase) > (512ull << 20);
    if (!full && (g_runs & 1023) == 0) {
      long pages = 0;
      FILE* f = fopen("/proc/self/statm", "r");
      if (f) { if (fscanf(f, "%*d %ld", &pages) != 1) pages = 0; fclose(f); }
      full = pages > (2ll << 30) / 4096;
    }
    if (full) { idx += stride; break; }
    if (t - t0 > limit) {
      timeUp = true;
      idx += stride;
      break;
    }
  }
  size_t cov = 0;
  for (size_t i = 0; i < COV_SZ; i++) cov += g_cov[i];
  fprintf(g_out, "STATS {\"runs\": %llu, \"runs_with_faults\": %llu, \"events\": %llu, \"steps\": %llu, "
          "\"blocks\": %zu, \"time_up\": %d, \"next\": %lld, \"faults\": {",
          g_runs, g_runsFaulty, g_events, g_totalSteps, cov, timeUp ? 1 : 0, idx);
  for (int i = 0; i < 64 && g_faults[i].name; i++)
    fprintf(g_out, "%s\"%s\": %llu", i ? ", " : "", g_faults[i].name, g_faults[i].n);
  fprintf(g_out, "}, \"probes\": {");
  for (int i = 0; i < 128 && g_probes[i].name; i++)
    fprintf(g_out, "%s\"%s\": %llu", i ? ", " : "", g_probes[i].name, g_probes[i].n);
  fprintf(g_out, "}}\n");
  std::string hp = opt("--hashes", "");
  if (!hp.empty()) {
    FILE* f = fopen(hp.c_str(), "wb");
    if (f) {
      fwrite(g_distinct.data(), 8, g_distinct.size(), f);
      fclose(f);
    }
  }
  fflush(g_out);
  __real__exit(0);
}
