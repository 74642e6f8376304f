// Deterministic simulation runtime, world B: several simulated threads, one of
// which runs at a time; a seeded scheduler decides at every instrumented
// memory access, lock, once and atomic operation who goes on.
#ifndef VERIF_TSIM_H
#define VERIF_TSIM_H
#include "sim.h"
namespace tsim {
using sim::i64;
using sim::u64;
using sim::Plan;
using sim::Rng;
using sim::Step;
struct Event {                 // one completed operation of a thread
  int tid;
  int step;                    // index in the plan
  u64 inv, resp;               // logical times
  u64 out[4];                  // result bits
};
struct Ctx {
  const Plan* plan;
  int threads;
};
// in thread bodies
int self();
u64 now();                                    // advances the logical time
void emit(const void* p, size_t n);           // appends to the thread's transcript
void emitU(u64 v);
void emitD(double v);
void emitS(const std::string& s);
void event(const Event& e);
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char* name);
// in checks, run in the parent after the simulated process ended
const std::vector<Event>& events();
const std::vector<i64>& clockReadings();
void ownClock(bool on);      // this thread's readings are not recorded while on
struct Property {
  const char* id;
  void (*gen)(Rng&, Plan&);
  void (*body)(const Plan&, int tid);         // one simulated thread
  bool solo;                                  // compare every thread with running alone
  // oracle over the history, in a process of its own; empty = fine
  std::string (*check)(const Plan&);
  // builds what the threads share, before any of them starts
  void (*setup)(const Plan&) = nullptr;
};
Property* getProperty();
}  // namespace tsim
#endif
