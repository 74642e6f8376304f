// The element type that simulated users put into containers: it owns memory,
// can be copied only, and its copy, assignment and comparison are the points
// where a user's own code may fail.  With ELEM_MOVES it is called MElem and can
// be moved from as well, which leaves nothing in it.
#ifndef VERIF_ELEM_H
#define VERIF_ELEM_H
#include "sim.h"
#ifdef ELEM_MOVES
#define Elem MElem
#endif
struct Box {
  int v;
  int canary;
};
struct Elem {
  static long live;
  Box* b;
  bool counted = sim::g_inlib != 0;   // created by the code under test
  void mk(int v) {
    b = new Box;
    b->v = v;
    b->canary = ~v;
  }
  Elem() { sim::userPoint(); mk(0); live += counted; }
  Elem(int v) { mk(v); live += counted; }
  Elem(const Elem& o) { sim::userPoint(); mk(o.val()); live += counted; }
  Elem& operator=(const Elem& o) {
    sim::userPoint();
    int v = o.val();
    Box* n = new Box;
    n->v = v;
    n->canary = ~v;
    delete b;
    b = n;
    return *this;
  }
#ifdef ELEM_MOVES
  Elem(Elem&& o) noexcept : b(o.b) { o.b = nullptr; live += counted; }
  Elem& operator=(Elem&& o) noexcept {
    if (this != &o) { delete b; b = o.b; o.b = nullptr; }
    return *this;
  }
#endif
  ~Elem() {
    if (b) val();
    delete b;
    live -= counted;
  }
  int val() const {
    if (!b) sim::violate("moved-away", "an element that was moved from is used");
    if (b->canary != ~b->v) sim::violate("corrupt-element", "an element holds garbage");
    return b->v;
  }
};
inline bool operator<(const Elem& a, const Elem& b) { sim::userPoint(); return a.val() < b.val(); }
inline bool operator==(const Elem& a, const Elem& b) { sim::userPoint(); return a.val() == b.val(); }
inline bool operator!=(const Elem& a, const Elem& b) { return !(a == b); }
inline bool operator>(const Elem& a, const Elem& b) { return b < a; }
inline bool operator<=(const Elem& a, const Elem& b) { return !(b < a); }
inline bool operator>=(const Elem& a, const Elem& b) { return !(a < b); }
inline std::ostream& operator<<(std::ostream& o, const Elem& e) { return o << e.val(); }
#endif
