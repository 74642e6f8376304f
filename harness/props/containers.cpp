// C05: containers and callback algorithms under failing allocations and
// failing user code.
#if PART >= 6
#define ELEM_MOVES
#define PART1 (PART - 5)
#else
#define PART1 PART
#endif
#include "sim.h"
#include <algorithm>
#include <deque>
#include <list>
#include <queue>
#include <stack>
#include "elem.h"
#include "containers.h"
#include "algorithm.h"
using namespace sim;
#if PART == 0 || PART == 6
long Elem::live = 0;
#endif
typedef std::vector<int> VI;
typedef std::pair<int, int> PII;
typedef std::vector<PII> VP;

enum Policy { STRONG, VALID, CONSERVE };

// ---------------------------------------------------------------- one operation
// lib: the library call.  Returns through captured variables.
// after(ok): compares with the model; ok tells whether the call completed.
static void doOp(const char* name, const Step& s, const std::function<void()>& lib,
                 const std::function<void()>& completed, const std::function<void()>& failed) {
  auto once = [&](const Arm& a) -> CallInfo {
    CallInfo ci = call(a, lib);
    g_run->log("%s: %s%s", name, outcomeName(ci.out), ci.fired ? " (fault)" : "");
    switch (ci.out) {
      case O_OK:
        break;
      case O_BADALLOC:
      case O_USER:
        SIM_CHECK(ci.fired, "spurious-failure", "%s failed with %s without a fault", name, outcomeName(ci.out));
        failed();
        break;
      default:
        violate("wrong-failure", "%s ended with %s %s", name, outcomeName(ci.out), ci.what.c_str());
    }
    return ci;
  };
  Arm a;
  CallInfo ci;
  switch (s.fk) {
    case F_OOM_ONE: case F_OOM_FROM: case F_THROW_ONE: case F_OOM_SIZE:
      a.kind = s.fk;
      a.k = s.fa;
      ci = once(a);
      if (ci.out == O_OK) { completed(); return; }
      if (!(s.fb & 1)) return;   // the user gives up
      break;
    case F_OOM_SCAN: case F_THROW_SCAN:
      for (int k = 0; k < 400; k++) {
        a.kind = s.fk == F_OOM_SCAN ? F_OOM_ONE : F_THROW_ONE;
        a.k = k;
        ci = once(a);
        if (ci.out == O_OK) {
          if (ci.fired) probe("fault_absorbed");
          completed();
          return;
        }
      }
      break;
  }
  ci = once(Arm());
  completed();
}
static VI sorted(VI v) { std::sort(v.begin(), v.end()); return v; }
static std::string str(const VI& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 20; i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
static std::string str(const VP& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 20; i++) s += (i ? "," : "") + std::to_string(v[i].first) + ":" + std::to_string(v[i].second);
  return s + "]";
}
template <class T>
static void same(const char* name, const T& got, const T& want, const char* when) {
  g_run->logs(name, str(got));
  SIM_CHECK(got == want, "contents-differ", "%s: contents after %s operation are %s, expected %s", name, when,
            str(got).c_str(), str(want).c_str());
}
static void population(size_t want) {
  SIM_CHECK(Elem::live == (long)want, "element-leak", "%ld elements alive, containers hold %zu", Elem::live, want);
}
static bool subsetOf(const VI& got, VI pool) {
  for (int x : got)
    if (std::find(pool.begin(), pool.end(), x) == pool.end()) return false;
  return true;
}
// calls the observation without faults
template <class F>
static void look(F f) {
  CallInfo ci = call(f);
  SIM_CHECK(ci.out == O_OK, "observation-failed", "reading the contents ended with %s %s", outcomeName(ci.out), ci.what.c_str());
}
static void destroyed() {
  SIM_CHECK(Elem::live == 0, "element-leak", "%ld elements survive their containers", Elem::live);
  SIM_CHECK(liveBlocks() == 0, "leak", "%zu blocks survive: %s", liveBlocks(), describeLive().c_str());
}

// ---------------------------------------------------------------- sequences
typedef cuhksz::Vector<Elem> Vec;
typedef cuhksz::List<Elem> Lst;
static VI seeVec(Vec& v) {
  VI a, b, c, d;
  int n = 0;
  bool e = false;
  look([&] {
    Out o;
    n = v.size();
    e = v.isEmpty();
    for (auto& x : v) a.push_back(x.val());
    const Vec& cv = v;
    for (auto& x : cv) b.push_back(x.val());
    for (int i = 0; i < n; i++) { c.push_back(v[i].val()); d.push_back(i % 2 ? cv.get(i).val() : v.get(i).val()); }
    if (n) { SIM_CHECK(v.first().val() == a[0] && cv.first().val() == a[0], "views-differ", "first"); SIM_CHECK(v.last().val() == a.back() && cv.last().val() == a.back(), "views-differ", "last"); }
  });
  SIM_CHECK(a == b && a == c && a == d && (int)a.size() == n && e == (n == 0), "views-differ", "iteration, index access and size disagree on one Vector");
  return a;
}
static VI seeLst(Lst& v) {
  VI a, b, c, d;
  int n = 0;
  bool e = false;
  look([&] {
    Out o;
    n = v.size();
    e = v.isEmpty();
    for (auto& x : v) a.push_back(x.val());
    const Lst& cv = v;
    for (auto& x : cv) b.push_back(x.val());
    for (int i = 0; i < n; i++) { c.push_back(v[i].val()); d.push_back(cv[i].val()); }
    if (n) { SIM_CHECK(v.first().val() == a[0] && cv.first().val() == a[0], "views-differ", "first"); SIM_CHECK(v.last().val() == a.back() && cv.last().val() == a.back(), "views-differ", "last"); }
    // backwards as well
    VI r;
    for (auto it = v.end(); it != v.begin();) r.push_back((--it)->val());
    std::reverse(r.begin(), r.end());
    SIM_CHECK(r == a, "views-differ", "forward and backward iteration of a List disagree");
  });
  SIM_CHECK(a == b && a == c && a == d && (int)a.size() == n && e == (n == 0), "views-differ", "iteration, index access and size disagree on one List");
  return a;
}
static bool cmpModel(int how, const VI& a, const VI& b) {
  switch (how) {
    case 0: return a == b;
    case 1: return a != b;
    case 2: return a < b;
    case 3: return a <= b;
    case 4: return a > b;
    default: return a >= b;
  }
}
template <class C>
static bool cmpLib(int how, C& a, C& b) {
  switch (how) {
    case 0: return a == b;
    case 1: return a != b;
    case 2: return a < b;
    case 3: return a <= b;
    case 4: return a > b;
    default: return a >= b;
  }
}


#define OP(NAME, LIB, DONE, FAIL) \
  do { nm = NAME; doOp(nm, s, [&] LIB, [&] { DONE; verify(nm, "the"); }, FAIL); } while (0)
static VI cat(VI a, const VI& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
template <class C>
static VI vals(const C& c) {
  Out o;
  VI r;
  for (auto& x : c) r.push_back(x.val());
  return r;
}
#define EXPECT(GOT, WANT, WHAT) SIM_CHECK((GOT) == (WANT), "wrong-result", "%s gave %s, expected %s", WHAT, str(GOT).c_str(), str(WANT).c_str())
static std::string str(int x) { return std::to_string(x); }

template <class C>
static C* init3(int val) { return new C{Elem(val), Elem(val + 1), Elem(val)}; }
template <class C>
static C* initP(int key, int val) { return new C{{Elem(key), Elem(val)}, {Elem(key + 1), Elem(val)}, {Elem(key), Elem(val + 1)}, {Elem(key), Elem(val)}}; }
typedef std::multimap<Elem, Elem> SMM;
enum { S_PUSH, S_INSERT, S_ERASE, S_SET, S_POP, S_CLEAR, S_ASSIGN, S_SELFASSIGN, S_COPY, S_NEWN, S_NEWINIT, S_NEWSTL, S_TOSTL, S_CMP,
       S_PUSHALIAS, S_INSERTALIAS, S_SETALIAS, S_PUSHFRONT, S_POPFRONT, S_SORT, S_REVERSE, S_MERGE, S_MAPALL, S_FILTER, S_ZIP, S_MUTREF, S_BUILD, S_NOPS };

static int mapFn(int x) { return x * 2 + 1; }
static bool keepFn(int x) { return x % 2 != 0; }

// Vector and List share most of their interface.
template <class C>
struct SeqApi;
template <>
struct SeqApi<Vec> {
  static const char* name() { return "Vector"; }
  static VI see(Vec& v) { return seeVec(v); }
  static std::vector<Elem> stl(Vec& v, bool conv) { if (conv) { std::vector<Elem> t = v; return t; } return v.toStlVector(); }
  static Vec* fromStl(Vec& w) { std::vector<Elem> t = w.toStlVector(); return new Vec(t); }
  static const bool nodes = false;
};
template <>
struct SeqApi<Lst> {
  static const char* name() { return "List"; }
  static VI see(Lst& v) { return seeLst(v); }
  static std::list<Elem> stl(Lst& v, bool conv) { if (conv) { std::list<Elem> t = v; return t; } return v.toStlList(); }
  static Lst* fromStl(Lst& w) { std::list<Elem> t = w.toStlList(); return new Lst(t); }
  static const bool nodes = true;
};
static void vecOnly(Vec& V, int op, int idx, int src, const Elem& e) {
  if (op == S_SET) V.set(idx, e);
  else V.set(idx, V[src]);
}
static void vecOnly(Lst& V, int op, int idx, int src, const Elem& e) {
  if (op == S_SET) V[idx] = e;
  else V[idx] = V[src];
}
static void lstOnly(Vec&, Vec&, int, const Elem&, int&) {}
static void lstOnly(Lst& V, Lst& W, int op, const Elem& e, int& got) {
  switch (op) {
    case S_PUSHFRONT: V.push_front(e); break;
    case S_POPFRONT: got = V.pop_front().val(); break;
    case S_SORT: V.sort(); break;
    case S_REVERSE: V.reverse(); break;
    case S_MERGE: V.merge(W); break;
  }
}

template <class C>
static void execSeq(const Plan& p) {
  typedef SeqApi<C> A;
  C* v[2] = {nullptr, nullptr};
  VI m[2];
  look([&] { v[0] = new C; v[1] = new C; });
  auto verify = [&](const char* name, const char* when) {
    for (int i = 0; i < 2; i++) same(name, A::see(*v[i]), m[i], when);
    population(m[0].size() + m[1].size());
  };
  for (const Step& s : p.steps) {
    int k = (int)(s.a[0] & 1);
    VI& M = m[k];
    VI& N = m[1 - k];
    C& V = *v[k];
    C& W = *v[1 - k];
    int n = (int)M.size(), val = (int)s.a[1], got = 0, want = 0;
    int idx = n ? (int)(s.a[2] % n) : 0, ins = (int)(s.a[2] % (n + 1)), src = n ? (int)(s.a[3] % n) : 0;
    Elem e(val);
    const char* nm = A::name();
    std::function<void()> strong = [&] { verify(nm, "a failed"); };
    auto resync = [&](VI pool, size_t lo, size_t hi) {
      VI g = A::see(V);
      SIM_CHECK(g.size() >= lo && g.size() <= hi && subsetOf(g, pool), "contents-invalid",
                "%s: a failed operation left %s, from %s", nm, str(g).c_str(), str(M).c_str());
      M = g;
      verify(nm, "a failed");
      n = (int)M.size();
      if (idx >= n) idx = 0;
      if (ins > n) ins = n;
      if (src >= n) src = 0;
    };
    auto conserve = [&](bool both) {
      VI g = A::see(V), h = A::see(W);
      if (both) SIM_CHECK(sorted(cat(g, h)) == sorted(cat(M, N)), "elements-lost", "%s: a failed operation left %s and %s of %s and %s", nm, str(g).c_str(), str(h).c_str(), str(M).c_str(), str(N).c_str());
      else SIM_CHECK(sorted(g) == sorted(M), "elements-lost", "%s: a failed operation left %s of %s", nm, str(g).c_str(), str(M).c_str());
      M = g;
      if (both) N = h;
      verify(nm, "a failed");
    };
    bool node = A::nodes;
    switch (s.op) {
      case S_PUSH: OP("push", { V.push(e); }, M.push_back(val), strong); break;
      case S_PUSHALIAS: if (n) OP("push(own element)", { V.push(V[src]); }, M.push_back(M[src]), strong); break;
      case S_INSERT: OP("insert", { V.insert(ins, e); }, M.insert(M.begin() + ins, val), ([&] { if (node || ins == (int)M.size()) strong(); else resync(cat(M, {val}), n, n + 1); })); break;
      case S_INSERTALIAS: if (n) { want = M[src]; OP("insert(own element)", { V.insert(ins, V[src]); }, M.insert(M.begin() + ins, want), ([&] { if (node || ins == (int)M.size()) strong(); else resync(M, n, n + 1); want = M[src]; })); } break;
      case S_ERASE: if (n) OP("erase", { V.erase(idx); }, M.erase(M.begin() + idx), ([&] { if (node) strong(); else resync(M, n - 1, n);})); break;
      case S_SET: if (n) OP("set", { vecOnly(V, S_SET, idx, src, e); }, M[idx] = val, strong); break;
      case S_SETALIAS: if (n) OP("set(own element)", { vecOnly(V, S_SETALIAS, idx, src, e); }, M[idx] = M[src], strong); break;
      case S_MUTREF: if (n) OP("write through reference", { (s.a[3] % 3 == 0 ? V[idx] : s.a[3] % 3 == 1 ? V.first() : V.last()) = e; }, (s.a[3] % 3 == 0 ? M[idx] : s.a[3] % 3 == 1 ? M.front() : M.back()) = val, strong); break;
      case S_POP: if (n) OP("pop", { got = V.pop().val(); }, EXPECT(got, M.back(), "pop"); M.pop_back(), strong); break;
      case S_CLEAR: OP("clear", { V.clear(); }, M.clear(), strong); break;
      case S_ASSIGN: OP("assignment", { V = W; }, M = N, ([&] { resync(cat(M, N), 0, std::max(M.size(), N.size())); })); break;
      case S_SELFASSIGN: OP("self assignment", { C& x = V; V = x; }, , strong); break;
      case S_COPY: { VI r; OP("copy construction", { C c(V); C d(c); { Out o; r = VI(); for (auto& x : d) r.push_back(x.val()); } }, EXPECT(r, M, "copy"), strong); break; }
      case S_NEWN: { int cnt = (int)(s.a[3] % 6); if (s.a[2] % 29 == 0) cnt += (int)(s.a[2] % 290); OP("construction from n copies", { C* x = new C(cnt, e); delete v[k]; v[k] = x; }, M.assign(cnt, val), strong); break; }
      case S_NEWINIT: OP("construction from a list of values", { C* x = init3<C>(val); delete v[k]; v[k] = x; }, (M = VI{val, val + 1, val}), strong); break;
      case S_NEWSTL: OP("construction from a standard container", { C* x = A::fromStl(W); delete v[k]; v[k] = x; }, M = N, strong); break;
      case S_TOSTL: { VI r; OP("conversion to a standard container", { auto t = A::stl(V, s.a[3] % 2); r = vals(t); }, EXPECT(r, M, "conversion"), strong); break; }
      case S_CMP: { int how = (int)(s.a[3] % 6); bool r = false; OP("comparison", { r = cmpLib(how, V, W); }, EXPECT((int)r, (int)cmpModel(how, M, N), "comparison"), strong); break; }
      case S_MAPALL: { VI r, w; OP("mapAll", { auto t = cuhksz::mapAll(V, [](Elem& x) { userPoint(); return Elem(mapFn(x.val())); }); r = vals(t); }, for (int x : M) w.push_back(mapFn(x)); EXPECT(r, w, "mapAll"), strong); break; }
      case S_FILTER: { VI r, w; OP("filterContainer", { auto t = cuhksz::filterContainer(V, [](Elem& x) { userPoint(); return keepFn(x.val()); }); r = vals(t); }, for (int x : M) if (keepFn(x)) w.push_back(x); EXPECT(r, w, "filterContainer"), strong); break; }
      case S_ZIP: {
        VI r, w;
        int mode = (int)(s.a[3] % 3);
        nm = "zip";
        doOp(nm, s, [&] {
              auto a = A::stl(V, false);
              auto b = A::stl(W, false);
              typedef decltype(a) S;
              S c{Elem(7), Elem(8), Elem(9)};
              std::vector<S> z = mode == 0 ? cuhksz::zip(a, b) : mode == 1 ? cuhksz::zip(a, b, c) : cuhksz::Zip<S>(a)();
              Out o;
              r.clear();
              for (auto& x : z) { for (auto& y : x) r.push_back(y.val()); r.push_back(-99999); }
            }, [&] {
              size_t l = M.size();
              if (mode != 2) l = std::min(l, N.size());
              if (mode == 1) l = std::min<size_t>(l, 3);
              for (size_t i = 0; i < l; i++) { w.push_back(M[i]); if (mode != 2) w.push_back(N[i]); if (mode == 1) w.push_back(7 + (int)i); w.push_back(-99999); }
              EXPECT(r, w, "zip");
              verify(nm, "the");
            }, strong);
        break;
      }
      case S_PUSHFRONT: if (node) OP("push_front", { lstOnly(V, W, S_PUSHFRONT, e, got); }, M.insert(M.begin(), val), strong); break;
      case S_POPFRONT: if (node && n) OP("pop_front", { lstOnly(V, W, S_POPFRONT, e, got); }, EXPECT(got, M.front(), "pop_front"); M.erase(M.begin()), strong); break;
      case S_SORT: if (node) OP("sort", { lstOnly(V, W, S_SORT, e, got); }, M = sorted(M), ([&] { conserve(false); })); break;
      case S_REVERSE: if (node) OP("reverse", { lstOnly(V, W, S_REVERSE, e, got); }, std::reverse(M.begin(), M.end()), strong); break;
      case S_MERGE:
        if (node && std::is_sorted(M.begin(), M.end()) && std::is_sorted(N.begin(), N.end())) {
          bool stop = false;
          OP("merge", { if (!stop) lstOnly(V, W, S_MERGE, e, got); }, if (!stop) { M = sorted(cat(M, N)); N.clear(); }, ([&] { conserve(true); stop = true; }));
        }
        break;
      case S_BUILD: {   // fault free growth
        Step q = s;
        q.fk = 0;
        int cnt = (int)(s.a[3] % 9);
        if (s.a[2] % 13 == 0) cnt += 70;
        if (s.a[2] % 53 == 0) cnt += 230;
        for (int t = 0; t < cnt; t++) doOp("push", q, [&] { V.push(Elem((int)((s.a[1] * 7 + t * 13) % 50))); }, [&] { M.push_back((int)((s.a[1] * 7 + t * 13) % 50)); }, strong);
        verify("push", "the");
        break;
      }
    }
  }
  look([&] { delete v[0]; delete v[1]; });
  destroyed();
}

// ---------------------------------------------------------------- stack, queue
typedef cuhksz::Stack<Elem> Stk;
typedef cuhksz::Queue<Elem> Que;
static VI seeStk(Stk& q) {
  VI a;
  int n = 0;
  bool e = false;
  look([&] {
    n = q.size();
    e = q.isEmpty();
    std::stack<Elem> t = q.toStlStack();
    const Stk& cq = q;
    if (n) SIM_CHECK(q.top().val() == t.top().val() && cq.top().val() == t.top().val(), "views-differ", "top");
    Out o;
    for (; !t.empty(); t.pop()) a.push_back(t.top().val());
  });
  std::reverse(a.begin(), a.end());
  SIM_CHECK((int)a.size() == n && e == (n == 0), "views-differ", "Stack: size %d, holds %zu", n, a.size());
  return a;
}
static VI seeQue(Que& q) {
  VI a;
  int n = 0;
  bool e = false;
  look([&] {
    n = q.size();
    e = q.isEmpty();
    std::queue<Elem> t = q.toStlQueue();
    const Que& cq = q;
    if (n) SIM_CHECK(q.first().val() == t.front().val() && cq.first().val() == t.front().val() && q.last().val() == t.back().val() && cq.last().val() == t.back().val(), "views-differ", "first/last");
    Out o;
    for (; !t.empty(); t.pop()) a.push_back(t.front().val());
  });
  SIM_CHECK((int)a.size() == n && e == (n == 0), "views-differ", "Queue: size %d, holds %zu", n, a.size());
  return a;
}
struct StkApi {
  typedef Stk C;
  typedef std::stack<Elem> S;
  static VI see(Stk& v) { return seeStk(v); }
  static void add(Stk& v, const Elem& e) { v.push(e); }
  static int rem(Stk& v) { return v.pop().val(); }
  static void mrem(VI& m) { m.pop_back(); }
  static int mnext(VI& m) { return m.back(); }
  static Elem& ref(Stk& v, bool) { return v.top(); }
  static int& mref(VI& m, bool) { return m.back(); }
  static S stl(Stk& v, bool conv) { if (conv) { S t = v; return t; } return v.toStlStack(); }
  static VI drain(S t) { VI a; for (; !t.empty(); t.pop()) a.push_back(t.top().val()); std::reverse(a.begin(), a.end()); return a; }
};
struct QueApi {
  typedef Que C;
  typedef std::queue<Elem> S;
  static VI see(Que& v) { return seeQue(v); }
  static void add(Que& v, const Elem& e) { v.enqueue(e); }
  static int rem(Que& v) { return v.dequeue().val(); }
  static void mrem(VI& m) { m.erase(m.begin()); }
  static int mnext(VI& m) { return m.front(); }
  static Elem& ref(Que& v, bool last) { return last ? v.last() : v.first(); }
  static int& mref(VI& m, bool last) { return last ? m.back() : m.front(); }
  static S stl(Que& v, bool conv) { if (conv) { S t = v; return t; } return v.toStlQueue(); }
  static VI drain(S t) { VI a; for (; !t.empty(); t.pop()) a.push_back(t.front().val()); return a; }
};
template <class A>
static void execAdapter(const Plan& p) {
  typedef typename A::C C;
  C* v[2] = {nullptr, nullptr};
  VI m[2];
  look([&] { v[0] = new C; v[1] = new C; });
  auto verify = [&](const char* name, const char* when) {
    for (int i = 0; i < 2; i++) same(name, A::see(*v[i]), m[i], when);
    population(m[0].size() + m[1].size());
  };
  for (const Step& s : p.steps) {
    int k = (int)(s.a[0] & 1);
    VI& M = m[k];
    VI& N = m[1 - k];
    C& V = *v[k];
    C& W = *v[1 - k];
    int n = (int)M.size(), val = (int)s.a[1], got = 0;
    Elem e(val);
    const char* nm = "";
    bool last = s.a[3] % 2;
    std::function<void()> strong = [&] { verify(nm, "a failed"); };
    auto resync = [&](VI pool, size_t lo, size_t hi) {
      VI g = A::see(V);
      SIM_CHECK(g.size() >= lo && g.size() <= hi && subsetOf(g, pool), "contents-invalid", "%s: a failed operation left %s, from %s", nm, str(g).c_str(), str(M).c_str());
      M = g;
      verify(nm, "a failed");
    };
    switch (s.op % 16) {
      case 0: case 1: OP("push/enqueue", { A::add(V, e); }, M.push_back(val), strong); break;
      case 2: if (n) OP("push/enqueue(own element)", { A::add(V, A::ref(V, last)); }, { int x = A::mref(M, last); M.push_back(x); }, strong); break;
      case 3: case 4: if (n) OP("pop/dequeue", { got = A::rem(V); }, EXPECT(got, A::mnext(M), "pop/dequeue"); A::mrem(M), strong); break;
      case 5: OP("clear", { V.clear(); }, M.clear(), strong); break;
      case 6: OP("assignment", { V = W; }, M = N, ([&] { resync(cat(M, N), 0, std::max(M.size(), N.size())); })); break;
      case 7: OP("self assignment", { C& x = V; V = x; }, , strong); break;
      case 8: { VI r; OP("copy construction", { C c(V); C d(c); r = (Out(), VI()); auto t = A::stl(d, false); Out o; r = A::drain(t); }, EXPECT(r, M, "copy"), strong); break; }
      case 9: OP("construction from a standard container", { auto t = A::stl(W, false); C* x = new C(t); delete v[k]; v[k] = x; }, M = N, strong); break;
      case 10: { VI r; OP("conversion to a standard container", { auto t = A::stl(V, last); Out o; r = A::drain(t); }, EXPECT(r, M, "conversion"), strong); break; }
      case 11: case 12: { int how = (int)(s.a[3] % 6); bool r = false; OP("comparison", { r = cmpLib(how, V, W); }, EXPECT((int)r, (int)cmpModel(how, M, N), "comparison"), strong); break; }
      case 13: if (n) OP("write through reference", { A::ref(V, last) = e; }, A::mref(M, last) = val, strong); break;
      default: {
        Step q = s;
        q.fk = 0;
        int cnt = (int)(s.a[3] % 9);
        if (s.a[2] % 53 == 0) cnt += 230;
        if (s.a[2] % 11 == 0) cnt += 60;   // passes the block size of the underlying storage
        for (int t = 0; t < cnt; t++) doOp("push", q, [&] { A::add(V, Elem((int)((s.a[1] * 7 + t * 13) % 50))); }, [&] { M.push_back((int)((s.a[1] * 7 + t * 13) % 50)); }, strong);
        verify("push", "the");
      }
    }
  }
  look([&] { delete v[0]; delete v[1]; });
  destroyed();
}

// ---------------------------------------------------------------- ordered containers
typedef cuhksz::Set<Elem> SetE;
typedef cuhksz::MultiSet<Elem> MSetE;
typedef cuhksz::Map<Elem, Elem> MapE;
typedef cuhksz::MultiMap<Elem, Elem> MMapE;
template <class C>
static VI seeKeys(C& c) {
  VI a, b;
  int n = 0;
  bool e = false;
  look([&] {
    Out o;
    n = c.size();
    e = c.isEmpty();
    for (auto& x : c) a.push_back(x.val());
    const C& cc = c;
    for (auto& x : cc) b.push_back(x.val());
  });
  SIM_CHECK(a == b && (int)a.size() == n && e == (n == 0), "views-differ", "iteration and size disagree");
  return a;
}
template <class C>
static VP seePairs(C& c) {
  VP a, b;
  int n = 0;
  bool e = false;
  look([&] {
    Out o;
    n = c.size();
    e = c.isEmpty();
    for (auto& x : c) a.push_back(PII(x.first.val(), x.second.val()));
    const C& cc = c;
    for (auto& x : cc) b.push_back(PII(x.first.val(), x.second.val()));
  });
  SIM_CHECK(a == b && (int)a.size() == n && e == (n == 0), "views-differ", "iteration and size disagree");
  return a;
}
static bool cmpPairs(int how, const VP& a, const VP& b) {
  switch (how) {
    case 0: return a == b;
    case 1: return a != b;
    case 2: return a < b;
    case 3: return a <= b;
    case 4: return a > b;
    default: return a >= b;
  }
}
static std::set<Elem> stlOf(SetE& v, bool c) { if (c) { std::set<Elem> t = v; return t; } return v.toStlSet(); }
static std::multiset<Elem> stlOf(MSetE& v, bool c) { if (c) { std::multiset<Elem> t = v; return t; } return v.toStlMultiset(); }
static std::map<Elem, Elem> stlOf(MapE& v, bool c) { if (c) { std::map<Elem, Elem> t = v; return t; } return v.toStlMap(); }
static std::multimap<Elem, Elem> stlOf(MMapE& v, bool c) { if (c) { std::multimap<Elem, Elem> t = v; return t; } return v.toStlMultimap(); }
static int countOf(SetE&, const Elem&) { return -1; }
static int countOf(MSetE& v, const Elem& e) { return v.count(e); }

template <class C, bool MULTI>
static void execSet(const Plan& p) {
  C* v[2] = {nullptr, nullptr};
  VI m[2];   // sorted
  look([&] { v[0] = new C; v[1] = new C; });
  auto verify = [&](const char* name, const char* when) {
    for (int i = 0; i < 2; i++) same(name, seeKeys(*v[i]), m[i], when);
    population(m[0].size() + m[1].size());
  };
  for (const Step& s : p.steps) {
    int k = (int)(s.a[0] & 1);
    VI& M = m[k];
    VI& N = m[1 - k];
    C& V = *v[k];
    C& W = *v[1 - k];
    int val = (int)(s.a[1] % 14);
    Elem e(val);
    const char* nm = "";
    bool has = std::find(M.begin(), M.end(), val) != M.end();
    auto add = [&](int x) { if (MULTI || std::find(M.begin(), M.end(), x) == M.end()) { M.push_back(x); M = sorted(M); } };
    auto del = [&](int x) { M.erase(std::remove(M.begin(), M.end(), x), M.end()); };
    std::function<void()> strong = [&] { verify(nm, "a failed"); };
    auto resync = [&](VI pool, size_t lo, size_t hi) {
      VI g = seeKeys(V);
      SIM_CHECK(g.size() >= lo && g.size() <= hi && subsetOf(g, pool) && std::is_sorted(g.begin(), g.end()), "contents-invalid", "%s: a failed operation left %s, from %s", nm, str(g).c_str(), str(M).c_str());
      M = g;
      verify(nm, "a failed");
    };
    switch (s.op % 17) {
      case 16: {   // fault free growth
        Step q = s;
        q.fk = 0;
        int cnt = (int)(s.a[3] % 9) + (s.a[2] % 13 == 0 ? 60 : 0) + (s.a[2] % 53 == 0 ? 230 : 0);
        for (int t = 0; t < cnt; t++) { int x = (int)((s.a[1] * 7 + t * 13) % (cnt > 100 ? 293 : 90)); doOp("insert", q, [&] { V.insert(Elem(x)); }, [&] { add(x); }, strong); }
        verify("insert", "the");
        break;
      }
      case 0: case 1: case 2: OP("insert", { V.insert(e); }, add(val), strong); break;
      case 3: if (!M.empty()) { int t = (int)(s.a[2] % (i64)M.size()); int x = M[t]; OP("insert(own element)", { auto it = V.begin(); std::advance(it, t); V.insert(*it); }, add(x), strong); } break;
      case 4: case 5: if (!MULTI || has) OP("erase", { V.erase(e); }, del(val), strong); break;
      case 6: if (!M.empty()) { int t = (int)(s.a[2] % (i64)M.size()); int x = M[t]; OP("erase(own element)", { auto it = V.begin(); std::advance(it, t); V.erase(*it); }, del(x), strong); } break;
      case 7: OP("clear", { V.clear(); }, M.clear(), strong); break;
      case 8: OP("assignment", { V = W; }, M = N, ([&] { resync(cat(M, N), 0, std::max(M.size(), N.size())); })); break;
      case 9: OP("self assignment", { C& x = V; V = x; }, , strong); break;
      case 10: { VI r; OP("copy construction", { C c(V); C d(c); r = vals(d); }, EXPECT(r, M, "copy"), strong); break; }
      case 11: OP("construction from a list of values", { C* x = init3<C>(val); delete v[k]; v[k] = x; }, (M = MULTI ? VI{val, val, val + 1} : VI{val, val + 1}), strong); break;
      case 12: OP("construction from a standard container", { auto t = stlOf(W, false); C* x = new C(t); delete v[k]; v[k] = x; }, M = N, strong); break;
      case 13: { VI r; OP("conversion to a standard container", { auto t = stlOf(V, s.a[3] % 2); r = vals(t); }, EXPECT(r, M, "conversion"), strong); break; }
      case 14: { int how = (int)(s.a[3] % 6); bool r = false; OP("comparison", { r = cmpLib(how, V, W); }, EXPECT((int)r, (int)cmpModel(how, M, N), "comparison"), strong); break; }
      default: {
        bool r = false;
        int c = -1;
        VI f, w;
        OP("lookup", { r = V.contains(e); c = countOf(V, e); auto t = cuhksz::filterContainer(V, [](const Elem& x) { userPoint(); return keepFn(x.val()); }); f = vals(t); },
           EXPECT((int)r, (int)has, "contains"); if (MULTI) EXPECT(c, (int)std::count(M.begin(), M.end(), val), "count");
           for (int x : M) if (keepFn(x)) w.push_back(x); EXPECT(f, w, "filterContainer"), strong);
      }
    }
  }
  look([&] { delete v[0]; delete v[1]; });
  destroyed();
}
#if PART1 == 5
static void execMap(const Plan& p) {
  typedef MapE C;
  C* v[2] = {nullptr, nullptr};
  std::map<int, int> mm[2];
  auto flat = [&](int i) { return VP(mm[i].begin(), mm[i].end()); };
  look([&] { v[0] = new C; v[1] = new C; });
  auto verify = [&](const char* name, const char* when) {
    for (int i = 0; i < 2; i++) same(name, seePairs(*v[i]), flat(i), when);
    population(2 * (mm[0].size() + mm[1].size()));
  };
  for (const Step& s : p.steps) {
    int k = (int)(s.a[0] & 1);
    auto& M = mm[k];
    auto& N = mm[1 - k];
    C& V = *v[k];
    C& W = *v[1 - k];
    int key = (int)(s.a[1] % 12), val = (int)(s.a[2] % 1000);
    Elem ek(key), ev(val);
    const char* nm = "";
    bool has = M.count(key);
    std::function<void()> strong = [&] { verify(nm, "a failed"); };
    auto anykey = [&](i64 x) { auto it = M.begin(); std::advance(it, x % (i64)M.size()); return it->first; };
    switch (s.op % 19) {
      case 18: {   // fault free growth
        Step q = s;
        q.fk = 0;
        int cnt = (int)(s.a[3] % 9) + (s.a[2] % 13 == 0 ? 60 : 0) + (s.a[2] % 53 == 0 ? 230 : 0);
        for (int t = 0; t < cnt; t++) { int x = (int)((s.a[1] * 7 + t * 13) % (cnt > 100 ? 293 : 90)); doOp("set", q, [&] { V.set(Elem(x), Elem(t)); }, [&] { M[x] = t; }, strong); }
        verify("set", "the");
        break;
      }
      case 0: case 1: case 2: OP("set", { V.set(ek, ev); }, M[key] = val, strong); break;
      case 3: if (!M.empty()) { int a = anykey(s.a[2]), b = anykey(s.a[3]); OP("set(own key, own value)", { auto it = V.begin(); while (it->first.val() != a) ++it; auto jt = V.begin(); while (jt->first.val() != b) ++jt; V.set(it->first, jt->second); }, M[a] = M[b], strong); } break;
      case 4: if (has) { int r = 0; OP("get", { const C& cv = V; r = s.a[3] % 2 ? V.get(ek).val() : cv.get(ek).val(); }, EXPECT(r, M[key], "get"), strong); } break;
      case 5: { int r = 0; OP("operator[]", { r = V[ek].val(); }, EXPECT(r, has ? M[key] : 0, "operator[]"); M[key], strong); break; }
      case 6: if (has) OP("operator[]=", { V[ek] = ev; }, M[key] = val, strong); break;
      case 7: case 8: OP("erase", { V.erase(ek); }, M.erase(key), strong); break;
      case 9: if (!M.empty()) { int a = anykey(s.a[2]); OP("erase(own key)", { auto it = V.begin(); while (it->first.val() != a) ++it; V.erase(it->first); }, M.erase(a), strong); } break;
      case 10: OP("clear", { V.clear(); }, M.clear(), strong); break;
      case 11: OP("assignment", { V = W; }, M = N, ([&] {
                 VP g = seePairs(V);
                 bool ok = true;
                 for (auto& x : g) ok = ok && ((M.count(x.first) && M[x.first] == x.second) || (N.count(x.first) && N[x.first] == x.second));
                 for (size_t i = 1; i < g.size(); i++) ok = ok && g[i - 1].first < g[i].first;
                 SIM_CHECK(ok, "contents-invalid", "assignment: a failed operation left %s", str(g).c_str());
                 M = std::map<int, int>(g.begin(), g.end());
                 verify(nm, "a failed"); })); break;
      case 12: OP("self assignment", { C& x = V; V = x; }, , strong); break;
      case 13: { VP r; OP("copy construction", { C c(V); C d(c); Out o; r.clear(); for (auto& x : d) r.push_back(PII(x.first.val(), x.second.val())); }, EXPECT(r, flat(k), "copy"), strong); break; }
      case 14: OP("construction from a list of values", { C* x = initP<C>(key, val); delete v[k]; v[k] = x; }, (M = std::map<int, int>{{key, val}, {key + 1, val}}), strong); break;
      case 15: OP("construction from a standard container", { auto t = stlOf(W, s.a[3] % 2); C* x = new C(t); delete v[k]; v[k] = x; }, M = N, strong); break;
      case 16: { int how = (int)(s.a[3] % 6); bool r = false; OP("comparison", { r = cmpLib(how, V, W); }, EXPECT((int)r, (int)cmpPairs(how, flat(k), flat(1 - k)), "comparison"), strong); break; }
      default: { bool r = false; OP("contains", { r = V.contains(ek); }, EXPECT((int)r, (int)has, "contains"), strong); }
    }
  }
  look([&] { delete v[0]; delete v[1]; });
  destroyed();
}
static void execMultiMap(const Plan& p) {
  typedef MMapE C;
  C* v[2] = {nullptr, nullptr};
  std::multimap<int, int> mm[2];
  auto flat = [&](int i) { return VP(mm[i].begin(), mm[i].end()); };
  look([&] { v[0] = new C; v[1] = new C; });
  auto verify = [&](const char* name, const char* when) {
    for (int i = 0; i < 2; i++) same(name, seePairs(*v[i]), flat(i), when);
    population(2 * (mm[0].size() + mm[1].size()));
  };
  for (const Step& s : p.steps) {
    int k = (int)(s.a[0] & 1);
    auto& M = mm[k];
    auto& N = mm[1 - k];
    C& V = *v[k];
    C& W = *v[1 - k];
    int key = (int)(s.a[1] % 6), val = (int)(s.a[2] % 7);
    Elem ek(key), ev(val);
    const char* nm = "";
    std::function<void()> strong = [&] { verify(nm, "a failed"); };
    switch (s.op % 13) {
      case 12: {   // many values under few keys
        int cnt = (int)(s.a[3] % 30);
        OP("construction from a standard container", { SMM t = stlOf(V, s.a[3] % 2); for (int i = 0; i < cnt; i++) t.insert(SMM::value_type(Elem((key + i % 3) % 6), Elem(val + i % 17))); C* x = new C(t); delete v[k]; v[k] = x; }, for (int i = 0; i < cnt; i++) M.insert(PII((key + i % 3) % 6, val + i % 17)), strong);
        break;
      }
      case 0: case 1: case 2: {
        // entries come in through a standard multimap
        OP("construction from a standard container", { SMM t = stlOf(V, s.a[3] % 2); t.insert(SMM::value_type(ek, ev)); C* x = new C(t); delete v[k]; v[k] = x; }, M.insert(PII(key, val)), strong);
        break;
      }
      case 3: OP("construction from a list of values", { C* x = initP<C>(key, val); delete v[k]; v[k] = x; }, (M = std::multimap<int, int>{{key, val}, {key + 1, val}, {key, val + 1}, {key, val}}), strong); break;
      case 4: OP("erase", { V.erase(ek); }, M.erase(key), strong); break;
      case 5: { int r = 0; OP("count", { r = V.count(ek); }, EXPECT(r, (int)M.count(key), "count"), strong); break; }
      case 6: case 7: { VI r; OP("find", { auto t = V.find(ek); r = vals(t); }, std::set<int> w; auto q = M.equal_range(key); for (auto i = q.first; i != q.second; ++i) w.insert(i->second); EXPECT(r, VI(w.begin(), w.end()), "find"), strong); break; }
      case 8: OP("assignment", { V = W; }, M = N, ([&] {
                VP g = seePairs(V), pool = flat(k), q = flat(1 - k);
                pool.insert(pool.end(), q.begin(), q.end());
                for (auto& x : g) SIM_CHECK(std::find(pool.begin(), pool.end(), x) != pool.end(), "contents-invalid", "assignment: a failed operation left %s", str(g).c_str());
                M = std::multimap<int, int>(g.begin(), g.end());
                verify(nm, "a failed"); })); break;
      case 9: OP("clear", { V.clear(); }, M.clear(), strong); break;
      case 10: { VP r; OP("copy construction", { C c(V); C d(c); Out o; r.clear(); for (auto& x : d) r.push_back(PII(x.first.val(), x.second.val())); }, EXPECT(r, flat(k), "copy"), strong); break; }
      default: { int how = (int)(s.a[3] % 6); bool r = false; OP("comparison", { r = cmpLib(how, V, W); }, EXPECT((int)r, (int)cmpPairs(how, flat(k), flat(1 - k)), "comparison"), strong); }
    }
  }
  look([&] { delete v[0]; delete v[1]; });
  destroyed();
}

#endif

// ---------------------------------------------------------------- parts
// compiled in parallel, one part per group of containers
#if PART >= 6
#define RUN(N) runMoving##N
#else
#define RUN(N) runPart##N
#endif
#if PART1 == 1
void RUN(1)(const Plan& p) { Elem::live = 0; execSeq<Vec>(p); }
#elif PART1 == 2
void RUN(2)(const Plan& p) { Elem::live = 0; execSeq<Lst>(p); }
#elif PART1 == 3
void RUN(3)(const Plan& p) { Elem::live = 0; if (p.get("type") == 2) execAdapter<StkApi>(p); else execAdapter<QueApi>(p); }
#elif PART1 == 4
void RUN(4)(const Plan& p) { Elem::live = 0; if (p.get("type") == 4) execSet<SetE, false>(p); else execSet<MSetE, true>(p); }
#elif PART1 == 5
void RUN(5)(const Plan& p) { Elem::live = 0; if (p.get("type") == 6) execMap(p); else execMultiMap(p); }
#else
void runPart1(const Plan& p);
void runPart2(const Plan& p);
void runPart3(const Plan& p);
void runPart4(const Plan& p);
void runPart5(const Plan& p);
void runMoving1(const Plan& p);
void runMoving2(const Plan& p);
void runMoving3(const Plan& p);
void runMoving4(const Plan& p);
void runMoving5(const Plan& p);
static void gen(Rng& r, Plan& p) {
  p.cfg["type"] = r.pick<i64>({0, 0, 1, 1, 2, 3, 4, 5, 6, 7});
  p.cfg["moving"] = r.below(2);   // elements that can be moved from
  int n = (int)r.range(1, 14);
  int rate = (int)r.pick<i64>({0, 35, 70, 100});
  bool oom = r.chance(75), thr = !oom || r.chance(60);
  int small = (int)r.pick<i64>({3, 10, 40});
  for (int i = 0; i < n; i++) {
    Step s;
    s.op = (int)r.below(S_NOPS);
    if (i == 0 && r.chance(60)) s.op = p.cfg["type"] < 2 ? S_BUILD : p.cfg["type"] < 4 ? 15 : 0;
    s.a[0] = r.below(2);
    s.a[1] = r.below(small);
    s.a[2] = r.below(5040);
    s.a[3] = r.below(5040);
    if (r.chance(rate)) {
      bool o = oom && (!thr || r.chance(55));
      if (o) {
        s.fk = (int)r.pick<i64>({F_OOM_SCAN, F_OOM_SCAN, F_OOM_ONE, F_OOM_FROM, F_OOM_SIZE});
        s.fa = s.fk == F_OOM_SIZE ? r.pick<i64>({9, 17, 33, 65, 129}) : r.skew(14);
      } else {
        s.fk = (int)r.pick<i64>({F_THROW_SCAN, F_THROW_SCAN, F_THROW_ONE});
        s.fa = r.skew(14);
      }
      s.fb = r.below(2);
    }
    p.steps.push_back(s);
  }
}
static void exec(const Plan& p) {
  bool mv = p.get("moving");
  switch (p.get("type")) {
    case 0: (mv ? runMoving1 : runPart1)(p); break;
    case 1: (mv ? runMoving2 : runPart2)(p); break;
    case 2: case 3: (mv ? runMoving3 : runPart3)(p); break;
    case 4: case 5: (mv ? runMoving4 : runPart4)(p); break;
    default: (mv ? runMoving5 : runPart5)(p); break;
  }
}
static Property prop = {"C05", gen, exec, nullptr};
namespace sim { Property* getProperty() { return &prop; } }
#endif
