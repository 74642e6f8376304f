// C13: calls outside the documented terms always end the process with a
// failure status and a diagnostic; calls at their very edge never do.
#include "sim.h"
#include <climits>
#include "containers.h"
#include "json.h"
#include "math_utils/Fraction.h"
#include "math_utils/math_functions.h"
#include "random.h"
#include "random/random_functions.h"
using namespace sim;
using namespace cuhksz;

enum { G_VECTOR, G_LIST, G_QUEUE, G_STACK, G_MAP, G_MULTISET, G_FRACTION, G_MATH, G_RANDOM, G_FREE, G_DIST, G_JSON, G_N };
static const char* gname(int g) {
  static const char* n[] = {"vector", "list", "queue", "stack", "map", "multiset", "fraction", "mathematics", "generator", "free random functions", "distribution", "JSON text"};
  return n[g];
}
static void gen(Rng& r, Plan& p) {
  int n = (int)r.range(2, 24), edge = (int)r.pick({10, 40, 80});
  int home = r.chance(50) ? (int)r.below(G_N) : -1;      // half of the runs stay with one kind
  for (int i = 0; i < n; i++) {
    Step s;
    s.op = home >= 0 ? home : (int)r.below(G_N);
    s.a[0] = r.below(64);
    s.a[1] = r.chance(edge) ? r.below(12) : 100 + r.below(1000);   // below 12: an argument at or beyond an edge
    s.a[2] = (i64)(r.next() >> 1);
    if (r.chance(25)) {
      s.fk = F_STREAM;
      s.fa = r.range(SINK_FAIL_AT, SINK_THROW_AT);
      s.fb = r.skew(r.chance(30) ? 1 : 120);
    } else if (r.chance(10)) {
      s.fk = (int)r.pick<i64>({F_OOM_ONE, F_OOM_FROM});
      s.fa = r.skew(4);
    }
    p.steps.push_back(s);
  }
}
struct World {
  Vector<int>* v = nullptr;
  List<int>* l = nullptr;
  Queue<int>* q = nullptr;
  Stack<int>* k = nullptr;
  Map<int, int>* m = nullptr;
  MultiSet<int>* ms = nullptr;
  Random* rnd = nullptr;
  std::vector<int> mv, ml, mq, mk;
  std::map<int, int> mm;
  std::multiset<int> mms;
};
// an index at, just inside or far outside [0, n)
static int index(i64 sel, u64 raw, int n) {
  switch (sel) {
    case 0: return -1;
    case 1: return n;
    case 2: return n - 1;
    case 3: return 0;
    case 4: return INT_MIN;
    case 5: return INT_MAX;
    case 6: return n + 1;
    case 7: return -n;
    case 8: return -(int)(raw % 1000) - 1;
    case 9: return n + (int)(raw % 1000);
    case 10: return INT_MIN + n;
    case 11: return n / 2;
    default: return n ? (int)(raw % (u64)n) : 0;
  }
}
static int bulk(u64 raw) { return raw / 16 % 64 == 0 ? 70000 : raw / 16 % 4 == 0 ? 300 : 20; }
struct NoOne {                 // a type with no way to make "one"
  struct Tag {};
  int v;
  explicit NoOne(Tag, int x) : v(x) {}
  NoOne& operator*=(const NoOne& o) { v *= o.v; return *this; }
};
struct Case {
  std::string name;
  bool valid = true;
  std::function<void()> lib, done = [] {};
};
static const char* const BADJSON[] = {"{\"a\" 1}", "{\"a\":1 \"b\":2}", "[1 2]", "[1;2]", "tru", "nul", "falsy", "\"abc", "1e", "1ex", "?", "{\"a\":", "[1,", "", "   ", "[\"\\u12G4\"]", "12a", "{\"a\":1,}", "nulL", "[tru]", "{\"k\":nope}", "\"\\u00", "[1,2", "{\"a\":1"};
static const char* const GOODJSON[] = {"{\"a\":1}", "[1,2]", "true", "null", "false", "\"abc\"", "1e2", "12", "[]", "{}", " [ 1 , 2 ] ", "[\"\\u12A4\"]", "{\"a\":[1,{\"b\":null}]}", "-1", "-1.5", "[\"\"]"};
static Case make(World& w, const Step& s) {
  Case c;
  i64 e = s.a[1];
  u64 raw = (u64)s.a[2];
  int op = (int)s.a[0], val = (int)(raw % 1000);
  switch (s.op) {
    case G_VECTOR: {
      int n = (int)w.mv.size(), i = index(e, raw, n);
      bool in = i >= 0 && i < n, any = n > 0;
      auto want = [&w, i] { return w.mv[(size_t)i]; };
      auto read = [&w, in, i](int got, int wantv) { (void)in; SIM_CHECK(got == wantv, "wrong-element", "element %d of a vector reads %d, expected %d", i, got, wantv); };
      static int got;
      switch (op % 16) {
        case 0: c.name = "get"; c.valid = in; c.lib = [&w, i] { got = w.v->get(i); }; if (in) c.done = [=] { read(got, want()); }; break;
        case 1: c.name = "const get"; c.valid = in; c.lib = [&w, i] { const Vector<int>& x = *w.v; got = x.get(i); }; if (in) c.done = [=] { read(got, want()); }; break;
        case 2: c.name = "operator[]"; c.valid = in; c.lib = [&w, i] { got = (*w.v)[i]; }; if (in) c.done = [=] { read(got, want()); }; break;
        case 3: c.name = "const operator[]"; c.valid = in; c.lib = [&w, i] { const Vector<int>& x = *w.v; got = x[i]; }; if (in) c.done = [=] { read(got, want()); }; break;
        case 4: c.name = "first"; c.valid = any; c.lib = [&w] { got = w.v->first(); }; break;
        case 5: c.name = "const first"; c.valid = any; c.lib = [&w] { const Vector<int>& x = *w.v; got = x.first(); }; break;
        case 6: c.name = "last"; c.valid = any; c.lib = [&w] { got = w.v->last(); }; break;
        case 7: c.name = "const last"; c.valid = any; c.lib = [&w] { const Vector<int>& x = *w.v; got = x.last(); }; break;
        case 8: case 9: {
          c.name = "insert"; c.valid = i >= 0 && i <= n;
          c.lib = [&w, i, val] { w.v->insert(i, val); };
          c.done = [&w, i, val] { w.mv.insert(w.mv.begin() + i, val); };
          break;
        }
        case 10: c.name = "erase"; c.valid = in; c.lib = [&w, i] { w.v->erase(i); }; c.done = [&w, i] { w.mv.erase(w.mv.begin() + i); }; break;
        case 11: c.name = "set"; c.valid = in; c.lib = [&w, i, val] { w.v->set(i, val); }; c.done = [&w, i, val] { w.mv[(size_t)i] = val; }; break;
        case 12: c.name = "pop"; c.valid = any; c.lib = [&w] { w.v->pop(); }; c.done = [&w] { w.mv.pop_back(); }; break;
        case 13: c.name = "clear"; c.lib = [&w] { w.v->clear(); }; c.done = [&w] { w.mv.clear(); }; break;
        case 14: if (raw % 16 == 0) {
          int many = bulk(raw);
          c.name = "many pushes"; c.lib = [&w, val, many] { for (int j = 0; j < many; j++) w.v->push(val + j); }; c.done = [&w, val, many] { for (int j = 0; j < many; j++) w.mv.push_back(val + j); }; break; }  // fall through
        default: c.name = "push"; c.lib = [&w, val] { w.v->push(val); }; c.done = [&w, val] { w.mv.push_back(val); }; break;
      }
      break;
    }
    case G_LIST: {
      int n = (int)w.ml.size(), i = index(e, raw, n);
      bool in = i >= 0 && i < n, any = n > 0;
      static int got;
      switch (op % 16) {
        case 0: case 1: c.name = "operator[]"; c.valid = in; c.lib = [&w, i] { got = (*w.l)[i]; }; break;
        case 2: case 3: c.name = "const operator[]"; c.valid = in; c.lib = [&w, i] { const List<int>& x = *w.l; got = x[i]; }; break;
        case 4: c.name = "first"; c.valid = any; c.lib = [&w] { got = w.l->first(); }; break;
        case 5: c.name = "const first"; c.valid = any; c.lib = [&w] { const List<int>& x = *w.l; got = x.first(); }; break;
        case 6: c.name = "last"; c.valid = any; c.lib = [&w] { got = w.l->last(); }; break;
        case 7: c.name = "const last"; c.valid = any; c.lib = [&w] { const List<int>& x = *w.l; got = x.last(); }; break;
        case 8: case 9: c.name = "insert"; c.valid = i >= 0 && i <= n; c.lib = [&w, i, val] { w.l->insert(i, val); }; c.done = [&w, i, val] { w.ml.insert(w.ml.begin() + i, val); }; break;
        case 10: c.name = "erase"; c.valid = in; c.lib = [&w, i] { w.l->erase(i); }; c.done = [&w, i] { w.ml.erase(w.ml.begin() + i); }; break;
        case 11: c.name = "pop"; c.valid = any; c.lib = [&w] { w.l->pop(); }; c.done = [&w] { w.ml.pop_back(); }; break;
        case 12: c.name = "pop_front"; c.valid = any; c.lib = [&w] { w.l->pop_front(); }; c.done = [&w] { w.ml.erase(w.ml.begin()); }; break;
        case 13: c.name = "clear"; c.lib = [&w] { w.l->clear(); }; c.done = [&w] { w.ml.clear(); }; break;
        case 14: c.name = "push_front"; c.lib = [&w, val] { w.l->push_front(val); }; c.done = [&w, val] { w.ml.insert(w.ml.begin(), val); }; break;
        case 15: if (raw % 16 == 0) {
          int many = bulk(raw) / 4 + 1;
          c.name = "many pushes"; c.lib = [&w, val, many] { for (int j = 0; j < many; j++) w.l->push(val + j); }; c.done = [&w, val, many] { for (int j = 0; j < many; j++) w.ml.push_back(val + j); }; break; }  // fall through
        default: c.name = "push"; c.lib = [&w, val] { w.l->push(val); }; c.done = [&w, val] { w.ml.push_back(val); }; break;
      }
      break;
    }
    case G_QUEUE: {
      bool any = !w.mq.empty();
      static int got;
      switch (op % 10) {
        case 0: c.name = "first"; c.valid = any; c.lib = [&w] { got = w.q->first(); }; break;
        case 1: c.name = "const first"; c.valid = any; c.lib = [&w] { const Queue<int>& x = *w.q; got = x.first(); }; break;
        case 2: c.name = "last"; c.valid = any; c.lib = [&w] { got = w.q->last(); }; break;
        case 3: c.name = "const last"; c.valid = any; c.lib = [&w] { const Queue<int>& x = *w.q; got = x.last(); }; break;
        case 4: case 5: case 6: c.name = "dequeue"; c.valid = any; c.lib = [&w] { got = w.q->dequeue(); }; c.done = [&w] { w.mq.erase(w.mq.begin()); }; break;
        case 7: if (raw % 4 == 0) { c.name = "clear"; c.lib = [&w] { w.q->clear(); }; c.done = [&w] { w.mq.clear(); }; break; }  // fall through
        default: c.name = "enqueue"; c.lib = [&w, val] { w.q->enqueue(val); }; c.done = [&w, val] { w.mq.push_back(val); }; break;
      }
      break;
    }
    case G_STACK: {
      bool any = !w.mk.empty();
      static int got;
      switch (op % 8) {
        case 0: c.name = "top"; c.valid = any; c.lib = [&w] { got = w.k->top(); }; break;
        case 1: c.name = "const top"; c.valid = any; c.lib = [&w] { const Stack<int>& x = *w.k; got = x.top(); }; break;
        case 2: case 3: case 4: c.name = "pop"; c.valid = any; c.lib = [&w] { got = w.k->pop(); }; c.done = [&w] { w.mk.pop_back(); }; break;
        case 5: if (raw % 4 == 0) { c.name = "clear"; c.lib = [&w] { w.k->clear(); }; c.done = [&w] { w.mk.clear(); }; break; }  // fall through
        default: c.name = "push"; c.lib = [&w, val] { w.k->push(val); }; c.done = [&w, val] { w.mk.push_back(val); }; break;
      }
      break;
    }
    case G_MAP: {
      int key = (int)(raw % 6);
      bool has = w.mm.count(key) == 1;
      static int got;
      switch (op % 8) {
        case 0: case 1: c.name = "get"; c.valid = has; c.lib = [&w, key] { got = w.m->get(key); };
          if (has) c.done = [&w, key] { SIM_CHECK(got == w.mm[key], "wrong-element", "key %d reads %d", key, got); }; break;
        case 2: case 3: c.name = "const get"; c.valid = has; c.lib = [&w, key] { const Map<int, int>& x = *w.m; got = x.get(key); }; break;
        case 4: c.name = "set"; c.lib = [&w, key, val] { w.m->set(key, val); }; c.done = [&w, key, val] { w.mm[key] = val; }; break;
        case 5: c.name = "operator[]"; c.lib = [&w, key] { got = (*w.m)[key]; }; c.done = [&w, key] { w.mm[key]; }; break;
        case 6: c.name = "erase"; c.lib = [&w, key] { w.m->erase(key); }; c.done = [&w, key] { w.mm.erase(key); }; break;
        default: c.name = "contains"; c.lib = [&w, key] { got = w.m->contains(key); }; c.done = [&w, key] { SIM_CHECK(got == (int)w.mm.count(key), "wrong-element", "contains(%d) is %d", key, got); }; break;
      }
      break;
    }
    case G_MULTISET: {
      int key = (int)(raw % 5);
      switch (op % 4) {
        case 0: case 1: c.name = "erase"; c.valid = w.mms.count(key) > 0; c.lib = [&w, key] { w.ms->erase(key); }; c.done = [&w, key] { w.mms.erase(key); }; break;
        default: c.name = "insert"; c.lib = [&w, key] { w.ms->insert(key); }; c.done = [&w, key] { w.mms.insert(key); }; break;
      }
      break;
    }
    case G_FRACTION: {
      int a = (int)(raw % 41) - 20, b = (int)(raw / 41 % 41) - 20, n2 = (int)(raw / 2000 % 7) - 3, d2 = 1 + (int)(raw / 20000 % 9), d1 = 1 + (int)(raw / 200000 % 9);
      if (e < 4) b = n2 = 0;
      if (e == 4) a = 0;
      static volatile int got;
      switch (op % 5) {
        case 0: c.name = "construction"; c.valid = b != 0; c.lib = [a, b] { Fraction f(a, b); got = f.getNumerator(); }; break;
        case 1: c.name = "division"; c.valid = n2 != 0; c.lib = [=] { Fraction f = Fraction(a, d1) / Fraction(n2, d2); got = f.getNumerator(); }; break;
        case 2: c.name = "division assignment"; c.valid = n2 != 0; c.lib = [=] { Fraction f(a, d1); f /= Fraction(n2, d2); got = f.getNumerator(); }; break;
        case 3: c.name = "division of an integer"; c.valid = n2 != 0; c.lib = [=] { Fraction f = a / Fraction(n2, d2); got = f.getNumerator(); }; break;
        default: c.name = "division by an integer"; c.valid = n2 != 0; c.lib = [=] { Fraction f = Fraction(a, d1) / n2; got = f.getNumerator(); }; break;
      }
      break;
    }
    case G_MATH: {
      int x = e < 3 ? -1 : e < 5 ? -(int)(raw % 1000) - 1 : e == 5 ? INT_MIN : e == 6 ? 0 : e == 7 ? 1 : (int)(raw % 12);
      int n = e < 2 ? -1 : e < 4 ? -(int)(raw % 100) - 1 : (int)(raw % 11);
      int k = e == 4 ? n + 1 : e == 5 ? -1 : e == 6 ? n : e == 7 ? 0 : e == 8 ? n + (int)(raw % 50) + 1 : n > 0 ? (int)(raw / 11 % (u64)(n + 1)) : 0;
      static volatile long long got;
      switch (op % 8) {
        case 0: c.name = "power of a 64-bit integer"; c.valid = x >= 0; c.lib = [x, raw] { got = binaryPow((int64_t)(raw % 5) - 2, x); }; break;
        case 1: c.name = "power of a number"; c.valid = x >= 0; c.lib = [x] { got = (long long)genericBinaryPow(1.5, x); }; break;
        case 2: c.name = "power with a 64-bit exponent"; c.valid = x >= 0; c.lib = [x] { got = genericBinaryPow(2LL, (long long)x); }; break;
        case 3: c.name = "power of a value without one"; c.valid = x > 0; c.lib = [x] { got = genericBinaryPow(NoOne(NoOne::Tag(), 1), x).v; }; break;
        case 4: c.name = "factorial"; c.valid = x >= 0; c.lib = [x] { got = factorial(x); }; break;
        case 5: c.name = "factorial of a 64-bit integer"; c.valid = x >= 0; c.lib = [x] { got = factorial((long long)x); }; break;
        case 6: c.name = "permutation"; c.valid = n >= 0 && k >= 0 && k <= n; c.lib = [n, k] { got = permutation(n, k); }; break;
        default: c.name = "binomial"; c.valid = n >= 0 && k >= 0 && k <= n; c.lib = [n, k] { got = binomial(n, k); }; break;
      }
      break;
    }
    case G_RANDOM: case G_FREE: {
      bool fr = s.op == G_FREE;
      int lo = e == 7 ? INT_MIN : e == 8 ? INT_MAX : (int)(raw % 200) - 100;
      int hi = e == 0 ? lo : e == 1 ? lo - (lo > INT_MIN) : e == 2 ? lo + (lo < INT_MAX) : e == 3 ? INT_MIN : e == 4 ? INT_MAX : e == 5 ? -lo : lo < INT_MAX - 1000 ? lo + 1 + (int)(raw / 200 % 500) : INT_MAX;
      int mx = e == 0 ? 0 : e == 1 ? -1 : e == 2 ? 1 : e == 3 ? INT_MIN : e == 4 ? INT_MAX : e == 5 ? -(int)(raw % 100) - 1 : 1 + (int)(raw % 500);
      double dl = (double)lo / 8, dh = e == 0 ? dl : e == 1 ? std::nextafter(dl, -1e300) : e == 2 ? dl - 1 : e == 3 ? -1e300 : dl + (double)(raw % 90) / 7;
      if (e == 4) { dl = -1.7e308; dh = 1.7e308; }
      double dm = e == 0 ? 0 : e == 1 ? -1e-300 : e == 2 ? -1 : e == 3 ? -1e300 : (double)(raw % 90) / 7;
      Random* g = w.rnd;
      static volatile double got;
      switch (op % 4) {
        case 0: c.name = "integer range"; c.valid = lo < hi; c.lib = [=] { got = fr ? randomInt(lo, hi) : g->nextInt(lo, hi); }; break;
        case 1: c.name = "integer bound"; c.valid = mx > 0; c.lib = [=] { got = fr ? randomInt(mx) : g->nextInt(mx); }; break;
        case 2: c.name = "real range"; c.valid = dl <= dh; c.lib = [=] { got = fr ? randomDouble(dl, dh) : g->nextDouble(dl, dh); }; break;
        default: c.name = "real bound"; c.valid = dm >= 0; c.lib = [=] { got = fr ? randomDouble(dm) : g->nextDouble(dm); }; break;
      }
      break;
    }
    case G_DIST: {
      Random* g = w.rnd;
      bool own = raw & 1;
      double prob = e == 0 ? -0.001 : e == 1 ? 1.001 : e == 2 ? 0 : e == 3 ? 1 : e == 4 ? -1 : e == 5 ? 2 : e == 6 ? std::nextafter(1.0, 2.0) : e == 7 ? -1e-300 : (double)(raw / 2 % 100) / 100 + 0.005;
      double pos = e == 0 ? 0 : e == 1 ? -1 : e == 2 ? -1e-300 : e == 3 ? 1e-3 : e == 4 ? -1e9 : e == 5 ? -0.5 : raw % 41 == 0 ? 600.0 + (double)(raw % 2500) : 0.5 + (double)(raw / 2 % 40) / 4;
      int cnt = e == 8 ? -1 : e == 9 ? 0 : e == 10 ? INT_MIN : e == 11 ? 1 : raw % 43 == 0 ? 500 + (int)(raw % 2500) : 1 + (int)(raw / 3 % 20);
      int lo = (int)(raw / 7 % 100) - 50, hi = e == 0 ? lo : e == 1 ? lo - 1 : e == 2 ? lo + 1 : e == 3 ? INT_MIN : e == 4 ? -lo : e == 5 ? INT_MAX : lo + 1 + (int)(raw / 700 % 100);
      if (e == 6) { lo = INT_MIN; hi = raw & 2 ? INT_MAX : INT_MIN + (int)(raw % 3); }
      if (e == 7) { lo = -2000000000; hi = 2000000000; }
      double dl = (double)lo / 4, dh = e == 0 ? dl : e == 1 ? std::nextafter(dl, -1e300) : e == 2 ? dl - 1 : e == 3 ? -1e300 : dl + (double)(raw / 700 % 100) / 4;
      static volatile double got;
#define TWO(D, ...) (own ? std::unique_ptr<D>(new D(__VA_ARGS__)) : std::unique_ptr<D>(new D(*g, __VA_ARGS__)))
      // a distribution that was accepted can be sampled
      switch (op % 14) {
        case 0: c.name = "Bernoulli"; c.valid = prob >= 0 && prob <= 1; c.lib = [=] { got = TWO(BernoulliDistribution, prob)->next(); }; break;
        case 1: c.name = "binomial"; c.valid = prob >= 0 && prob <= 1 && cnt >= 0; c.lib = [=] { got = TWO(BinomialDistribution, cnt, prob)->next(); }; break;
        case 2: c.name = "chi-squared"; c.valid = pos > 0; c.lib = [=] { got = TWO(ChiSquaredDistribution, pos)->next(); }; break;
        case 3: c.name = "exponential"; c.valid = pos > 0; c.lib = [=] { got = TWO(ExponentialDistribution, pos)->next(); }; break;
        case 4: c.name = "gamma (shape)"; c.valid = pos > 0; c.lib = [=] { got = TWO(GammaDistribution, pos, 1.5)->next(); }; break;
        case 5: c.name = "gamma (scale)"; c.valid = pos > 0; c.lib = [=] { got = TWO(GammaDistribution, 1.5, pos)->next(); }; break;
        case 6: c.name = "geometric"; c.valid = prob > 0 && prob <= 1; c.lib = [=] { got = TWO(GeometricDistribution, prob)->next(); }; break;
        case 7: c.name = "negative binomial"; c.valid = prob > 0 && prob <= 1 && cnt > 0; c.lib = [=] { got = TWO(NegativeBinomialDistribution, cnt, prob)->next(); }; break;
        case 8: c.name = "normal"; c.valid = pos > 0; c.lib = [=] { got = TWO(NormalDistribution, 0.5, pos)->next(); }; break;
        case 9: c.name = "Poisson"; c.valid = pos > 0; c.lib = [=] { got = TWO(PoissonDistribution, pos)->next(); }; break;
        case 10: c.name = "Student's t"; c.valid = pos > 0; c.lib = [=] { got = TWO(StudentTDistribution, pos)->next(); }; break;
        case 11: c.name = "uniform"; c.valid = dl <= dh; c.lib = [=] { got = TWO(UniformDistribution, dl, dh)->next(); }; break;
        case 12: c.name = "uniform integer"; c.valid = lo < hi; c.lib = [=] { got = TWO(UniformIntDistribution, lo, hi)->next(); }; break;
        default: c.name = "uniform integer with a bound"; c.valid = hi > 0; c.lib = [=] { got = TWO(UniformIntDistribution, hi)->next(); }; break;
      }
      break;
    }
    default: {
      const int nb = sizeof BADJSON / sizeof *BADJSON, ng = sizeof GOODJSON / sizeof *GOODJSON;
      bool bad = e < 12;
      std::string t = bad ? BADJSON[raw % nb] : GOODJSON[raw % ng];
      for (int k = t.find_first_not_of(' ') == std::string::npos ? 0 : raw / 32 % 8 == 0 ? (int)(raw / 256 % 40) : raw / 32 % 8 == 1 ? 1 : 0; k > 0; k--)
        t = (k + raw) % 3 ? "[" + t + "]" : (k + raw) % 2 ? "{\"k\" : " + t + " }" : "[true, \n" + t + " , 7]";
      c.name = "reading " + t;
      c.valid = !bad;
      c.lib = [t] { JSONObject o = loadJSON(t); };
      break;
    }
  }
  return c;
}
static void exec(const Plan& p) {
  World w;
  auto quiet = [&](const std::function<void()>& f) {
    CallInfo ci = call(f);
    SIM_CHECK(ci.out == O_OK, "observation-failed", "a harmless call ended with %s %s", outcomeName(ci.out), ci.what.c_str());
  };
  quiet([&] { w.v = new Vector<int>; w.l = new List<int>; w.q = new Queue<int>; w.k = new Stack<int>; w.m = new Map<int, int>; w.ms = new MultiSet<int>; w.rnd = new Random(7); });
  for (const Step& s : p.steps) {
    Case c = make(w, s);
    Arm arm;
    if (s.fk == F_STREAM) setStderrSink((SinkMode)s.fa, s.fb);
    else if (s.fk) { arm.kind = s.fk; arm.k = s.fa; }
    takeStderr();
    CallInfo ci = call(arm, c.lib);
    std::string err = takeStderr();
    setStderrSink(SINK_OK, 0);
    g_run->log("%s: %s (%s) -> %s%s", gname(s.op), c.name.c_str(), c.valid ? "valid" : "misuse", outcomeName(ci.out), ci.fired ? " (fault)" : "");
    if (ci.out == O_BADALLOC) {
      SIM_CHECK(ci.fired && s.fk != F_STREAM, "spurious-failure", "%s: %s ran out of memory without a fault", gname(s.op), c.name.c_str());
      return;     // what containers hold then is the subject of C05
    }
    if (c.valid) {
      SIM_CHECK(ci.out == O_OK, "valid-refused", "%s: valid %s ended with %s %s %s", gname(s.op), c.name.c_str(), outcomeName(ci.out), ci.what.c_str(), err.c_str());
      SIM_CHECK(err.empty(), "noise", "%s: valid %s wrote to standard error: %s", gname(s.op), c.name.c_str(), err.c_str());
      c.done();
    } else {
      SIM_CHECK(ci.out != O_OK, "misuse-accepted", "%s: invalid %s returned", gname(s.op), c.name.c_str());
      SIM_CHECK(ci.out == O_EXIT, "wrong-failure", "%s: invalid %s ended with %s %s", gname(s.op), c.name.c_str(), outcomeName(ci.out), ci.what.c_str());
      SIM_CHECK(ci.exitCode != 0, "wrong-status", "%s: invalid %s ended the process with status %d", gname(s.op), c.name.c_str(), ci.exitCode);
      if (s.fk != F_STREAM) SIM_CHECK(err.size() > 1, "no-diagnostic", "%s: invalid %s ended the process without a diagnostic", gname(s.op), c.name.c_str());
      probe("misuse_reported");
      return;
    }
  }
  bool same = true;
  quiet([&] {
    same = w.v->size() == (int)w.mv.size() && w.l->size() == (int)w.ml.size() && w.q->size() == (int)w.mq.size() && w.k->size() == (int)w.mk.size() && w.m->size() == (int)w.mm.size() && w.ms->size() == (int)w.mms.size();
    int i = 0;
    for (int x : *w.v) same = same && x == w.mv[(size_t)i++];
    i = 0;
    for (int x : *w.l) same = same && x == w.ml[(size_t)i++];
  });
  SIM_CHECK(same, "wrong-content", "valid calls left a container with other contents than its history says");
  quiet([&] { delete w.v; delete w.l; delete w.q; delete w.k; delete w.m; delete w.ms; delete w.rnd; });
}
static void warm() { randomBool(); }
static Property PR = {"C13", gen, exec, warm};
namespace sim { Property* getProperty() { return &PR; } }
