// C18: matrices over histories of arithmetic, copies and assignments, operands
// being the target itself included, with allocation failures.
#include "sim.h"
#include <algorithm>
#include <cmath>
#include "math_utils/Matrix.h"
#include "math_utils/math_functions.h"
using namespace sim;
typedef cuhksz::Matrix<double> M;
typedef std::vector<std::vector<double>> V;
static const double EXACT = 1125899906842624.0;   // 2^50: sums and products below are exact
enum { NEW_SQUARE, NEW_SIZE, NEW_ROWS, COPY, ASSIGN, ADD, SUB, MUL, ADD_EQ, SUB_EQ, MUL_EQ, POWER, POWER_OWN, SET, COMPARE, TEXT, REDUCE, CHAIN, M_N };
static const char* NM[] = {"creating a square matrix", "creating a matrix", "creating a matrix from rows", "copying a matrix", "assigning a matrix", "a sum", "a difference", "a product",
                           "adding to a matrix", "subtracting from a matrix", "multiplying a matrix", "a power", "a matrix power", "setting an element", "comparing", "converting to text", "reducing", "a compound expression"};
static void gen(Rng& r, Plan& p) {
  int n = (int)r.range(3, r.chance(20) ? 60 : 25);
  int dims = (int)r.pick({1, 2, 2, 3});            // few sizes: operands fit one another
  int top = r.below(40) == 0 ? (r.below(8) == 0 ? 70 : 24) : (int)r.pick({2, 3, 4, 6});
  for (int k = 0; k < 3; k++) p.cfg[k == 0 ? "d0" : k == 1 ? "d1" : "d2"] = k < dims ? r.range(1, top) : 0;
  p.cfg["dims"] = dims;
  p.cfg["seed"] = r.below(1 << 20);
  int rate = (int)r.pick({0, 30, 60}), self = (int)r.pick({0, 20, 60}), fresh = (int)r.pick({10, 25});
  for (int i = 0; i < n; i++) {
    Step s;
    s.op = r.chance(fresh) ? (int)r.range(NEW_SQUARE, NEW_ROWS) : (int)r.below(M_N);
    s.a[0] = r.below(4);                           // target
    s.a[1] = r.chance(self) ? s.a[0] : r.below(4);
    s.a[2] = r.chance(self) ? s.a[1] : r.below(4);
    s.a[3] = r.below(1 << 20);
    s.a[4] = r.below(1000);
    s.a[5] = r.below(1000);
    if (r.chance(rate)) {
      s.fk = (int)r.pick<i64>({F_OOM_SCAN, F_OOM_ONE, F_OOM_FROM, F_OOM_SIZE});
      s.fa = s.fk == F_OOM_SIZE ? r.pick<i64>({1, 9, 17, 33, 65}) : r.skew(12);
      s.fb = r.below(2);
    }
    p.steps.push_back(s);
  }
}
static int rows(const V& a) { return (int)a.size(); }
static int cols(const V& a) { return (int)a[0].size(); }
static double most(const V& a) { double m = 0; for (auto& x : a) for (double y : x) m = std::max(m, std::fabs(y)); return m; }
static V zero(int n, int m) { return V(n, std::vector<double>(m, 0.0)); }
static bool same(const V& a, const V& b) { return rows(a) == rows(b) && cols(a) == cols(b); }
static bool whole(const V& a) { for (auto& x : a) for (double y : x) if (y != std::floor(y)) return false; return true; }
static V plus(const V& a, const V& b, double f) { V c = a; for (int i = 0; i < rows(a); i++) for (int j = 0; j < cols(a); j++) c[i][j] += f * b[i][j]; return c; }
static V times(const V& a, const V& b) {
  V c = zero(rows(a), cols(b));
  for (int i = 0; i < rows(a); i++) for (int j = 0; j < cols(b); j++) for (int k = 0; k < cols(a); k++) c[i][j] += a[i][k] * b[k][j];
  return c;
}
// Would elimination with the first usable row be free of rounding?
static bool dyadic(V a) {
  auto ok = [](double x) { return std::fabs(x) < 1048576.0 && x * 4096 == std::floor(x * 4096); };
  for (int i = 0, r = 0; i < rows(a); i++) {
    int at = -1;
    for (; r < cols(a) && at < 0; ) { for (int j = i; j < rows(a); j++) if (a[j][r] != 0) { at = j; break; } if (at < 0) r++; }
    if (at < 0) return true;
    std::swap(a[at], a[i]);
    double p = a[i][r];
    int e;
    if (std::fabs(std::frexp(p, &e)) != 0.5) return false;
    for (double& x : a[i]) { x /= p; if (!ok(x)) return false; }
    for (int j = i + 1; j < rows(a); j++) {
      double f = a[j][r];
      for (int k = 0; k < cols(a); k++) { a[j][k] -= f * a[i][k]; if (!ok(a[j][k])) return false; }
    }
  }
  return true;
}
static std::vector<std::vector<long double>> canonical(const V& v) {
  std::vector<std::vector<long double>> a;
  for (auto& x : v) a.emplace_back(x.begin(), x.end());
  int i = 0;
  for (int r = 0; r < cols(v) && i < rows(v); r++) {
    int at = i;
    for (int j = i; j < rows(v); j++) if (std::fabs(a[j][r]) > std::fabs(a[at][r])) at = j;
    if (std::fabs(a[at][r]) < 1e-9L) { for (int j = i; j < rows(v); j++) a[j][r] = 0; continue; }
    std::swap(a[at], a[i]);
    long double p = a[i][r];
    for (auto& x : a[i]) x /= p;
    for (int j = 0; j < rows(v); j++) if (j != i) { long double f = a[j][r]; for (int k = 0; k < cols(v); k++) a[j][k] -= f * a[i][k]; }
    i++;
  }
  return a;
}
struct World {
  M* m[4] = {};
  V v[4];
  Rng r;
  const Plan& p;
  World(const Plan& p) : r((u64)p.get("seed")), p(p) {}
  int dim(i64 x) { i64 d = p.get("dims", 1); return (int)std::max<i64>(1, p.get(x % d == 0 ? "d0" : x % d == 1 ? "d1" : "d2", 2)); }
  void equal(int k, const char* nm, const char* when) {
    V got = zero(rows(v[k]), cols(v[k]));
    CallInfo ci = call([&] { const M& c = *m[k]; for (int i = 0; i < rows(got); i++) for (int j = 0; j < cols(got); j++) got[i][j] = c[i][j]; });
    SIM_CHECK(ci.out == O_OK, "wrong-failure", "reading a matrix ended with %s", outcomeName(ci.out));
    for (int i = 0; i < rows(got); i++)
      for (int j = 0; j < cols(got); j++)
        SIM_CHECK(got[i][j] == v[k][i][j], "wrong-value", "%s (%s) element [%d][%d] of matrix %d (%d x %d) is %.17g, not %.17g", nm, when, i, j, k, rows(got), cols(got), got[i][j], v[k][i][j]);
  }
  static std::string plain(std::string s) {
    for (size_t at; (at = s.find("-0.000000")) != std::string::npos; ) s.erase(at, 1);
    return s;
  }
  void text(int k) {
    std::string got, want;
    CallInfo ci = call([&] { std::string t = m[k]->toString(); Out o; got.assign(t.data(), t.size()); });
    SIM_CHECK(ci.out == O_OK, "wrong-failure", "converting to text ended with %s", outcomeName(ci.out));
    for (auto& x : v[k]) { for (size_t j = 0; j < x.size(); j++) { char b[400]; snprintf(b, sizeof b, "%s%f", j ? ", " : "", x[j]); want += b; } want += "\n"; }
    SIM_CHECK(plain(got) == plain(want), "wrong-text", "the text of matrix %d is \"%s\", not \"%s\"", k, got.c_str(), want.c_str());
  }
  void compare(int a, int b) {
    int g = 0;
    CallInfo ci = call([&] { const M &x = *m[a], &y = *m[b]; g = (x == y) + 2 * (x != y); });
    SIM_CHECK(ci.out == O_OK, "wrong-failure", "comparing ended with %s", outcomeName(ci.out));
    bool eq = same(v[a], v[b]) && v[a] == v[b];
    SIM_CHECK(g == (eq ? 1 : 2), "wrong-comparison", "matrices %d and %d are %sequal, but == says %d and != says %d", a, b, eq ? "" : "not ", g & 1, g >> 1);
  }
  void fresh(int k) {   // without faults
    V w = zero(dim(r.below(3)), dim(r.below(3)));
    CallInfo ci = call([&] { M* x = new M(rows(w), cols(w)); delete m[k]; m[k] = x; });
    SIM_CHECK(ci.out == O_OK, "wrong-failure", "creating a matrix ended with %s", outcomeName(ci.out));
    v[k] = w;
    fill(k, (int)r.below(4));
  }
  double value(Rng& q, int kind) {
    if (kind == 4) { double x = (double)q.pick<i64>({0, 1, 1, 2, 32, 128, 256, 1024}); return q.chance(50) ? x : -x; }
    return (double)(kind == 0 ? q.range(-9, 9) : kind == 1 ? q.range(-1, 1) : kind == 2 ? q.range(-2, 2) : q.range(-100000, 100000));
  }
  // at most one element of each row and column is not 0, and it is 1 or -1
  void fillUnits(int k, Rng& q, bool all) {
    V& w = v[k];
    std::vector<int> c(cols(w));
    for (int j = 0; j < cols(w); j++) c[j] = j;
    for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[(size_t)q.below((i64)i)]);
    for (int i = 0; i < rows(w); i++) for (double& y : w[i]) y = 0;
    for (int i = 0; i < rows(w) && i < cols(w); i++) if (all || q.chance(80)) w[i][c[i]] = q.chance(50) ? 1 : -1;
    for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[(size_t)q.below((i64)i)]);
    write(k);
  }
  void fill(int k, int kind) {
    for (auto& x : v[k]) for (double& y : x) y = value(r, kind);
    write(k);
  }
  void write(int k) {
    CallInfo ci = call([&] { for (int i = 0; i < rows(v[k]); i++) for (int j = 0; j < cols(v[k]); j++) (*m[k])[i][j] = v[k][i][j]; });
    SIM_CHECK(ci.out == O_OK, "wrong-failure", "writing a matrix ended with %s", outcomeName(ci.out));
  }
  void step(const Step& s) {
    if (s.op < 0 || s.op >= M_N) return;
    int t = (int)(s.a[0] & 3), a = (int)(s.a[1] & 3), b = (int)(s.a[2] & 3);
    const char* nm = NM[s.op];
    Rng q((u64)s.a[3]);
    V want;                       // new value of the target
    std::function<M*()> make;     // gives a new matrix that replaces the target
    std::function<void()> change; // changes the target
    std::vector<std::vector<int>> ini;
    int n = dim(s.a[4]), c = dim(s.a[5]), e = 1;
    switch (s.op) {
      case NEW_SQUARE: want = zero(n, n); make = [&] { return new M(n); }; break;
      case NEW_SIZE: want = zero(n, c); make = [&] { return new M(n, c); }; break;
      case NEW_ROWS: {
        want = zero(n, c);
        ini.assign(n, std::vector<int>(c));
        int kind = (int)q.below(4);
        for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) ini[i][j] = (int)(want[i][j] = value(q, kind));
        make = [&] { return new M(ini); };
        break;
      }
      case COPY: want = v[a]; make = [&] { return new M(*m[a]); }; break;
      case ASSIGN: want = v[a]; change = [&] { *m[t] = *m[a]; }; break;
      case ADD: if (!same(v[a], v[b])) return; want = plus(v[a], v[b], 1); make = [&] { return new M(*m[a] + *m[b]); }; break;
      case SUB: if (!same(v[a], v[b])) return; want = plus(v[a], v[b], -1); make = [&] { return new M(*m[a] - *m[b]); }; break;
      case MUL: if (cols(v[a]) != rows(v[b])) return; want = times(v[a], v[b]); make = [&] { return new M(*m[a] * *m[b]); }; break;
      case ADD_EQ: if (!same(v[t], v[a])) return; want = plus(v[t], v[a], 1); change = [&] { *m[t] += *m[a]; }; break;
      case SUB_EQ: if (!same(v[t], v[a])) return; want = plus(v[t], v[a], -1); change = [&] { *m[t] -= *m[a]; }; break;
      case MUL_EQ: if (cols(v[t]) != rows(v[a])) return; want = times(v[t], v[a]); change = [&] { *m[t] *= *m[a]; }; break;
      case POWER: case POWER_OWN: {
        if (rows(v[a]) != cols(v[a])) return;
        e = (int)q.range(s.op == POWER ? 1 : 0, 12);
        want = zero(rows(v[a]), rows(v[a]));
        for (int i = 0; i < rows(want); i++) want[i][i] = 1;
        if (s.a[4] % 5 == 0) {   // large exponents of matrices whose powers stay small
          unsigned n = (unsigned)q.pick<i64>({13, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537, 1000003, 2147483647, 2147483646});
          if (s.op == POWER_OWN && q.chance(20)) n = (unsigned)q.pick<i64>({2147483648LL, 4294967295LL, 3000000001LL});
          fillUnits(a, q, q.chance(80));
          V sq = v[a];
          for (unsigned k = n; k; k >>= 1) { if (k & 1) want = times(want, sq); sq = times(sq, sq); }
          for (auto& x : want) for (double& y : x) y += 0.0;
          if (s.op == POWER) make = [&, n] { return new M(cuhksz::genericBinaryPow(*m[a], (int)n)); };
          else make = [&, n] { return &pow(*m[a], n); };
          break;
        }
        double g = std::max(1.0, most(v[a])) * rows(want), bound = 1;
        for (int i = 0; i < 2 * e; i++) bound = std::min(bound * g, 1e30);   // squarings may run ahead
        if (bound > EXACT) return;
        for (int i = 0; i < e; i++) want = times(want, v[a]);
        if (s.op == POWER) make = [&] { return new M(cuhksz::genericBinaryPow(*m[a], e)); };
        else make = [&] { return &pow(*m[a], (unsigned)e); };
        break;
      }
      case CHAIN:
        if (!same(v[a], v[b]) || !same(v[t], v[a]) || rows(v[a]) != cols(v[a])) return;
        want = plus(times(plus(v[a], v[b], 1), v[t]), v[a], -1);
        change = [&] { *m[t] = (*m[a] + *m[b]) * *m[t] - *m[a]; };
        break;
      case SET: {
        int i = (int)(s.a[4] % rows(v[t])), j = (int)(s.a[5] % cols(v[t]));
        double x = value(q, (int)q.below(4));
        want = v[t];
        want[i][j] = x;
        change = [&, i, j, x] { (*m[t])[i][j] = x; };
        break;
      }
      case COMPARE: compare(a, b); return;
      case TEXT: text(a); return;
      default: {   // REDUCE
        bool spread = rows(v[t]) == 2 && cols(v[t]) <= 6 && s.a[4] % 2;   // pivots of very different sizes
        if (spread) for (int i = 0; i < 8; i++) { fill(t, 4); if (dyadic(v[t])) break; }
        bool units = rows(v[t]) > 6 || cols(v[t]) > 6 || s.a[4] % 16 == 0;
        if (units) fillUnits(t, q, false), spread = false;
        else if (rows(v[t]) > 6 || cols(v[t]) > 6 || (!spread && most(v[t]) > 20) || !whole(v[t]) || !dyadic(v[t])) fill(t, 2);
        if (!units && !dyadic(v[t])) return;
        CallInfo ci = call([&] { m[t]->reduce(); });
        SIM_CHECK(ci.out == O_OK, "wrong-failure", "reducing ended with %s", outcomeName(ci.out));
        V got = v[t];
        int lead = -1;
        for (int i = 0; i < rows(got); i++) {
          int f = -1;
          for (int j = 0; j < cols(got); j++) { got[i][j] = (*m[t])[i][j]; if (f < 0 && got[i][j] != 0) f = j; }
          SIM_CHECK(f < 0 ? true : got[i][f] == 1, "not-reduced", "a reduced row starts with %.17g, not 1", f < 0 ? 0.0 : got[i][f]);
          SIM_CHECK(f < 0 || (lead < cols(got) && f > lead), "not-reduced", "row %d of a reduced matrix starts at column %d, not behind %d", i, f, lead);
          lead = f < 0 ? cols(got) : f;
        }
        auto x = canonical(v[t]), y = canonical(got);
        for (int i = 0; i < rows(got); i++) for (int j = 0; j < cols(got); j++)
          SIM_CHECK(std::fabs(x[i][j] - y[i][j]) < 1e-6L, "wrong-value", "reducing changed what the rows span");
        probe("reduced");
        g_run->log("reduce %d (%d x %d)", t, rows(got), cols(got));
        v[t] = got;
        for (int k = 0; k < 4; k++) equal(k, nm, "afterwards");
        return;
      }
    }
    if (most(want) * std::max(rows(want), cols(want)) > EXACT) { g_run->log("%s: skipped", nm); return; }
    for (int k : {t, a, b}) if (s.op >= ADD && (!whole(v[k]) || most(v[k]) > EXACT)) { if (whole(v[k]) || s.op == MUL || s.op == MUL_EQ || s.op == POWER || s.op == POWER_OWN || s.op == CHAIN) return; }
    if (s.op == MUL || s.op == MUL_EQ || s.op == CHAIN) {
      double g = 1;
      for (int k : {t, a, b}) g = std::max(g, most(v[k]));
      if (g * g * 2 * 64 > EXACT) return;
    }
    bool finished = false;
    auto attempt = [&](Arm arm) {
      size_t before = liveBlocks();
      M* x = nullptr;
      CallInfo ci = call(arm, [&] { if (make) x = make(); else change(); });
      g_run->log("%s %d %d %d: %s%s", nm, t, a, b, outcomeName(ci.out), ci.fired ? " (fault)" : "");
      if (ci.out == O_BADALLOC) {
        SIM_CHECK(ci.fired, "spurious-failure", "%s ran out of memory without a fault", nm);
        SIM_CHECK(liveBlocks() == before, "leak", "%s left %zu blocks behind when memory ran out: %s", nm, liveBlocks() - before, describeLive().c_str());
        for (int k = 0; k < 4; k++) equal(k, nm, "after memory ran out");
        return false;
      }
      SIM_CHECK(ci.out == O_OK, "wrong-failure", "%s ended with %s %s", nm, outcomeName(ci.out), ci.what.c_str());
      if (make) {
        ci = call([&] { delete m[t]; });
        SIM_CHECK(ci.out == O_OK, "wrong-failure", "destroying a matrix ended with %s", outcomeName(ci.out));
        m[t] = x;
      }
      v[t] = want;
      for (int k = 0; k < 4; k++) equal(k, nm, "afterwards");
      return true;
    };
    if (s.fk == F_OOM_SCAN) {
      for (int j = 0; j < 300 && !finished; j++) { Arm x; x.kind = F_OOM_ONE; x.k = j; finished = attempt(x); }
    } else if (s.fk) {
      Arm x;
      x.kind = s.fk;
      x.k = s.fa;
      finished = attempt(x);
      if (!finished && (s.fb & 1)) return;
    }
    if (!finished) attempt(Arm());
    compare(t, a);
    if (s.op <= NEW_SIZE) fill(t, (int)q.below(4));
  }
};
static void exec(const Plan& p) {
  World w(p);
  for (int k = 0; k < 4; k++) w.fresh(k);
  for (const Step& s : p.steps) w.step(s);
  for (int k = 0; k < 4; k++) { w.text(k); for (int j = 0; j < 4; j++) w.compare(k, j); }
  CallInfo ci = call([&] { for (int k = 0; k < 4; k++) delete w.m[k]; });
  SIM_CHECK(ci.out == O_OK, "wrong-failure", "destroying a matrix ended with %s", outcomeName(ci.out));
  SIM_CHECK(liveBlocks() == 0, "leak", "%zu blocks survive: %s", liveBlocks(), describeLive().c_str());
}
static Property PR = {"C18", gen, exec, nullptr};
namespace sim { Property* getProperty() { return &PR; } }
