// C15: samples follow the law of their distribution, and samples taken in turn
// from one generator are independent.
#include "dists.h"
#include <algorithm>
using namespace sim;
using namespace dists;
using namespace cuhksz;

// ------------------------------------------------------------------ reference laws
static double gammaP(double a, double x) {        // regularised lower incomplete gamma function
  if (x <= 0) return 0;
  double lg = a * std::log(x) - x - std::lgamma(a);
  if (x < a + 1) {
    double sum = 1 / a, t = sum;
    for (int n = 1; n < 100000; n++) { t *= x / (a + n); sum += t; if (t < sum * 1e-15) break; }
    return std::min(1.0, sum * std::exp(lg));
  }
  double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
  for (int i = 1; i < 100000; i++) {
    double an = -i * (i - a);
    b += 2;
    d = an * d + b; if (std::fabs(d) < 1e-300) d = 1e-300;
    c = b + an / c; if (std::fabs(c) < 1e-300) c = 1e-300;
    d = 1 / d;
    double del = d * c;
    h *= del;
    if (std::fabs(del - 1) < 1e-15) break;
  }
  return std::max(0.0, 1 - std::exp(lg) * h);
}
static double betaCF(double a, double b, double x) {
  double qab = a + b, qap = a + 1, qam = a - 1, c = 1, d = 1 - qab * x / qap;
  if (std::fabs(d) < 1e-300) d = 1e-300;
  d = 1 / d;
  double h = d;
  for (int m = 1; m < 10000; m++) {
    double aa = m * (b - m) * x / ((qam + 2 * m) * (a + 2 * m));
    d = 1 + aa * d; if (std::fabs(d) < 1e-300) d = 1e-300;
    c = 1 + aa / c; if (std::fabs(c) < 1e-300) c = 1e-300;
    d = 1 / d;
    h *= d * c;
    aa = -(a + m) * (qab + m) * x / ((a + 2 * m) * (qap + 2 * m));
    d = 1 + aa * d; if (std::fabs(d) < 1e-300) d = 1e-300;
    c = 1 + aa / c; if (std::fabs(c) < 1e-300) c = 1e-300;
    d = 1 / d;
    double del = d * c;
    h *= del;
    if (std::fabs(del - 1) < 1e-15) break;
  }
  return h;
}
static double betaI(double a, double b, double x) {
  if (x <= 0) return 0;
  if (x >= 1) return 1;
  double f = std::exp(std::lgamma(a + b) - std::lgamma(a) - std::lgamma(b) + a * std::log(x) + b * std::log1p(-x));
  return x < (a + 1) / (a + b + 2) ? f * betaCF(a, b, x) / a : 1 - f * betaCF(b, a, 1 - x) / b;
}
static double logPmf(const Param& p, double k) {
  switch (p.kind) {
    case BINOMIAL: {
      double n = p.i, q = p.x;
      if (q <= 0) return k == 0 ? 0 : -1e300;
      if (q >= 1) return k == n ? 0 : -1e300;
      return std::lgamma(n + 1) - std::lgamma(k + 1) - std::lgamma(n - k + 1) + k * std::log(q) + (n - k) * std::log1p(-q);
    }
    case GEOMETRIC: case NEGBIN: {
      double r = p.kind == GEOMETRIC ? 1 : p.i, q = p.x;
      if (q >= 1) return k == 0 ? 0 : -1e300;
      return std::lgamma(k + r) - std::lgamma(k + 1) - std::lgamma(r) + r * std::log(q) + k * std::log1p(-q);
    }
    default: return k * std::log(p.x) - p.x - std::lgamma(k + 1);
  }
}
struct Law {
  Param p;
  std::vector<double> cum;      // cum[k] = P(X < k), grown on demand
  explicit Law(const Param& q) : p(q), cum(1, 0.0) {}
  // [P(X < v), P(X <= v)]
  std::pair<double, double> cdf(double v) {
    auto both = [](double f) { return std::make_pair(f, f); };
    switch (p.kind) {
      case BERNOULLI: return v == 0 ? std::make_pair(0.0, 1 - p.x) : std::make_pair(1 - p.x, 1.0);
      case BINOMIAL: case GEOMETRIC: case NEGBIN: case POISSON: {
        size_t k = (size_t)v;
        if (v > 5e6) return both(1);
        while (cum.size() < k + 2) cum.push_back(std::min(1.0, cum.back() + std::exp(logPmf(p, (double)cum.size() - 1))));
        return std::make_pair(cum[k], cum[k + 1]);
      }
      case CHI2: return both(gammaP(p.x / 2, v / 2));
      case EXPONENTIAL: return both(-std::expm1(-p.x * v));
      case GAMMA: return both(gammaP(p.x, v / p.y));
      case NORMAL: return both(0.5 * std::erfc(-(v - p.x) / p.y / std::sqrt(2.0)));
      case STUDENT: {
        double t = 0.5 * betaI(p.x / 2, 0.5, p.x / (p.x + v * v));
        return both(v > 0 ? 1 - t : t);
      }
      case UNIFORM: case UNIFORM1: return both((v / 2 - p.x / 2) / (p.y / 2 - p.x / 2));   // the width may not fit
      default: {
        double w = (double)p.j - (double)p.i;
        return std::make_pair((v - p.i) / w, (v - p.i + 1) / w);
      }
    }
  }
};
// ------------------------------------------------------------------ tests with proven error bounds
static const double LOGDELTA = 27.6;     // each test errs with probability below 1e-12
static void uniformity(std::vector<double> u, const std::string& what) {
  size_t n = u.size();
  if (n < 200) return;
  std::sort(u.begin(), u.end());
  double worst = 0;
  for (size_t i = 0; i < n; i++) worst = std::max({worst, (double)(i + 1) / n - u[i], u[i] - (double)i / n});
  double eps = std::sqrt((LOGDELTA + std::log(2.0)) / (2.0 * n)) + 1e-7;      // Dvoretzky-Kiefer-Wolfowitz
  SIM_CHECK(worst <= eps, "wrong-law", "%s: %zu samples deviate by %.4f from the law, bound %.4f", what.c_str(), n, worst, eps);
  // tails and cells: Chernoff bound for the count of a cell of known probability
  auto cell = [&](double lo, double hi) {
    double q = hi - lo, m = (double)(std::lower_bound(u.begin(), u.end(), hi) - std::lower_bound(u.begin(), u.end(), lo));
    double f = m / n;
    if (std::fabs(f - q) < 1e-6) return;
    double kl = (f > 0 ? f * std::log(f / q) : 0) + (f < 1 ? (1 - f) * std::log((1 - f) / (1 - q)) : 0);
    SIM_CHECK(n * kl <= LOGDELTA + std::log(200.0), "wrong-law", "%s: %.0f of %zu samples in the part [%.5f, %.5f] of the law", what.c_str(), m, n, lo, hi);
  };
  for (int k = 3; k <= 16; k++) { double q = std::ldexp(1.0, -k); if (q * n < 5) break; cell(0, q); cell(1 - q, 1.0000001); }
  for (int k = 0; k < 32; k++) cell(k / 32.0, (k + 1) / 32.0);
}
// every single value of a discrete law
static void values(const std::vector<double>& v, Law& law, const std::string& what) {
  size_t n = v.size();
  if (n < 200) return;
  double lo = law.p.kind == UNIFORMINT || law.p.kind == UNIFORMINT1 ? law.p.i : 0, hi = lo;
  std::map<double, size_t> count;
  for (double x : v) { count[x]++; hi = std::max(hi, x); }
  if (law.p.kind == UNIFORMINT || law.p.kind == UNIFORMINT1) hi = law.p.j - 1;
  if (law.p.kind == BERNOULLI) hi = 1;
  if (law.p.kind == BINOMIAL) hi = law.p.i;
  if (hi - lo > 3000) return;
  for (double x = lo; x <= hi; x++) {
    auto c = law.cdf(x);
    double q = c.second - c.first, f = (double)count[x] / n;
    if (q * n < 5 || q > 1 - 1e-9) continue;
    double kl = (f > 0 ? f * std::log(f / q) : 0) + (f < 1 ? (1 - f) * std::log((1 - f) / (1 - q)) : 0);
    SIM_CHECK(n * kl <= LOGDELTA + std::log(3000.0), "wrong-law", "%s: %zu of %zu samples are %g, expected share %.6f", what.c_str(), count[x], n, x, q);
  }
}
// Equal samples are as rare as the law and the spacing of doubles allow; pairs: expected number of equal pairs.
static void repeats(std::vector<double> v, double pairs, const std::string& what) {
  std::sort(v.begin(), v.end());
  double c = 0;
  for (size_t i = 0; i < v.size(); ) { size_t j = i; while (j < v.size() && v[j] == v[i]) j++; c += (double)(j - i - 1); i = j; }
  if (c < 4 || c <= pairs) return;
  double logp = -pairs + c * (1 + std::log(pairs / c));
  SIM_CHECK(logp >= -LOGDELTA, "wrong-law", "%s: %.0f of %zu samples repeat earlier ones, expected about %.3g", what.c_str(), c, v.size(), pairs);
}
static double spacing(double x) { x = std::fabs(x); return std::nextafter(x, INFINITY) - x; }
static double frac(double x) { return x - std::floor(x); }

// ------------------------------------------------------------------ workload
// kinds of consumers: distributions and members of the generator, free functions
enum { U_DIST, U_INT, U_REAL, U_BOOL, U_INTFULL, U_INTMAX, U_REALMAX, U_REAL01, F_INT, F_REAL, F_BOOL, F_INTFULL, F_INTMAX, F_REALMAX, F_REAL01, U_N };
static const int F_FIRST = F_INT, F_SHIFT = F_INT - U_INT;
struct Consumer {
  int type = 0;
  Param p;
  Any* d = nullptr;
  Law law;
  std::string name;
  std::vector<double> u, raw, all;      // raw: of discrete laws
  Consumer() : law(Param()) {}
};
static void gen(Rng& r, Plan& p) {
  p.cfg["seed"] = (i64)(int)r.next();
  p.cfg["order"] = (i64)(r.next() >> 1);
  p.cfg["turns"] = r.range(0, 3);                 // round robin, bursts, random, one after another
  p.cfg["rounds"] = r.pick<i64>({2000, 8000, 20000, 20000, 60000});
  p.cfg["reseed"] = r.chance(20) ? r.range(1, 4) : 0;   // reseedings in between (3, 4: from the clock)
  p.cfg["how"] = r.below(5);                      // where the generator comes from
  int n = (int)r.pick({1, 1, 2, 3});
  if (r.chance(3)) { p.cfg["rounds"] = 600000; p.cfg["long"] = 1; n = 1; }   // far into the tails
  for (int i = 0; i < n; i++) {
    Step s;
    s.op = r.chance(62) ? U_DIST : (int)r.below(U_N);
    s.a[0] = r.below(NKINDS);
    s.a[1] = r.below(1000);
    s.a[2] = r.below(1000000);
    s.a[3] = r.chance(30);                        // wide parameters
    p.steps.push_back(s);
  }
}
static Param params(const Step& s) {
  Param q = decode(s.a[0], s.a[1], s.a[2], s.a[3] != 0);
  Rng r(mix((u64)s.a[2], 99));
  switch (q.kind) {      // keep to parameters whose values can be told apart in double precision
    case UNIFORM: q.x = (double)r.range(-50, 50) / 4; q.y = q.x + r.pick({1.0, 0.25, 17.5, 1e6}); if (r.below(12) == 0) { q.x = -1.6e308; q.y = r.pick({1.6e308, 1.0, 1.79e308}); } break;
    case UNIFORM1: q.x = 0; q.y = r.pick({1.0, 0.25, 17.5, 1e6, 1e-3}); break;
    case GAMMA: if (q.x < 0.05) q.x = 0.05; break;
    case CHI2: if (q.x < 0.1) q.x = 0.1; break;
    case NORMAL: if (std::fabs(q.x) > 1e3) q.x = 1000; break;
  }
  return q;
}
static double cost(const Consumer& c) {
  if (c.type != U_DIST) return 1;
  const Param& p = c.p;
  switch (p.kind) {
    case BINOMIAL: return 1 + p.i * p.x / 3;
    case POISSON: return 1 + p.x / 3;
    case NEGBIN: case GEOMETRIC: return 1 + (p.kind == NEGBIN ? p.i : 1) * (1 - p.x) / p.x / 3;
    case GAMMA: return 3 + p.x;
    case CHI2: case STUDENT: return 3 + p.x / 2;
    default: return 2;
  }
}
static void exec(const Plan& p) {
  Rng order((u64)p.get("order")), harness(mix((u64)p.get("order"), 5));
  Random* g = nullptr;
  auto quiet = [&](const std::function<void()>& f) {
    CallInfo ci = call(f);
    SIM_CHECK(ci.out == O_OK, "failed", "a valid call ended with %s %s", outcomeName(ci.out), ci.what.c_str());
  };
  int seed = (int)p.get("seed"), how = (int)p.get("how");
  setBudget(400000000);
  setClock(1500000000 + (seed & 0xffffff));
  quiet([&] {
    switch (how) {
      case 0: case 1: g = new Random(seed); break;
      case 2: g = new Random(); break;
      case 3: { Random other(seed); other.nextInt(); g = new Random(other); break; }
      default: g = new Random(1); g->setSeed(seed); break;
    }
  });
  std::vector<std::unique_ptr<Consumer>> cs;
  double total = 0;
  for (const Step& s : p.steps) {
    std::unique_ptr<Consumer> c(new Consumer);
    c->type = s.op;
    char b[200];
    Rng r(mix((u64)s.a[2], 7));
    const char* who = s.op >= F_FIRST ? "free functions: " : "";
    switch (s.op >= F_FIRST ? s.op - F_SHIFT : s.op) {
      case U_DIST:
        c->p = params(s);
        snprintf(b, sizeof b, "%s(x=%g y=%g i=%d j=%d)", kindName(c->p.kind), c->p.x, c->p.y, c->p.i, c->p.j);
        break;
      case U_INT: case U_INTMAX: {
        c->p.kind = UNIFORMINT;
        c->p.i = s.op == U_INT || s.op == F_INT ? (int)r.range(-1000, 1000) : 0;
        c->p.j = c->p.i + (int)r.pick<i64>({2, 3, 6, 10, 1000, 1000000, 1500000000, 1200000000, 2000000000});
        if (r.chance(15) && c->p.i != 0) c->p.i = -2000000000;      // wider than half of all integers
        snprintf(b, sizeof b, "%sintegers in [%d, %d)", who, c->p.i, c->p.j);
        break;
      }
      case U_REAL: c->p.kind = UNIFORM; c->p.x = (double)r.range(-40, 40) / 4; c->p.y = c->p.x + r.pick({1.0, 0.5, 12.0}); if (r.below(12) == 0) { c->p.x = -1.7e308; c->p.y = r.pick({1.5e308, 1e300, 1.79e308}); } snprintf(b, sizeof b, "%sreals in [%g, %g)", who, c->p.x, c->p.y); break;
      case U_REALMAX: c->p.kind = UNIFORM; c->p.x = 0; c->p.y = r.pick({1.0, 0.5, 12.0, 1e9, 1e-3}); snprintf(b, sizeof b, "%sreals in [%g, %g)", who, c->p.x, c->p.y); break;
      case U_REAL01: c->p.kind = UNIFORM; c->p.x = 0; c->p.y = 1; snprintf(b, sizeof b, "%sreals", who); break;
      case U_BOOL: c->p.kind = BERNOULLI; c->p.x = 0.5; snprintf(b, sizeof b, "%sbooleans", who); break;
      default: snprintf(b, sizeof b, "%sunbounded integers", who); break;
    }
    c->name = b;
    c->law = Law(c->p);
    if (s.op == U_DIST) {
      Consumer* q = c.get();
      bool attach = s.a[1] % 3 == 0;
      quiet([&] { q->d = make(q->p, attach ? nullptr : g); if (attach) q->d->attach(*g); });
    }
    total += cost(*c);
    cs.push_back(std::move(c));
  }
  i64 rounds = p.get("rounds");
  rounds = std::min<i64>(rounds, (i64)((p.get("long") ? 1500000 : 400000) / total) + 200);
  if (rounds < 200) rounds = 200;
  std::vector<size_t> turn;
  int turns = (int)p.get("turns");
  for (i64 i = 0; i < rounds; i++)
    for (size_t k = 0; k < cs.size(); k++) turn.push_back(k);
  if (turns == 2) for (size_t i = turn.size(); i > 1; i--) std::swap(turn[i - 1], turn[(size_t)order.below((i64)i)]);
  if (turns == 3) std::sort(turn.begin(), turn.end());
  if (turns == 1) {        // bursts of up to five
    std::vector<size_t> left(cs.size(), (size_t)rounds), t;
    while (t.size() < turn.size()) {
      size_t k = (size_t)order.below((i64)cs.size());
      for (i64 n = order.range(1, 5); n > 0 && left[k]; n--, left[k]--) t.push_back(k);
    }
    turn = t;
  }
  i64 reseed = p.get("reseed"), every = reseed ? (i64)turn.size() / (reseed * 3 + 1) + 1 : 0;
  i64 done = 0;
  std::vector<std::pair<double, double>> cross;    // samples of different consumers, one right after the other
  double last = -1;
  size_t lastK = 0;
  Rng shared(mix((u64)p.get("order"), 11));
  auto draw = [&](size_t k) -> double {
    Consumer& c = *cs[k];
    switch (c.type) {
      case U_DIST: return c.d->next();
      case U_INT: return g->nextInt(c.p.i, c.p.j);
      case U_REAL: return g->nextDouble(c.p.x, c.p.y);
      case U_BOOL: return g->nextBool();
      case U_INTFULL: return g->nextInt();
      case U_INTMAX: return g->nextInt(c.p.j);
      case U_REALMAX: return g->nextDouble(c.p.y);
      case U_REAL01: return g->nextDouble();
    }
    // The shared generator has the history of the process behind it: let this run's own engine speak for it.
    g_engineHook = [&shared](u64) -> u64 { return shared.next(); };
    double v = 0;
    switch (c.type) {
      case F_INT: v = randomInt(c.p.i, c.p.j); break;
      case F_REAL: v = randomDouble(c.p.x, c.p.y); break;
      case F_BOOL: v = randomBool(); break;
      case F_INTFULL: v = randomInt(); break;
      case F_INTMAX: v = randomInt(c.p.j); break;
      case F_REALMAX: v = randomDouble(c.p.y); break;
      default: v = randomDouble(); break;
    }
    g_engineHook = nullptr;
    return v;
  };
  size_t at = 0;
  while (at < turn.size()) {
    size_t n = std::min<size_t>(turn.size() - at, 500);
    std::vector<double> got(n);
    quiet([&] { for (size_t i = 0; i < n; i++) got[i] = draw(turn[at + i]); });
    for (size_t i = 0; i < n; i++) {
      size_t k = turn[at + i];
      Consumer& c = *cs[k];
      double v = got[i], u;
      c.all.push_back(v);
      if (c.type == U_INTFULL || c.type == F_INTFULL) u = (v + 2147483648.0 + harness.unit()) / 4294967296.0;
      else {
        std::string why;
        if (!inSupport(c.p, v, why)) violate("outside-support", "%s: %s", c.name.c_str(), why.c_str());
        auto f = c.law.cdf(v);
        u = f.first + (f.second - f.first) * harness.unit();
        if (f.second > f.first) c.raw.push_back(v);
      }
      c.u.push_back(u);
      if (last >= 0 && lastK != k) { cross.push_back({last, u}); last = -1; }
      else { last = u; lastK = k; }
      done++;
    }
    at += n;
    if (every && done / every != (done - (i64)n) / every) {
      i64 t = 1500000000 + (i64)(order.next() % 100000000);
      if (reseed >= 3) { fault("clock_jump"); setClock(t); }
      quiet([&] { if (reseed < 3) g->setSeed((int)order.next()); else g->setSeed((int)time(nullptr)); });
      probe("reseeded");
    }
  }
  int far = (int)Rng(mix((u64)p.get("order"), 21)).pick<i64>({3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 256, 312, 624});
  for (auto& c : cs) {
    g_run->log("%s: %zu samples, first %.6f last %.6f", c->name.c_str(), c->u.size(), c->u[0], c->u.back());
    uniformity(c->u, c->name);
    double n = (double)c->all.size(), nn = n * n / 2;
    bool whole = c->type == U_INTFULL || c->type == F_INTFULL;
    if (!reseed && whole) repeats(c->all, nn / 4294967296.0, c->name);
    else if (!reseed && c->p.kind == UNIFORMINT) repeats(c->all, nn / ((double)c->p.j - c->p.i), c->name);
    else if (!reseed && (c->p.kind == UNIFORM || c->p.kind == UNIFORM1)) {
      double w = c->p.y - c->p.x, m = std::max(std::fabs(c->p.x), std::fabs(c->p.y));
      if (std::isfinite(w)) repeats(c->all, nn * 4 * spacing(m) / w, c->name);
    } else if (!reseed && c->p.kind == NORMAL) repeats(c->all, nn * 4 * spacing(std::fabs(c->p.x) + 40 * c->p.y) / (3.5 * c->p.y), c->name);
    else if (!reseed && c->p.kind == EXPONENTIAL) repeats(c->all, nn * 4 * spacing(60 / c->p.x) * c->p.x / 2, c->name);
    if (whole || ((c->p.kind == UNIFORMINT || c->p.kind == UNIFORMINT1) && c->p.j - (i64)c->p.i > 64 && (c->p.j - (i64)c->p.i) % 64 == 0)) {
      std::vector<double> low;          // the last six bits
      for (double v : c->all) low.push_back(((double)(((i64)v - (whole ? 0 : c->p.i)) & 63) + harness.unit()) / 64);
      uniformity(low, c->name + ", last bits");
    }
    if (c->raw.size() == c->u.size()) values(c->raw, c->law, c->name);
    for (int lag : {1, 2, far}) {                 // disjoint pairs, so that they are independent of each other
      std::vector<double> d, e;
      for (size_t i = 0; i + (size_t)lag < c->u.size(); i += 2 * (size_t)lag)
        for (size_t j = 0; j < (size_t)lag && i + j + (size_t)lag < c->u.size(); j++) { d.push_back(frac(c->u[i + j] + c->u[i + j + (size_t)lag])); e.push_back(frac(c->u[i + j] - c->u[i + j + (size_t)lag] + 1)); }
      uniformity(d, c->name + ", sums of samples at distance " + std::to_string(lag));
      uniformity(e, c->name + ", differences of samples at distance " + std::to_string(lag));
    }
  }
  std::vector<double> d, e;
  for (auto& x : cross) { d.push_back(frac(x.first + x.second)); e.push_back(frac(x.first - x.second + 1)); }
  uniformity(d, "sums of samples of different distributions");
  uniformity(e, "differences of samples of different distributions");
  for (auto& c : cs) if (c->d) { Any* a = c->d; delete a; }
  quiet([&] { delete g; });
}
static void warm() { randomInt(); randomDouble(); randomBool(); }
static Property PR = {"C15", gen, exec, warm};
namespace sim { Property* getProperty() { return &PR; } }
