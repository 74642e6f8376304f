// Uniform handling of all distributions and generators of the library.
#ifndef VERIF_DISTS_H
#define VERIF_DISTS_H
#include "sim.h"
#include "random.h"
#include "random/random_functions.h"
namespace dists {
using namespace sim;
enum Kind {
  BERNOULLI, BINOMIAL, CHI2, EXPONENTIAL, GAMMA, GEOMETRIC, NEGBIN, NORMAL, POISSON, STUDENT,
  UNIFORM, UNIFORMINT, UNIFORM1, UNIFORMINT1, NKINDS
};
inline const char* kindName(int k) {
  static const char* n[] = {"Bernoulli", "Binomial", "ChiSquared", "Exponential", "Gamma",
                            "Geometric", "NegativeBinomial", "Normal", "Poisson", "StudentT",
                            "Uniform", "UniformInt", "Uniform(max)", "UniformInt(max)"};
  return n[k];
}
struct Param {
  int kind = 0;
  double x = 0, y = 0;
  int i = 0, j = 0;
};
struct Any {
  Param p;
  virtual ~Any() {}
  virtual double next() = 0;
  virtual void attach(cuhksz::Random& r) = 0;
  virtual bool paramsKept() = 0;
};
template <class D, class F>
struct AnyOf : Any {
  D* d;
  F f;
  AnyOf(D* dd, F ff) : d(dd), f(ff) {}
  ~AnyOf() override { Lib l; delete d; }
  double next() override { return (double)d->next(); }
  void attach(cuhksz::Random& r) override { d->setRandomGenerator(r); }
  bool paramsKept() override { return f(*d); }
};
template <class D, class F>
Any* wrap(D* d, F f) {
  Out o;
  return new AnyOf<D, F>(d, f);
}
inline bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
// Called inside Lib: constructs the library object.
inline Any* make(const Param& p, cuhksz::Random* r) {
  using namespace cuhksz;
  Any* a = nullptr;
  double x = p.x, y = p.y;
  int i = p.i, j = p.j;
  switch (p.kind) {
    case BERNOULLI: a = wrap(r ? new BernoulliDistribution(*r, x) : new BernoulliDistribution(x), [x](BernoulliDistribution& d) { return near(d.p(), x); }); break;
    case BINOMIAL: a = wrap(r ? new BinomialDistribution(*r, i, x) : new BinomialDistribution(i, x), [x, i](BinomialDistribution& d) { return d.n() == i && near(d.p(), x); }); break;
    case CHI2: a = wrap(r ? new ChiSquaredDistribution(*r, x) : new ChiSquaredDistribution(x), [x](ChiSquaredDistribution& d) { return near(d.r(), x); }); break;
    case EXPONENTIAL: a = wrap(r ? new ExponentialDistribution(*r, x) : new ExponentialDistribution(x), [x](ExponentialDistribution& d) { return near(d.lambda(), x); }); break;
    case GAMMA: a = wrap(r ? new GammaDistribution(*r, x, y) : new GammaDistribution(x, y), [x, y](GammaDistribution& d) { return near(d.k(), x) && near(d.theta(), y); }); break;
    case GEOMETRIC: a = wrap(r ? new GeometricDistribution(*r, x) : new GeometricDistribution(x), [x](GeometricDistribution& d) { return near(d.p(), x); }); break;
    case NEGBIN: a = wrap(r ? new NegativeBinomialDistribution(*r, i, x) : new NegativeBinomialDistribution(i, x), [x, i](NegativeBinomialDistribution& d) { return d.r() == i && near(d.p(), x); }); break;
    case NORMAL: a = wrap(r ? new NormalDistribution(*r, x, y) : new NormalDistribution(x, y), [x, y](NormalDistribution& d) { return near(d.mean(), x) && near(d.stddev(), y); }); break;
    case POISSON: a = wrap(r ? new PoissonDistribution(*r, x) : new PoissonDistribution(x), [x](PoissonDistribution& d) { return near(d.lambda(), x); }); break;
    case STUDENT: a = wrap(r ? new StudentTDistribution(*r, x) : new StudentTDistribution(x), [x](StudentTDistribution& d) { return near(d.r(), x); }); break;
    case UNIFORM: a = wrap(r ? new UniformDistribution(*r, x, y) : new UniformDistribution(x, y), [x, y](UniformDistribution& d) { return near(d.min(), x) && near(d.max(), y); }); break;
    case UNIFORMINT: a = wrap(r ? new UniformIntDistribution(*r, i, j) : new UniformIntDistribution(i, j), [i, j](UniformIntDistribution& d) { return d.min() == i && d.max() == j; }); break;
    case UNIFORM1: a = wrap(r ? new UniformDistribution(*r, y) : new UniformDistribution(y), [y](UniformDistribution& d) { return near(d.min(), 0) && near(d.max(), y); }); break;
    default: a = wrap(r ? new UniformIntDistribution(*r, j) : new UniformIntDistribution(j), [j](UniformIntDistribution& d) { return d.min() == 0 && d.max() == j; }); break;
  }
  Out o;
  a->p = p;
  return a;
}
// Decodes three small integers into a valid parameter set.  `wide` also uses
// large and extreme (but valid) parameters.
inline Param decode(i64 kind, i64 u, i64 v, bool wide) {
  Param p;
  p.kind = (int)(((kind % NKINDS) + NKINDS) % NKINDS);
  Rng r(mix((u64)u, (u64)v + 17));
  auto prob = [&](bool zeroOk) {
    switch (u % 9) {
      case 0: return 0.5;
      case 1: return zeroOk ? 0.0 : 1.0;
      case 2: return 1.0;
      case 3: return 0.2;
      case 4: return wide ? 0.999999999 : 0.9;
      case 5: return wide ? 0.01 : 0.1;
      default: return 0.02 + 0.96 * r.unit();
    }
  };
  static const double shapes[] = {1, 0.5, 2.5, 9, 3, 0.3, 1.5, 7.25, 20.75, 4};
  static const double wideShapes[] = {1, 0.1, 0.02, 150, 1000.5, 0.999999, 64, 333.25, 2, 0.75};
  switch (p.kind) {
    case BERNOULLI: p.x = prob(true); break;
    case BINOMIAL:
      p.x = prob(true);
      p.i = (int)(wide ? r.pick<i64>({0, 1, 2, 5, 20, 29, 30, 31, 33, 34, 35, 40, 64, 100, 300, 1000, 1500, 5000})
                       : r.pick<i64>({0, 1, 2, 5, 8, 12, 20, 25}));
      break;
    case CHI2: p.x = wide ? 2 * wideShapes[u % 10] : 2 * shapes[u % 10]; break;
    case EXPONENTIAL: p.x = wide ? r.pick<double>({1.0, 1e-3, 1e3, 1e-6, 1e6, 3.5}) : r.pick<double>({1.0, 0.5, 3.5}); break;
    case GAMMA:
      p.x = wide ? wideShapes[u % 10] : shapes[u % 10];
      p.y = wide ? r.pick<double>({1.0, 0.5, 1e3, 1e-3, 2.0}) : r.pick<double>({1.0, 0.5, 2.0});
      break;
    case GEOMETRIC: p.x = prob(false); break;
    case NEGBIN:
      p.x = prob(false);
      p.i = (int)(wide ? r.pick<i64>({1, 2, 3, 10, 50, 170, 200, 400, 1000}) : r.pick<i64>({1, 2, 3, 7}));
      break;
    case NORMAL:
      p.x = wide ? r.pick<double>({0.0, 1e6, -1e6, 3.25}) : r.pick<double>({0.0, 5.0, -2.5});
      p.y = wide ? r.pick<double>({1.0, 1e-3, 1e3}) : r.pick<double>({1.0, 0.5, 3.0});
      break;
    case POISSON: p.x = wide ? r.pick<double>({0.001, 0.5, 1, 5, 30, 100, 500, 700, 745.5, 746, 800, 1600, 3000, 20000}) : r.pick<double>({0.5, 1, 5, 10}); break;
    case STUDENT: p.x = wide ? r.pick<double>({1, 2, 0.75, 5.5, 30, 500.5}) : r.pick<double>({1, 2, 3.5, 10}); break;
    case UNIFORM:
    case UNIFORM1: {
      static const double lo[] = {0, -1, 5, -1e6, 1e15, 1, -3.5, 1e-300};
      static const double wd[] = {1, 2, 1e-3, 1e6, 3, 0.5, 1e12, 4.0};
      p.x = p.kind == UNIFORM ? lo[u % 8] : 0;
      p.y = p.x + wd[(u / 8) % 8];
      break;
    }
    default: {
      static const int lo[] = {0, -5, 100, -2147483647 - 1, -2147483647 - 1, 2147483600, -1, -1500000000};
      static const int hi[] = {10, 5, 101, 2147483647, 0, 2147483647, 1, 1500000000};
      p.i = p.kind == UNIFORMINT ? lo[u % 8] : 0;
      p.j = hi[u % 8];
      if (p.kind == UNIFORMINT1 && p.j <= 0) p.j = 7;
      break;
    }
  }
  return p;
}
// Is v a value that the distribution can take?  Explains itself in `why`.
inline bool inSupport(const Param& p, double v, std::string& why) {
  char b[200];
  auto fail = [&](const char* w) {
    snprintf(b, sizeof b, "%s(x=%.17g y=%.17g i=%d j=%d) gave %.17g: %s", kindName(p.kind), p.x, p.y, p.i, p.j, v, w);
    why = b;
    return false;
  };
  if (!(v - v == 0)) return fail("not finite");
  bool whole = std::floor(v) == v;
  switch (p.kind) {
    case BERNOULLI:
      if (v != 0 && v != 1) return fail("not a boolean");
      if (p.x == 0 && v != 0) return fail("probability 0 event");
      if (p.x == 1 && v != 1) return fail("missed a certain event");
      return true;
    case BINOMIAL:
      if (!whole || v < 0 || v > p.i) return fail("outside 0..n");
      if (p.x == 0 && v != 0) return fail("p = 0 must give 0");
      if (p.x == 1 && v != p.i) return fail("p = 1 must give n");
      return true;
    case CHI2:
    case EXPONENTIAL:
    case GAMMA:
      if (v < 0) return fail("negative");
      return true;
    case GEOMETRIC:
    case NEGBIN:
      if (!whole || v < 0) return fail("negative");
      if (p.x == 1 && v != 0) return fail("p = 1 must give 0");
      return true;
    case POISSON:
      if (!whole || v < 0) return fail("negative");
      return true;
    case UNIFORM:
    case UNIFORM1:
      if (v < p.x || (v >= p.y && p.x < p.y)) return fail("outside [min, max)");
      return true;
    case UNIFORMINT:
    case UNIFORMINT1:
      if (!whole || v < p.i || v >= p.j) return fail("outside [min, max)");
      return true;
  }
  return true;
}
// Engine output faults: pattern `pat` for the first `cnt` draws of a call.
struct Inject {
  i64 pat = 0, cnt = 0;
  u64 salt = 0;
};
inline u64 extreme(i64 pat, u64 n, u64 salt, u64 real) {
  switch (pat % 16) {
    case 0: return 0;
    case 1: return ~0ull;
    case 2: return ~0ull - 1023;          // smallest output that rounds to 1.0
    case 3: return ~0ull - 1024;
    case 4: return 1ull << 63;            // exactly one half
    case 5: return n & 1 ? 0 : ~0ull;
    case 6: return ~0ull - (real & 4095);
    case 7: return real & 4095;
    case 8: return ~0ull - 2047 - (real & 2047);
    case 9: return 1;
    case 10: return (1ull << 63) + ((real & 1) ? 1024 : -1024);
    case 11: return ~0ull - (1ull << (real & 63));
    case 12: return 1ull << (real & 63);
    case 13: return n & 1 ? ~0ull : 1ull << 63;
    case 14: return 0xFFFFFFFF00000000ull;
    default: return 0x00000000FFFFFFFFull;
  }
}
inline void arm(const Inject& in) {
  if (in.cnt <= 0) {
    g_engineHook = nullptr;
    return;
  }
  u64 n = 0;
  Inject c = in;
  g_engineHook = [c, n](u64 real) mutable -> u64 {
    if ((i64)n >= c.cnt) return real;
    u64 v = extreme(c.pat, n, c.salt, real);
    n++;
    fault("engine_extreme_output");
    return v;
  };
}
inline void disarm() { g_engineHook = nullptr; }
}  // namespace dists
#endif
