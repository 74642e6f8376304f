// C09 ranges, C10 distributions terminate in their support, C11 repeatability.
#include "dists.h"
using namespace sim;
using namespace dists;
using cuhksz::Random;

#if defined(VERIF_PROP_C09)
// ----------------------------------------------------------------- C09
enum { G_INT, G_INT_MAX, G_INT_RANGE, G_DBL, G_DBL_MAX, G_DBL_RANGE, G_BOOL, F_INT, F_INT_MAX,
       F_INT_RANGE, F_DBL, F_DBL_MAX, F_DBL_RANGE, F_BOOL, U_DBL, U_INT, U_DBL1, U_INT1, RESEED, NEWGEN, SPREAD, ENDS, LONGRUN, NOPS };
static void gen(Rng& r, Plan& p) {
  p.cfg["seed0"] = r.range(-1000000, 1000000);
  p.cfg["clock"] = r.chance(50) ? r.range(0, 4000000000ll) : r.pick<i64>({0, 1, 2147483647ll, 2147483648ll, 4294967295ll, -5});
  int n = (int)r.range(2, 20);
  int rate = (int)r.pick<i64>({0, 30, 60, 90});
  for (int i = 0; i < n; i++) {
    Step s;
    s.op = (int)r.below(r.below(30) ? ENDS : NOPS);
    s.a[0] = r.below(1 << 30);
    s.a[1] = r.below(1 << 30);
    s.a[2] = r.range(1, 4);  // draws
    if (r.chance(rate)) {
      s.a[4] = r.below(16);
      s.a[5] = r.range(1, 6);
    }
    p.steps.push_back(s);
  }
}
static void intRange(const Step& s, int& lo, int& hi) {
  static const i64 c[] = {0, 1, -1, 2, 10, -10, 100, 1000000, 2147483647ll, -2147483648ll, 1073741824ll, -1073741825ll, 2147483646ll, -2147483647ll};
  Rng r(mix((u64)s.a[0], (u64)s.a[1]));
  for (;;) {
    i64 a, b;
    switch (s.a[0] % 3) {
      case 0: a = c[r.below(14)]; b = c[r.below(14)]; break;
      case 1: a = (i64)(int)r.next(); b = a + r.range(1, 5); break;
      default: a = (i64)(int)r.next(); b = (i64)(int)r.next();
    }
    if (a > b) std::swap(a, b);
    if (a < b && b <= 2147483647ll && a >= -2147483648ll) {
      lo = (int)a;
      hi = (int)b;
      return;
    }
  }
}
static void dblRange(const Step& s, double& lo, double& hi) {
  static const double c[] = {0, 1, -1, 0.5, 3, 1e-9, 1e9, -1e9, 1e15, 1e15 + 1, 9007199254740992.0, 9007199254740994.0, 5e-324, 1e300, -1e300, 0.1, 0.3, 1e-300, 1.7e308, -1.7e308, 1.7976931348623157e308, -1.7976931348623157e308};
  Rng r(mix((u64)s.a[0] + 5, (u64)s.a[1]));
  switch (s.a[0] % 4) {
    case 0: lo = c[r.below(22)]; hi = c[r.below(22)]; break;
    case 1: lo = (r.unit() - 0.5) * 1e6; hi = std::nextafter(lo, 1e308); break;
    case 2: lo = (r.unit() - 0.5) * 100; hi = lo + r.unit(); break;
    default: lo = hi = (r.unit() - 0.5) * 100;
  }
  if (lo > hi) std::swap(lo, hi);
}
static void checkInt(const char* w, i64 v, i64 lo, i64 hi) {
  if (w[0] == 'r' && w[1] == 'a') g_run->log("%s in [%lld,%lld)", w, lo, hi); else g_run->log("%s %lld in [%lld,%lld)", w, v, lo, hi);
  SIM_CHECK(v >= lo && v < hi, "int-out-of-range", "%s gave %lld, asked for [%lld, %lld)", w, v, lo, hi);
  if (v == lo) probe("int_at_min");
  if (v == hi - 1) probe("int_at_max");
}
static void checkDbl(const char* w, double v, double lo, double hi) {
  if (w[0] == 'r' && w[1] == 'a') g_run->log("%s in [%.17g,%.17g)", w, lo, hi); else g_run->log("%s %.17g in [%.17g,%.17g)", w, v, lo, hi);
  bool ok = lo == hi ? v == lo : (v >= lo && v < hi);
  SIM_CHECK(ok, "real-out-of-range", "%s gave %.17g, asked for [%.17g, %.17g)", w, v, lo, hi);
  if (v == lo) probe("real_at_min");
  if (v == std::nextafter(hi, lo)) probe("real_at_max");
}
static void exec(const Plan& p) {
  Random* g = nullptr;
  call([&] { g = new Random((int)p.get("seed0")); });
  for (const Step& s : p.steps) {
    int lo, hi;
    double dl, dh;
    intRange(s, lo, hi);
    dblRange(s, dl, dh);
    arm(Inject{s.a[4], s.a[5], 0});
    for (int k = 0; k < (int)s.a[2]; k++) {
      int iv = 0;
      double dv = 0;
      CallInfo ci;
      auto want = [&](const char* w) {
        SIM_CHECK(ci.out == O_OK, "call-failed", "%s ended with %s %s", w, outcomeName(ci.out), ci.what.c_str());
      };
      switch (s.op) {
        case G_INT: ci = call([&] { iv = g->nextInt(); }); want("nextInt()"); checkInt("nextInt()", iv, -2147483648ll, 2147483648ll); break;
        case F_INT: ci = call([&] { iv = cuhksz::randomInt(); }); want("randomInt()"); checkInt("randomInt()", iv, -2147483648ll, 2147483648ll); break;
        case G_INT_MAX: if (hi > 0) { ci = call([&] { iv = g->nextInt(hi); }); want("nextInt(max)"); checkInt("nextInt(max)", iv, 0, hi); } break;
        case F_INT_MAX: if (hi > 0) { ci = call([&] { iv = cuhksz::randomInt(hi); }); want("randomInt(max)"); checkInt("randomInt(max)", iv, 0, hi); } break;
        case G_INT_RANGE: ci = call([&] { iv = g->nextInt(lo, hi); }); want("nextInt(min,max)"); checkInt("nextInt(min,max)", iv, lo, hi); break;
        case F_INT_RANGE: ci = call([&] { iv = cuhksz::randomInt(lo, hi); }); want("randomInt(min,max)"); checkInt("randomInt(min,max)", iv, lo, hi); break;
        case G_DBL: ci = call([&] { dv = g->nextDouble(); }); want("nextDouble()"); checkDbl("nextDouble()", dv, 0, 1); break;
        case F_DBL: ci = call([&] { dv = cuhksz::randomDouble(); }); want("randomDouble()"); checkDbl("randomDouble()", dv, 0, 1); break;
        case G_DBL_MAX: if (dh >= 0) { ci = call([&] { dv = g->nextDouble(dh); }); want("nextDouble(max)"); checkDbl("nextDouble(max)", dv, 0, dh); } break;
        case F_DBL_MAX: if (dh >= 0) { ci = call([&] { dv = cuhksz::randomDouble(dh); }); want("randomDouble(max)"); checkDbl("randomDouble(max)", dv, 0, dh); } break;
        case G_DBL_RANGE: ci = call([&] { dv = g->nextDouble(dl, dh); }); want("nextDouble(min,max)"); checkDbl("nextDouble(min,max)", dv, dl, dh); break;
        case F_DBL_RANGE: ci = call([&] { dv = cuhksz::randomDouble(dl, dh); }); want("randomDouble(min,max)"); checkDbl("randomDouble(min,max)", dv, dl, dh); break;
        case G_BOOL: case F_BOOL: {
          bool b = false;
          ci = call([&] { b = s.op == G_BOOL ? g->nextBool() : cuhksz::randomBool(); });
          want("bool");
          unsigned char raw;
          memcpy(&raw, &b, 1);
          checkInt(s.op == G_BOOL ? "nextBool()" : "randomBool()", raw, 0, 2);
          break;
        }
        case U_DBL: ci = call([&] { cuhksz::UniformDistribution d(*g, dl, dh); dv = d.next(); }); want("Uniform"); checkDbl("UniformDistribution(min,max)", dv, dl, dh); break;
        case U_INT: ci = call([&] { cuhksz::UniformIntDistribution d(*g, lo, hi); iv = d.next(); }); want("UniformInt"); checkInt("UniformIntDistribution(min,max)", iv, lo, hi); break;
        case U_DBL1: if (dh >= 0) { ci = call([&] { cuhksz::UniformDistribution d(*g, dh); dv = d.next(); }); want("Uniform"); checkDbl("UniformDistribution(max)", dv, 0, dh); } break;
        case U_INT1: if (hi > 0) { ci = call([&] { cuhksz::UniformIntDistribution d(*g, hi); iv = d.next(); }); want("UniformInt"); checkInt("UniformIntDistribution(max)", iv, 0, hi); } break;
        case RESEED: ci = call([&] { g->setSeed((int)s.a[0]); }); break;
        case NEWGEN: setClock(s.a[1] * 3); ci = call([&] { delete g; g = nullptr; g = s.a[0] % 2 ? new Random() : new Random((int)s.a[0]); }); break;
        case SPREAD: {
          // With the generator's own output every value of a small range turns
          // up (missing one has probability below 1e-20).
          if (k) break;
          disarm();
          int n = 2 + (int)(s.a[0] % 7);
          int base = (int)(s.a[1] % 2001) - 1000;
          std::vector<int> seen(n, 0);
          u32 ones = 0, zeros = 0;
          int quart[4] = {0, 0, 0, 0}, bools[2] = {0, 0}, sign[2] = {0, 0};
          for (int t = 0; t < 64 * n; t++) {
            bool b = false;
            int full = 0;
            ci = call([&] { iv = g->nextInt(base, base + n); dv = g->nextDouble(dl, dl + 1.0); b = g->nextBool(); full = g->nextInt(); });
            want("spread");
            checkInt("nextInt(min,max)", iv, base, base + n);
            seen[iv - base]++;
            double f = (dv - dl) * 4;
            quart[f < 1 ? 0 : f < 2 ? 1 : f < 3 ? 2 : 3]++;
            bools[b]++;
            sign[full < 0]++;
            ones |= (u32)full;
            zeros |= ~(u32)full;
          }
          for (int t = 0; t < n; t++)
            SIM_CHECK(seen[t], "value-never-drawn", "%d of [%d,%d) never drawn in %d draws", base + t, base, base + n, 64 * n);
          SIM_CHECK(bools[0] && bools[1], "value-never-drawn", "nextBool never gave one of its values");
          SIM_CHECK(sign[0] && sign[1], "value-never-drawn", "nextInt() never gave one sign in %d draws", 64 * n);
          SIM_CHECK(ones == ~0u && zeros == ~0u, "value-never-drawn", "a bit of nextInt() never changed in %d draws", 64 * n);
          if (std::fabs(dl) < 1e9)
            for (int t = 0; t < 4; t++) SIM_CHECK(quart[t], "value-never-drawn", "quarter %d of a unit range never drawn", t);
          probe("spread_checked");
          break;
        }
        case ENDS: {
          // Both ends of the int range are drawn for some engine output.
          if (k) break;
          static const u64 half[] = {0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
          bool low[2] = {false, false}, high[2] = {false, false};
          for (u64 a : half)
            for (u64 b : half) {
              u64 v = a << 32 | b;
              g_engineHook = [v](u64) -> u64 { fault("engine_extreme_output"); return v; };
              int x = 0, y = 0;
              ci = call([&] { x = g->nextInt(); y = cuhksz::randomInt(); });
              want("nextInt()");
              low[0] |= x == -2147483647 - 1; high[0] |= x == 2147483647;
              low[1] |= y == -2147483647 - 1; high[1] |= y == 2147483647;
            }
          disarm();
          for (int t = 0; t < 2; t++)
            SIM_CHECK(low[t] && high[t], "value-never-drawn", "%s never gives the %s int", t ? "randomInt()" : "nextInt()", low[t] ? "largest" : "smallest");
          probe("ends_checked");
          break;
        }
        case LONGRUN: {
          // Every value of a wider range, by whichever call (missing one has probability below 1e-14).
          if (k) break;
          disarm();
          int n = 10 + (int)(s.a[0] % 200), how = (int)(s.a[1] % 7);
          int base = how == 1 || how == 3 || how == 5 ? 0 : (int)(s.a[1] % 200001) - 100000;
          std::vector<int> seen(n, 0);
          bool ok = true;
          ci = call([&] {
            cuhksz::UniformIntDistribution d(*g, base, base + n), e(*g, n);
            for (int t = 0; t < 40 * n; t++) {
              int v;
              switch (how) {
                case 0: v = g->nextInt(base, base + n); break;
                case 1: v = g->nextInt(n); break;
                case 2: v = cuhksz::randomInt(base, base + n); break;
                case 3: v = cuhksz::randomInt(n); break;
                case 4: v = d.next(); break;
                case 5: v = e.next(); break;
                default: { cuhksz::UniformIntDistribution o(base, base + n); o.setRandomGenerator(*g); v = o.next(); }
              }
              if (v < base || v >= base + n) { ok = false; break; }
              seen[v - base]++;
            }
          });
          want("long run");
          SIM_CHECK(ok, "int-out-of-range", "a draw left [%d,%d)", base, base + n);
          for (int t = 0; t < n; t++) SIM_CHECK(seen[t], "value-never-drawn", "%d of [%d,%d) never drawn in %d draws", base + t, base, base + n, 40 * n);
          probe("long_run_checked");
          break;
        }
      }
    }
    disarm();
  }
  call([&] { delete g; });
}
static void warm() { cuhksz::randomInt(); cuhksz::randomDouble(); cuhksz::randomBool(); }
#elif defined(VERIF_PROP_C10)
// ----------------------------------------------------------------- C10
enum { NEWDIST, DRAW, MANY, DROP, RESEED, ATTACH, NOPS };
static void gen(Rng& r, Plan& p) {
  p.cfg["seed0"] = r.range(-1000000, 1000000);
  p.cfg["wide"] = r.chance(75);
  p.cfg["clock"] = r.range(0, 4000000000ll);
  int n = (int)r.range(3, 14);
  int rate = (int)r.pick<i64>({0, 40, 80});
  for (int i = 0; i < n; i++) {
    Step s;
    s.op = i == 0 ? (int)NEWDIST : (int)r.pick<i64>({NEWDIST, NEWDIST, DRAW, DRAW, DRAW, DRAW, DRAW, MANY, DROP, RESEED, ATTACH});
    s.a[0] = r.below(4);
    s.a[1] = r.chance(90) ? r.below(NKINDS - 2) : r.below(NKINDS);
    s.a[2] = r.below(720720);
    s.a[3] = r.below(1000);
    if (r.chance(rate)) {
      s.a[4] = r.below(16);
      s.a[5] = r.chance(70) ? r.range(1, 3) : r.range(1, 14);
    }
    p.steps.push_back(s);
  }
}
static void exec(const Plan& p) {
  Random* g = nullptr;
  call([&] { g = new Random((int)p.get("seed0")); });
  Any* d[4] = {nullptr, nullptr, nullptr, nullptr};
  bool own[4] = {false, false, false, false};
  setBudget(40000000ull);
  for (const Step& s : p.steps) {
    int k = (int)(s.a[0] & 3);
    CallInfo ci;
    if (s.op == NEWDIST || !d[k]) {
      Param q = decode(s.a[1], s.a[2], s.a[3], p.get("wide"));
      if (d[k]) { delete d[k]; d[k] = nullptr; }
      own[k] = s.a[3] % 4 == 0;
      setClock(s.a[2] * 1000 + s.a[3]);
      ci = call([&] { d[k] = make(q, own[k] ? nullptr : g); });
      SIM_CHECK(ci.out == O_OK, "construction-failed", "%s(x=%.17g y=%.17g i=%d j=%d): %s", kindName(q.kind), q.x, q.y, q.i, q.j, outcomeName(ci.out));
      g_run->log("new %s %.17g %.17g %d %d", kindName(q.kind), q.x, q.y, q.i, q.j);
      if (s.op == NEWDIST) continue;
    }
    switch (s.op) {
      case DRAW: case MANY: {
        int n = s.op == DRAW ? 2 : 12;
        arm(Inject{s.a[4], s.a[5], 0});
        for (int t = 0; t < n; t++) {
          double v = 0;
          bool kept = true;
          ci = call([&] { v = d[k]->next(); kept = d[k]->paramsKept(); });
          SIM_CHECK(ci.out == O_OK, "sampling-failed", "%s: %s %s", kindName(d[k]->p.kind), outcomeName(ci.out), ci.what.c_str());
          g_run->logd(kindName(d[k]->p.kind), v);
          std::string why;
          SIM_CHECK(inSupport(d[k]->p, v, why), "outside-support", "%s", why.c_str());
          SIM_CHECK(kept, "parameters-changed", "%s reports other parameters after sampling", kindName(d[k]->p.kind));
        }
        disarm();
        break;
      }
      case DROP: delete d[k]; d[k] = nullptr; break;
      case RESEED: call([&] { g->setSeed((int)s.a[2]); }); break;
      case ATTACH: ci = call([&] { d[k]->attach(*g); }); own[k] = false; break;
    }
  }
  for (auto& x : d) delete x;
  call([&] { delete g; });
  SIM_CHECK(liveBlocks() == 0, "leak", "%zu blocks left: %s", liveBlocks(), describeLive().c_str());
}
static void warm() { cuhksz::randomInt(); }
#elif defined(VERIF_PROP_C11)
// ----------------------------------------------------------------- C11
enum { DRAW_INT, DRAW_INT_MAX, DRAW_INT_RANGE, DRAW_DBL, DRAW_DBL_MAX, DRAW_DBL_RANGE, DRAW_BOOL, RESEED, NEWGEN, NEWCLOCKGEN,
       NEWDIST, NEWCLOCKDIST, SAMPLE, ATTACH, COPYGEN, BURST, NOISE, TWIN, NOPS };
static void gen(Rng& r, Plan& p) {
  p.cfg["clusters"] = r.range(1, 3);
  p.cfg["clock"] = r.range(0, 4000000000ll);
  int n = (int)r.range(4, 40);
  for (int i = 0; i < n; i++) {
    Step s;
    s.op = r.chance(45) ? (int)r.pick<i64>({SAMPLE, NEWDIST, SAMPLE, SAMPLE, RESEED}) : (int)r.below(NOPS);
    s.a[0] = r.below(3);            // cluster
    s.a[1] = r.below(2);            // generator
    s.a[2] = r.below(3);            // distribution
    s.a[3] = r.below(720720);
    s.a[4] = r.below(NKINDS);
    s.a[5] = r.chance(80) ? r.below(1000) : r.range(1, 4000000000ll);
    p.steps.push_back(s);
  }
}
struct Cluster {
  Random* g[2] = {nullptr, nullptr};
  Any* d[3] = {nullptr, nullptr, nullptr};
  int on[3] = {0, 0, 0};   // generator a distribution draws from, -1 own
  std::vector<u64> out;
};
static void put(Cluster& c, double v) {
  u64 b;
  memcpy(&b, &v, 8);
  c.out.push_back(b);
}
// Executes one step of a cluster; `clockOf` gives the simulated clock that a
// clock-seeded object of this step sees.
static void doStep(Cluster& c, const Step& s, bool reference) {
  int gi = (int)(s.a[1] & 1), di = (int)(s.a[2] % 3);
  if (!c.g[gi]) call([&] { c.g[gi] = new Random(42 + gi); });
  Rng r(mix((u64)s.a[3], 3));
  CallInfo ci;
  int iv = 0;
  double dv = 0;
  bool bv = false;
  switch (s.op) {
    case DRAW_INT: ci = call([&] { iv = c.g[gi]->nextInt(); }); put(c, iv); break;
    case DRAW_INT_MAX: { int m = (int)r.range(1, 1000); ci = call([&] { iv = c.g[gi]->nextInt(m); }); put(c, iv); break; }
    case DRAW_INT_RANGE: { int m = (int)r.range(-1000, 1000); int w = (int)r.range(1, 1000); ci = call([&] { iv = c.g[gi]->nextInt(m, m + w); }); put(c, iv); break; }
    case DRAW_DBL: ci = call([&] { dv = c.g[gi]->nextDouble(); }); put(c, dv); break;
    case DRAW_DBL_MAX: ci = call([&] { dv = c.g[gi]->nextDouble(1.0 + (double)(s.a[3] % 50)); }); put(c, dv); break;
    case DRAW_DBL_RANGE: ci = call([&] { dv = c.g[gi]->nextDouble(-3.0, 1.0 + (double)(s.a[3] % 50)); }); put(c, dv); break;
    case DRAW_BOOL: ci = call([&] { bv = c.g[gi]->nextBool(); }); put(c, bv); break;
    case RESEED: {
      // Reseeding restarts the sequence: the reference execution uses a new
      // generator in the same place instead.
      int sd = (int)s.a[5];
      if (!reference) ci = call([&] { c.g[gi]->setSeed(sd); });
      else ci = call([&] { Random fresh(sd); *c.g[gi] = fresh; });
      break;
    }
    case COPYGEN: ci = call([&] { if (!c.g[1 - gi]) c.g[1 - gi] = new Random(7); if (s.a[3] % 2) { *c.g[gi] = *c.g[1 - gi]; } else { Random twin(*c.g[1 - gi]); *c.g[gi] = twin; } }); break;
    case NEWGEN: {
      int sd = (int)(s.a[5] % 2 ? -s.a[5] : s.a[5]);
      ci = call([&] { Random fresh(sd); *c.g[gi] = fresh; });
      break;
    }
    case NEWCLOCKGEN: {
      setClock(s.a[5]);
      if (!reference) ci = call([&] { Random fresh; *c.g[gi] = fresh; });
      else ci = call([&] { Random fresh((int)(time_t)s.a[5]); *c.g[gi] = fresh; });
      break;
    }
    case NEWDIST: {
      delete c.d[di];
      c.d[di] = nullptr;
      Param q = decode(s.a[4], s.a[3], s.a[5], s.a[3] % 5 == 0);
      ci = call([&] { c.d[di] = make(q, c.g[gi]); });
      break;
    }
    case NEWCLOCKDIST: {
      // A distribution constructed without a generator has one of its own,
      // seeded by the clock at construction.
      delete c.d[di];
      c.d[di] = nullptr;
      Param q = decode(s.a[4], s.a[3], s.a[5], false);
      setClock(s.a[5]);
      ci = call([&] { c.d[di] = make(q, nullptr); });
      break;
    }
    case SAMPLE:
      if (c.d[di]) { ci = call([&] { dv = c.d[di]->next(); }); put(c, dv); }
      break;
    case BURST:
      // far enough to pass the generator's internal refills
      if (s.a[3] % 4 == 0) { double acc = 0; ci = call([&] { for (int t = 0; t < 700; t++) acc += c.g[gi]->nextInt(1000); }); put(c, acc); }
      break;
    case ATTACH:
      if (c.d[di]) ci = call([&] { c.d[di]->attach(*c.g[gi]); });
      break;
    case TWIN: {
      // a copy goes on like its original, and taking one disturbs nothing
      Param q = decode(s.a[4], s.a[5], s.a[3], false);
      int n = s.a[3] % 16 == 0 ? 700 : (int)(s.a[3] % 9) + 1, how = (int)(s.a[3] / 16 % 5);
      std::vector<double> mine, its;
      auto take = [&](Random& g, std::vector<double>& to) {
        if (how == 4 && n < 100) {
          Any* x = nullptr;
          ci = call([&] { x = make(q, &g); });
          SIM_CHECK(ci.out == O_OK, "call-failed", "making a distribution: %s", outcomeName(ci.out));
          for (int t = 0; t < n; t++) { double v = 0; call([&] { v = x->next(); }); to.push_back(v); }
          delete x;
          return;
        }
        for (int t = 0; t < n; t++) {
          double v = 0;
          ci = call([&] { switch ((how + t) % 4) { case 0: v = g.nextInt(); break; case 1: v = g.nextDouble(); break; case 2: v = g.nextBool(); break; default: v = g.nextInt(-5, 100 + t); } });
          to.push_back(v);
        }
      };
      if (!reference) {
        Random* twin = nullptr;
        ci = call([&] { if (s.a[3] % 3) twin = new Random(*c.g[gi]); else { twin = new Random((int)s.a[5]); if (s.a[3] % 2) twin->nextInt(); *twin = *c.g[gi]; } });
        SIM_CHECK(ci.out == O_OK, "call-failed", "copying a generator: %s", outcomeName(ci.out));
        if (s.a[3] % 4 < 2) { take(*twin, its); take(*c.g[gi], mine); } else { take(*c.g[gi], mine); take(*twin, its); }
        call([&] { delete twin; });
        for (size_t i = 0; i < mine.size(); i++)
          SIM_CHECK(mine[i] == its[i] || (mine[i] != mine[i] && its[i] != its[i]), "copy-differs", "draw %zu from a generator is %.17g, from its copy %.17g", i, mine[i], its[i]);
      } else {
        take(*c.g[gi], mine);
      }
      for (double v : mine) put(c, v);
      break;
    }
    case NOISE:
      // unrelated activity elsewhere in the process
      if (!reference) {
        setClock(s.a[5] * 7);
        call([&] {
          Random other((int)s.a[3]);
          for (int t = 0; t < 5; t++) other.nextInt();
          Random def;
          def.nextDouble();
          cuhksz::randomInt();
          cuhksz::randomDouble();
          cuhksz::randomBool();
          cuhksz::NormalDistribution nd;
          nd.next();
          cuhksz::randomInt(7);
          cuhksz::randomInt(-3, 9);
          cuhksz::randomDouble(2.5);
          cuhksz::randomDouble(-1, 1);
          delete[] new char[(size_t)(s.a[3] % 300 + 1)];
        });
        Any* x = nullptr;
        Param q = decode(s.a[4], s.a[5], s.a[3], false);
        call([&] { Random other((int)s.a[5]); x = make(q, s.a[3] % 2 ? &other : nullptr); x->next(); if (s.a[3] % 3 == 0) x->next(); });
        delete x;
      }
      break;
  }
  SIM_CHECK(ci.out == O_OK, "call-failed", "op %d: %s", s.op, outcomeName(ci.out));
}
static void fin(Cluster& c) {
  for (auto& d : c.d) { delete d; d = nullptr; }
  call([&] { for (auto& g : c.g) { delete g; g = nullptr; } });
}
static void exec(const Plan& p) {
  int nc = (int)p.get("clusters", 1);
  std::vector<Cluster> live(nc);
  for (const Step& s : p.steps) {
    Cluster& c = live[s.a[0] % nc];
    doStep(c, s, false);
    g_run->log("c%lld op %d n%zu %llx", s.a[0] % nc, s.op, c.out.size(), c.out.empty() ? 0 : c.out.back());
    if (s.op == NOISE) fault("unrelated_activity");
    if (s.op == NEWCLOCKGEN || s.op == NEWCLOCKDIST) fault("clock_jump");
  }
  for (auto& c : live) fin(c);
  // The same call sequence of each cluster again: alone, with another clock,
  // and with restarts replaced by new generators.
  for (int k = 0; k < nc; k++) {
    Cluster c;
    setClock(123456);
    for (const Step& s : p.steps)
      if (s.a[0] % nc == k) doStep(c, s, true);
    fin(c);
    SIM_CHECK(c.out.size() == live[k].out.size(), "sequence-differs", "lengths differ");
    for (size_t i = 0; i < c.out.size(); i++) {
      double a, b;
      memcpy(&a, &live[k].out[i], 8);
      memcpy(&b, &c.out[i], 8);
      SIM_CHECK(c.out[i] == live[k].out[i] || (a != a && b != b), "sequence-differs",
                "output %zu of cluster %d: %.17g among other activity, %.17g when repeated alone", i, k, a, b);
    }
  }
}
static void warm() { cuhksz::randomInt(); cuhksz::randomDouble(); cuhksz::randomBool(); }
#endif

#define STR2(x) #x
#define STR(x) STR2(x)
static Property prop = {
#if defined(VERIF_PROP_C09)
    "C09",
#elif defined(VERIF_PROP_C10)
    "C10",
#else
    "C11",
#endif
    gen, exec, warm};
namespace sim { Property* getProperty() { return &prop; } }
