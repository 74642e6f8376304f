// C12: calls that keep no state depend on nothing but their arguments, and
// survive memory exhaustion at any point.
#include "menu.h"
using namespace sim;
struct Rec : menu::Sink {
  std::vector<std::pair<u64, std::string>> t;
  void u(u64 v) override { Out o; t.emplace_back(v, ""); }
  void d(double v) override { Out o; u64 b; memcpy(&b, &v, 8); if (v == 0) b = 0; if (v != v) b = 1; t.emplace_back(b, "d"); }
  void s(const std::string& v) override { Out o; t.emplace_back(v.size(), std::string("s") + v.c_str() + std::string(v.data(), v.size())); }
};
static void gen(Rng& r, Plan& p) {
  int n = (int)r.range(1, 8);
  int rate = (int)r.pick({0, 40, 80});
  for (int i = 0; i < n; i++) {
    Step s;
    if (!p.steps.empty() && r.chance(30)) s = p.steps[r.below((i64)p.steps.size())];   // the same call once more
    else {
      s.op = (int)r.below(menu::M_N);
      s.a[0] = r.below(1 << 30);
      s.a[1] = r.chance(15) ? r.range(3, 6) : r.chance(1) ? r.range(20, 60) : r.range(1, 2);
    }
    s.a[2] = r.chance(50) ? 0 : r.pick<i64>({1, 1000000000, 2147483647, 4000000000ll, -5});
    s.fk = 0;
    if (r.chance(rate)) {
      s.fk = (int)r.pick<i64>({F_OOM_SCAN, F_OOM_SCAN, F_OOM_ONE, F_OOM_FROM, F_OOM_SIZE});
      if (s.a[1] > 10 && s.fk == F_OOM_SCAN) s.fk = F_OOM_ONE;
      s.fa = s.fk == F_OOM_SIZE ? r.pick<i64>({1, 17, 33, 65, 129, 513}) : r.skew(s.a[1] > 10 ? 2000 : s.a[1] > 2 ? 60 : 16);
      s.fb = r.below(4);
    }
    p.steps.push_back(s);
  }
}
typedef std::vector<std::pair<u64, std::string>> Tr;
static void exec(const Plan& p) {
  std::map<std::vector<i64>, Tr> seen;
  for (const Step& s : p.steps) {
    const char* nm = menu::name(s.op);
    if (s.op < 0 || s.op >= menu::M_N) continue;
    if (s.a[2]) { setClock(s.a[2]); fault("clock_jump"); }
    size_t before = liveBlocks();
    Rec rec;
    auto once = [&](Arm a) {
      rec.t.clear();
      CallInfo ci = call(a, [&] { menu::run(s.op, (u64)s.a[0], (int)s.a[1], rec); });
      u64 h = 7;
      for (auto& e : rec.t) { h = mix(h, e.first); for (unsigned char c : e.second) h = mix(h, c); }
      g_run->log("%s %lld: %s%s %zu results %llx", nm, s.a[0], outcomeName(ci.out), ci.fired ? " (fault)" : "", rec.t.size(), h);
      SIM_CHECK(ci.out == O_OK || ci.out == O_BADALLOC, "wrong-failure", "%s ended with %s %s", nm, outcomeName(ci.out), ci.what.c_str());
      SIM_CHECK(ci.out == O_OK || ci.fired, "spurious-failure", "%s ran out of memory without a fault", nm);
      SIM_CHECK(liveBlocks() == before, "leak", "%s left %zu blocks behind%s: %s", nm, liveBlocks() - before, ci.out == O_OK ? "" : " when memory ran out", describeLive().c_str());
      return ci;
    };
    std::vector<i64> key = {s.op, s.a[0], s.a[1]};
    if (!seen.count(key)) {
      if (s.fb & 2) {   // let the first use of the call in this process be the failing one
        Arm a; a.kind = s.fk == F_OOM_SCAN ? (int)F_OOM_ONE : s.fk; a.k = s.fa;
        once(a);
        Tr first = rec.t;
        CallInfo ci = once(Arm());
        SIM_CHECK(ci.out == O_OK, "wrong-failure", "%s failed", nm);
        SIM_CHECK(first.size() <= rec.t.size() && std::equal(first.begin(), first.end(), rec.t.begin()), "depends-on-faults", "%s gave results under memory exhaustion that it does not give otherwise", nm);
      } else once(Arm());
      seen[key] = rec.t;
    }
    const Tr& want = seen[key];
    auto agree = [&](const CallInfo& ci) {
      if (ci.out == O_OK) SIM_CHECK(rec.t == want, ci.fired ? "swallowed-exhaustion" : "not-repeatable", "%s gave another result %s", nm, ci.fired ? "when memory ran out" : "the second time");
      else SIM_CHECK(rec.t.size() <= want.size() && std::equal(rec.t.begin(), rec.t.end(), want.begin()), "wrong-before-failure", "%s gave wrong results before it reported exhausted memory", nm);
    };
    if (s.fk == F_OOM_SCAN) {
      for (int j = 0; j < 800; j++) {
        Arm a; a.kind = F_OOM_ONE; a.k = j;
        CallInfo ci = once(a);
        agree(ci);
        if (!ci.fired) break;
      }
    } else if (s.fk) {
      Arm a; a.kind = s.fk; a.k = s.fa;
      agree(once(a));
    }
    agree(once(Arm()));
  }
}
static void warm() {
  Rec rec;
  for (int op = 0; op < menu::M_N; op++)
    for (u64 k = 0; k < 40; k++) { Lib l; menu::run(op, 3 + k * 7919, 2 + (int)(k % 5), rec); }
}
static Property PR = {"C12", gen, exec, warm};
namespace sim { Property* getProperty() { return &PR; } }
