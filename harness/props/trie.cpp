// C06: a trie is a set of strings, over every history, also when memory runs out.
#include "sim.h"
#include <algorithm>
#include "string_utils/Trie.h"
using namespace sim;
typedef cuhksz::Trie Trie;

// Alphabets: each maps the end marker to 1 and its characters to 2, 3, ...
static int bit2i(char c) { return c == '\001' ? 1 : c == 'x' ? 2 : 3; }
static char bit2c(int n) { return n == 1 ? '\001' : n == 2 ? 'x' : 'y'; }
static const char WORD[] = "\001zyxwvutsrqponmlkjihgfedcbaZYXWVUTSRQPONMLKJIHGFEDCBA9876543210_";
static int word2i(char c) { return (int)(strchr(WORD, c) - WORD) + 1; }
static char word2c(int n) { return WORD[n - 1]; }
static int byte2i(char c) { int u = (unsigned char)c; return u == 1 ? 1 : u == 0 ? 2 : u + 1; }
static char byte2c(int n) { return (char)(n == 1 ? 1 : n == 2 ? 0 : n - 1); }
static int upper2i(char c) { return c == '\001' ? 1 : c - 'A' + 2; }
static char upper2c(int n) { return n == 1 ? '\001' : (char)(n - 2 + 'A'); }
static Trie* mk(int kind) {
  switch (kind) {
    case 1: return new Trie(bit2i, bit2c);
    case 2: return new Trie(word2i, word2c);
    case 3: return new Trie(byte2i, byte2c);
    case 4: return new Trie(upper2i, upper2c);
    default: return new Trie;
  }
}
static char letter(Rng& r, int kind, int spread) {
  switch (kind) {
    case 1: return "xy"[r.below(2)];
    case 2: return WORD[1 + r.below(spread < 3 ? spread + 1 : 63)];
    case 3: { int u = (int)r.below(spread < 3 ? 4 : 256); return (char)(u == 1 ? 254 : u); }
    case 4: return (char)('A' + r.below(spread < 3 ? spread + 1 : 26));
    default: return (char)('a' + r.below(spread < 3 ? spread + 1 : 26));
  }
}
enum { T_INSERT, T_REMOVE, T_CONTAIN, T_ITER, T_FRESH, T_COPY, T_ASSIGN, T_ITERPART, T_BULK, T_N };
static void gen(Rng& r, Plan& p) {
  int nt = (int)r.range(1, 3);
  p.cfg["tries"] = nt;
  int kind[3];
  for (int i = 0; i < 3; i++) p.cfg["alphabet" + std::to_string(i)] = kind[i] = (int)r.below(5);
  int spread = (int)r.range(0, 4), maxLen = (int)r.pick({3, 6, 10, 30});
  std::vector<std::string> pool[3];
  int words = (int)r.range(2, r.chance(20) ? 60 : 16), cap = 40;
  bool big = r.below(150) == 0, lng = r.below(100) == 0;
  if (big) { words = (int)r.range(100, 400); nt = 1; p.cfg["tries"] = 1; }
  if (lng) { maxLen = (int)r.pick({70, 140, 300, 1100}); cap = maxLen; words = (int)r.range(2, 8); }
  bool wide = big && r.chance(50);   // few nodes with very many arcs each
  if (wide) { spread = 4; p.cfg["alphabet0"] = kind[0] = (int)r.pick({0, 2, 3, 3, 4}); }
  for (int k = 0; k < nt; k++)
    for (int i = 0; i < words; i++) {
      std::string w;
      if (wide) {
        for (int j = (int)r.below(3); j > 0; j--) w += letter(r, kind[k], 1);
        while (r.chance(90) && w.size() < 3) { w += letter(r, kind[k], 4); if (r.chance(50)) break; }
        pool[k].push_back(w);
        continue;
      }
      if (!pool[k].empty() && r.chance(55)) {   // shares a prefix with another word
        const std::string& o = pool[k][r.below((i64)pool[k].size())];
        w = o.substr(0, (size_t)r.range(0, (i64)o.size()));
      }
      int n = (int)r.skew(maxLen + 1);
      while ((int)w.size() < n || ((int)w.size() < cap && r.chance(20))) w += letter(r, kind[k], spread);
      pool[k].push_back(w);
    }
  int n = big ? words + (int)r.range(0, 400) : (int)r.range(3, r.chance(15) ? 160 : 40);
  int rate = (int)r.pick({0, 0, 20, 50});
  int rem = (int)r.pick({10, 30, 50});
  if (big) rate = rate ? 3 : 0;
  for (int i = 0; i < n; i++) {
    Step s;
    int c = (int)r.below(100);
    s.op = c < 6 ? T_ITER : c < 12 ? T_CONTAIN : c < 13 ? T_FRESH : c < 15 ? T_COPY : c < 16 ? T_ASSIGN : c < 18 ? T_ITERPART : r.chance(rem) ? T_REMOVE : T_INSERT;
    s.a[0] = r.below(nt);
    s.a[1] = r.below(nt);
    s.a[2] = r.below(1000);
    s.s = pool[s.a[0]][big && r.chance(50) ? i % words : r.below((i64)pool[s.a[0]].size())];
    if (r.chance(rate)) {
      s.fk = (int)r.pick<i64>({F_OOM_SCAN, F_OOM_SCAN, F_OOM_ONE, F_OOM_FROM, F_OOM_SIZE});
      s.fa = s.fk == F_OOM_SIZE ? r.pick<i64>({17, 65, 257, 1025}) : r.skew(8);
      s.fb = r.below(2);
    }
    p.steps.push_back(s);
  }
  if (r.below(400) == 0) {
    p.steps.resize(std::min<size_t>(p.steps.size(), 20));
    Step s;
    s.op = T_BULK;
    s.a[0] = r.below(nt);
    s.a[2] = r.below(1000);
    s.a[3] = r.pick<i64>({200, 300, 1000, 3000, 5000});
    p.steps.insert(p.steps.begin() + r.below((i64)p.steps.size() + 1), s);
  }
}
typedef std::set<std::string> SS;
static std::string show(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) { if (c > 32 && c < 127) o += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
  return o + "\"";
}
static void exec(const Plan& p) {
  int nt = (int)p.get("tries", 1);
  Trie* t[3] = {nullptr, nullptr, nullptr};
  SS m[3], seen[3];
  int kind[3];
  auto quiet = [&](const std::function<void()>& f) {
    CallInfo ci = call(f);
    SIM_CHECK(ci.out == O_OK, "observation-failed", "reading the trie ended with %s %s", outcomeName(ci.out), ci.what.c_str());
  };
  for (int k = 0; k < nt; k++) { kind[k] = (int)p.get("alphabet" + std::to_string(k)); quiet([&] { t[k] = mk(kind[k]); }); }
  u64 turn = 0;
  auto light = [&](const char* nm) {
    turn++;
    for (int k = 0; k < nt; k++) {
      int n = -1;
      quiet([&] { n = t[k]->size(); });
      SIM_CHECK(n == (int)m[k].size(), "wrong-size", "after %s trie %d reports %d elements and holds %zu", nm, k, n, m[k].size());
      size_t at = 0;
      for (auto& w : seen[k]) {
        if (seen[k].size() > 70 && (at++ + turn) % 16) continue;
        bool c = false;
        quiet([&] { c = t[k]->contain(w); });
        SIM_CHECK(c == (m[k].count(w) == 1), "wrong-membership", "after %s trie %d %s %s", nm, k, c ? "contains" : "lacks", show(w).c_str());
      }
    }
  };
  auto walk = [&](int k, const char* nm) {
    std::vector<std::string> got;
    quiet([&] { for (auto it = t[k]->begin(); it != t[k]->end(); ++it) { std::string w = *it; Out o; got.push_back(w); if (got.size() > m[k].size() + 3) break; } });
    bool twin = true;   // a copied iterator goes on where the original stood; equal ones give the same
    if (m[k].size() < 40) quiet([&] {
      auto it = t[k]->begin();
      for (size_t n = turn % 5; n > 0 && it != t[k]->end(); n--) ++it;
      auto other = it;
      twin = twin && other == it && !(other != it);
      if (it != t[k]->end()) {
        std::string w = *it;
        ++it;
        twin = twin && *other == w && other != it && !(other == it);
        ++other;
        twin = twin && other == it;
        while (it != t[k]->end()) { twin = twin && *it == *other; ++it; ++other; if (!twin) break; }
        twin = twin && other == t[k]->end();
      }
    });
    SIM_CHECK(twin, "wrong-iteration", "after %s two iterators of trie %d at the same place go on differently", nm, k);
    std::sort(got.begin(), got.end());
    std::vector<std::string> want(m[k].begin(), m[k].end());
    SIM_CHECK(got == want, "wrong-iteration", "after %s iterating trie %d visits %zu strings, it holds %zu", nm, k, got.size(), want.size());
  };
  for (const Step& s : p.steps) {
    if (s.op == T_BULK) setBudget(4000000000ull);
    int k = (int)(s.a[0] % nt), o = (int)(s.a[1] % nt);
    bool c = false;
    std::vector<std::string> got, many;
    std::function<void()> lib, done = [] {};
    const char* nm = "?";
    if (s.op == T_INSERT || s.op == T_REMOVE || s.op == T_CONTAIN) seen[k].insert(s.s);
    switch (s.op) {
      case T_INSERT: nm = "insert"; lib = [&] { t[k]->insert(s.s); }; done = [&] { m[k].insert(s.s); }; break;
      case T_REMOVE: nm = "remove"; lib = [&] { t[k]->remove(s.s); }; done = [&] { m[k].erase(s.s); }; break;
      case T_CONTAIN: nm = "contain"; lib = [&] { c = t[k]->contain(s.s); }; done = [&] { SIM_CHECK(c == (m[k].count(s.s) == 1), "wrong-membership", "contain(%s) gave %d", show(s.s).c_str(), c); }; break;
      case T_ITER: case T_ITERPART: {
        nm = "iteration";
        size_t stop = s.op == T_ITER ? (size_t)-1 : (size_t)(s.a[2] % 7);
        lib = [&, stop] {
          { Out x; got.clear(); }
          for (auto w : *t[k]) { Out x; if (got.size() == stop || got.size() > m[k].size() + 3) break; got.push_back(w); }
        };
        done = [&, stop] {
          SS u(got.begin(), got.end());
          bool all = stop >= m[k].size();
          bool ok = u.size() == got.size() && (all ? u == m[k] : got.size() == stop);
          for (auto& w : got) ok = ok && m[k].count(w);
          SIM_CHECK(ok, "wrong-iteration", "iterating trie %d gave %zu strings (%zu different), it holds %zu", k, got.size(), u.size(), m[k].size());
        };
        break;
      }
      case T_BULK: {                       // very many words: all numbers in some notation
        nm = "inserting many words";
        static const char* DIGITS[5] = {"abcdefghijklmnop", "xy", "0123456789ABCDEFabcdefghijkl", "\x02\x7f\x80\xff", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"};
        const char* dg = DIGITS[kind[k]];
        int nd = (int)strlen(dg);
        for (i64 i = 0; i < s.a[3]; i++) {
          std::string w;
          for (u64 x = (u64)i + 1; x; x /= (u64)nd) w += dg[x % (u64)nd];
          if (s.a[2] % 2) std::reverse(w.begin(), w.end());
          many.push_back(s.s + w);
        }
        i64 every = s.a[2] % 3 + 2;
        lib = [&, every] { for (size_t i = 0; i < many.size(); i++) { t[k]->insert(many[i]); if (i % (size_t)every == 1) t[k]->remove(many[i / 2]); } };
        done = [&, every] { for (size_t i = 0; i < many.size(); i++) { m[k].insert(many[i]); if (i % (size_t)every == 1) m[k].erase(many[i / 2]); } for (size_t i = 0; i < many.size(); i += 1 + many.size() / 40) seen[k].insert(many[i]); };
        break;
      }
      case T_FRESH: nm = "construction"; lib = [&] { Trie* n = mk(kind[k]); delete t[k]; t[k] = n; }; done = [&] { m[k].clear(); }; break;
      case T_COPY: nm = "copy construction"; lib = [&] { Trie* n = new Trie(*t[k]); delete t[k]; t[k] = n; }; break;
      default:
        nm = "assignment";
        if (kind[k] != kind[o]) continue;
        // a failed assignment may leave a mixed trie; without faults only
        lib = [&] { *t[k] = *t[o]; };
        done = [&] { m[k] = m[o]; seen[k].insert(seen[o].begin(), seen[o].end()); };
    }
    bool finished = false;
    int fk = s.op == T_ASSIGN ? 0 : s.fk;
    Arm a;
    auto attempt = [&](Arm ar) {
      CallInfo ci = call(ar, lib);
      g_run->log("%s %s: %s%s", nm, show(s.s).c_str(), outcomeName(ci.out), ci.fired ? " (fault)" : "");
      if (ci.out == O_BADALLOC) {
        SIM_CHECK(ci.fired, "spurious-failure", "%s ran out of memory without a fault", nm);
        light(nm);
        walk(k, nm);
        return false;
      }
      SIM_CHECK(ci.out == O_OK, "wrong-failure", "%s ended with %s %s", nm, outcomeName(ci.out), ci.what.c_str());
      done();
      light(nm);
      return true;
    };
    if (fk == F_OOM_SCAN) {
      for (int j = 0; j < 300 && !finished; j++) { a.kind = F_OOM_ONE; a.k = j; finished = attempt(a); }
    } else if (fk) {
      a.kind = fk;
      a.k = s.fa;
      finished = attempt(a);
      if (!finished && !(s.fb & 1)) finished = true;
    }
    if (!finished) attempt(Arm());
    if (s.a[2] % 8 == 0) walk(k, nm);
  }
  for (int k = 0; k < nt; k++) walk(k, "the history");
  for (int k = 0; k < nt; k++) quiet([&] { delete t[k]; });
  SIM_CHECK(liveBlocks() == 0, "leak", "%zu blocks survive: %s", liveBlocks(), describeLive().c_str());
}
static Property PR = {"C06", gen, exec, nullptr};
namespace sim { Property* getProperty() { return &PR; } }
