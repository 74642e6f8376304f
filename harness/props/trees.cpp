// C17: segment trees and search trees against a plain array and a sorted list,
// over histories of updates, copies and moves, with allocation failures.
#include "sim.h"
#include <algorithm>
#include "graph/BST.h"
#include <climits>
#include "graph/SegmentTree.h"
using namespace sim;
using cuhksz::BST;
using cuhksz::BSTNode;
using cuhksz::SegmentTree;

enum { S_ADD, S_MUL, S_MAX, S_MIN, S_SUM, S_BUILD, S_COPY, S_ASSIGN, S_SIZE, S_SWEEP,
       B_INSERT, B_ERASE, B_FIND, B_PRE, B_SUF, B_VAL, B_MOVE, B_SWEEP, T_N };
static void gen(Rng& r, Plan& p) {
  int focus = (int)r.below(3);
  bool big = r.below(60) == 0;
  p.cfg["type"] = r.below(3);
  p.cfg["n0"] = big ? r.pick<i64>({100, 127, 128, 129, 255, 257, 500}) : r.chance(30) ? r.range(1, 4) : r.range(1, 40);
  bool huge = r.below(1500) == 0;
  if (huge) p.cfg["n0"] = r.pick<i64>({32768, 40000, 70000}), focus = 1;
  p.cfg["n1"] = r.range(1, 20);
  p.cfg["seed"] = r.below(1 << 20);
  int pool = big ? 300 : (int)r.range(1, 30);
  p.cfg["pool"] = pool;
  p.cfg["ranks"] = r.pick<i64>({2, 5, 21, 1000});   // small: many equal keys
  p.cfg["order"] = r.below(4);                       // of keys in the pool
  int n = huge ? (int)r.range(3, 20) : big ? (int)r.range(100, 700) : (int)r.range(3, r.chance(20) ? 150 : 50);
  int upd = (int)r.pick({30, 50, 70}), ers = (int)r.pick({20, 40, 60});
  int local = (int)r.below(3);                       // intervals: anything, narrow, wide
  int rate = (int)r.pick({0, 50});
  for (int i = 0; i < n; i++) {
    Step s;
    int c = (int)r.below(100);
    bool seg = focus == 1 || (focus == 0 && r.chance(50));
    if (seg) s.op = c < 4 ? S_BUILD : c < 8 ? S_COPY : c < 10 ? S_ASSIGN : c < 11 ? S_SIZE : c < 13 ? S_SWEEP : r.chance(upd) ? (r.chance(50) ? S_ADD : S_MUL) : (int)r.range(S_MAX, S_SUM);
    else s.op = c < 10 ? B_FIND : c < 17 ? B_PRE : c < 24 ? B_SUF : c < 26 ? B_VAL : c < 30 ? B_MOVE : c < 32 ? B_SWEEP : r.chance(ers) ? B_ERASE : B_INSERT;
    s.a[0] = r.below(2);
    i64 sz = s.a[0] ? p.cfg["n1"] : p.cfg["n0"];
    i64 l = r.below(sz), w = local == 0 ? r.below(sz) : local == 1 ? r.below(2) : sz - 1 - r.below(2);
    if (local == 2) l = r.below(2);
    if (r.chance(5)) l = 0, w = sz;
    s.a[1] = l;
    s.a[2] = l + std::max<i64>(w, 0);
    s.a[3] = s.op == S_MUL ? r.pick<i64>({-1, 0, 1, 2, -2, 3, -3, 2, -1, 10}) : r.range(-50, 50);
    s.a[4] = r.below(1000);
    s.a[5] = r.below(1000);
    if (!huge && (s.op == S_BUILD || s.op == S_COPY) && r.chance(rate)) {
      s.fk = (int)r.pick<i64>({F_OOM_SCAN, F_OOM_ONE, F_OOM_FROM, F_OOM_SIZE});
      s.fa = s.fk == F_OOM_SIZE ? r.pick<i64>({1, 17, 65, 257}) : r.skew(40);
      s.fb = r.below(2);
    }
    p.steps.push_back(s);
  }
}
static void quiet(const char* nm, const std::function<void()>& f) {
  CallInfo ci = call(f);
  SIM_CHECK(ci.out == O_OK, "wrong-failure", "%s ended with %s %s", nm, outcomeName(ci.out), ci.what.c_str());
}
// ------------------------------------------------------------ segment trees
template <class V>
struct Seg {
  SegmentTree<V>* t = nullptr;
  std::vector<V> m;
  std::vector<double> bound;   // of every value and every pending change: nothing overflows
};
template <class V>
struct Segs {
  Seg<V> s[2];
  double limit;
  Segs(const Plan& p) {
    limit = sizeof(V) == 4 ? 1e9 : 1e15;
    Rng r((u64)p.get("seed"));
    for (int k = 0; k < 2; k++) {
      std::vector<V> v = fresh(r, (int)p.get(k ? "n1" : "n0", 1));
      quiet("building a segment tree", [&] { s[k].t = new SegmentTree<V>(v); });
      set(k, v);
    }
  }
  static V scale(i64 x) { return std::is_floating_point<V>::value ? (V)(x * 0.25) : (V)x; }
  static std::vector<V> fresh(Rng& r, int n) {
    std::vector<V> v;
    int kind = (int)r.below(3);
    for (int i = 0; i < std::max(n, 1); i++) v.push_back(scale(kind == 0 ? r.range(-100, 100) : kind == 1 ? i : r.range(0, 1)));
    return v;
  }
  void set(int k, const std::vector<V>& v) {
    s[k].m = v;
    s[k].bound.clear();
    for (V x : v) s[k].bound.push_back(std::max(1.0, std::fabs((double)x)));
  }
  V want(int k, int op, int l, int h) {
    V r = s[k].m[l];
    for (int i = l + 1; i <= h; i++) r = op == S_MAX ? std::max(r, s[k].m[i]) : op == S_MIN ? std::min(r, s[k].m[i]) : (V)(r + s[k].m[i]);
    return r;
  }
  void query(int k, int op, int l, int h, bool longForm, const char* after) {
    const char* nm = op == S_MAX ? "maximum" : op == S_MIN ? "minimum" : "sum";
    V got = 0;
    SegmentTree<V>* t = s[k].t;
    int e = (int)s[k].m.size() - 1;
    quiet(nm, [&] {
      if (longForm) got = op == S_MAX ? t->queryMax(l, h, 0, e, 1) : op == S_MIN ? t->queryMin(l, h, 0, e, 1) : t->querySum(l, h, 0, e, 1);
      else got = op == S_MAX ? t->queryMax(l, h) : op == S_MIN ? t->queryMin(l, h) : t->querySum(l, h);
    });
    V w = want(k, op, l, h);
    SIM_CHECK(got == w, "wrong-answer", "%s the %s of [%d, %d] of segment tree %d (%zu values) is %.17g, not %.17g", after, nm, l, h, k, s[k].m.size(), (double)got, (double)w);
    g_run->log("%s %d [%d, %d] = %.17g", nm, k, l, h, (double)got);
  }
  void sweep(int k, const char* after, i64 salt) {
    int n = (int)s[k].m.size();
    query(k, S_MAX + (int)(salt % 3), 0, n - 1, false, after);
    int every = n > 1000 ? n / 30 + 1 : 1;
    for (int i = 0; i < n; i += every) {
      int l = i, h = std::min<int>(n - 1, i + (int)((salt + i * 7) % 5));
      for (int op = S_MAX; op <= S_SUM; op++) query(k, op, l, h, false, after);
      if (n < 30) for (int op = S_MAX; op <= S_SUM; op++) query(k, op, 0, i, false, after);
      else query(k, S_MAX + (int)((salt + i) % 3), (int)((salt * 3 + i) % n) % (i + 1), i, false, after);
    }
  }
  void step(const Step& st) {
    int k = (int)(st.a[0] & 1), o = 1 - k, n = (int)s[k].m.size();
    int l = (int)std::min<i64>(std::max<i64>(st.a[1], 0), n - 1), h = (int)std::min<i64>(std::max<i64>(st.a[2], l), n - 1);
    switch (st.op) {
      case S_ADD: case S_MUL: {
        bool add = st.op == S_ADD;
        V x = add ? scale(st.a[3]) : (V)st.a[3];
        double total = 0;
        std::vector<double> nb = s[k].bound;
        for (int i = l; i <= h; i++) nb[i] = add ? nb[i] + std::fabs((double)x) : nb[i] * std::max(1.0, std::fabs((double)x));
        for (double b : nb) total += b;
        if (total > limit) return;
        s[k].bound = nb;
        int e = n - 1;
        SegmentTree<V>* t = s[k].t;
        bool lf = st.a[4] % 10 == 0;
        quiet("updating an interval", [&] {
          if (add) { if (lf) t->addInterval(l, h, x, 0, e, 1); else t->addInterval(l, h, x); }
          else { if (lf) t->mulInterval(l, h, x, 0, e, 1); else t->mulInterval(l, h, x); }
        });
        for (int i = l; i <= h; i++) s[k].m[i] = add ? (V)(s[k].m[i] + x) : (V)(s[k].m[i] * x);
        g_run->log("%s %d [%d, %d] %.17g", add ? "add" : "multiply", k, l, h, (double)x);
        return;
      }
      case S_MAX: case S_MIN: case S_SUM: query(k, st.op, l, h, st.a[4] % 10 == 0, "after the updates"); return;
      case S_SIZE: {
        int g = -1;
        quiet("size", [&] { g = s[k].t->getSize(); });
        SIM_CHECK(g == n, "wrong-size", "a segment tree of %d values reports %d", n, g);
        return;
      }
      case S_SWEEP: sweep(k, "after the updates", st.a[4]); return;
      case S_ASSIGN:   // memory may run out half-way: without faults only
        quiet("assigning a segment tree", [&] { *s[k].t = *s[st.a[4] & 1 ? o : k].t; });
        if (st.a[4] & 1) { s[k].m = s[o].m; s[k].bound = s[o].bound; }
        return;
      default: break;
    }
    bool build = st.op == S_BUILD, finished = false;
    Rng r((u64)(st.a[4] * 1000 + st.a[5]));
    std::vector<V> v = fresh(r, build && st.a[5] % 3 == 0 ? (int)r.range(1, 40) : n);
    SegmentTree<V>* nt = nullptr;
    const char* nm = build ? "building a segment tree" : "copying a segment tree";
    auto attempt = [&](Arm a) {
      size_t before = liveBlocks();
      nt = nullptr;
      CallInfo ci = call(a, [&] { nt = build ? new SegmentTree<V>(v) : new SegmentTree<V>(*s[k].t); });
      g_run->log("%s %d: %s%s", nm, k, outcomeName(ci.out), ci.fired ? " (fault)" : "");
      if (ci.out == O_BADALLOC) {
        SIM_CHECK(ci.fired, "spurious-failure", "%s ran out of memory without a fault", nm);
        SIM_CHECK(liveBlocks() == before, "leak", "%s left %zu blocks behind when memory ran out: %s", nm, liveBlocks() - before, describeLive().c_str());
        query(k, S_MAX + (int)(st.a[4] % 3), l, h, false, "after memory ran out");
        return false;
      }
      SIM_CHECK(ci.out == O_OK, "wrong-failure", "%s ended with %s %s", nm, outcomeName(ci.out), ci.what.c_str());
      return true;
    };
    if (st.fk == F_OOM_SCAN) {
      for (int j = 0; j < 200 && !finished; j++) { Arm a; a.kind = F_OOM_ONE; a.k = j; finished = attempt(a); }
    } else if (st.fk) {
      Arm a;
      a.kind = st.fk;
      a.k = st.fa;
      finished = attempt(a);
      if (!finished && (st.fb & 1)) return;
    }
    if (!finished) attempt(Arm());
    // keep the copy and the original in turns; the other one must not notice
    if (!build && (st.a[5] & 1)) std::swap(nt, s[k].t);
    if (build) { std::swap(nt, s[k].t); set(k, v); }
    else if (st.a[5] & 2) {
      V x = scale(st.a[3]);
      quiet("updating an interval", [&] { nt->addInterval(l, h, x); nt->mulInterval(0, n - 1, 0); });
    }
    quiet("destroying a segment tree", [&] { delete nt; });
  }
  void finish() {
    for (int k = 0; k < 2; k++) sweep(k, "after the history", k);
    quiet("destroying a segment tree", [&] { delete s[0].t; delete s[1].t; });
  }
};
// ------------------------------------------------------------ search trees
struct Bst {
  BST* t[2];
  std::vector<BSTNode*> n;
  std::vector<int> rank, val, in;   // in: tree or -1
  int ranks;
  Bst(const Plan& p) {
    ranks = (int)p.get("ranks", 5);
    Rng r((u64)p.get("seed") + 77);
    int pool = (int)p.get("pool", 1), order = (int)p.get("order");
    quiet("creating a search tree", [&] { t[0] = new BST; t[1] = new BST; });
    for (int i = 0; i < std::max(pool, 1); i++) {
      int k = order == 0 ? i : order == 1 ? pool - i : (int)r.below(ranks);
      if (order == 3) { k = (k % 21) * 200000000 - 2000000000; if (k == -2000000000) k = INT_MIN; if (k == 2000000000) k = INT_MAX; }
      BSTNode* x = nullptr;
      quiet("creating a node", [&] { x = new BSTNode(k, i); });
      n.push_back(x);
      rank.push_back(k);
      val.push_back(i);
      in.push_back(-1);
    }
  }
  int index(BSTNode* x) { for (size_t i = 0; i < n.size(); i++) if (n[i] == x) return (int)i; return -1; }
  void find(int k, int key, const char* after) {
    BSTNode* x = nullptr;
    quiet("find", [&] { x = t[k]->find(key); });
    bool has = false;
    for (size_t i = 0; i < n.size(); i++) has = has || (in[i] == k && rank[i] == key);
    g_run->log("find %d %d: %d", k, key, x != nullptr);
    if (!x) { SIM_CHECK(!has, "not-found", "%s search tree %d does not find key %d, which it holds", after, k, key); return; }
    int i = index(x);
    SIM_CHECK(i >= 0 && in[i] == k && rank[i] == key, "wrong-node", "%s search tree %d finds for key %d a node it does not hold or with another key", after, k, key);
    attrs(i, after);
  }
  void attrs(int i, const char* after) {
    int rk = 0, v = 0;
    quiet("reading a node", [&] { rk = n[i]->getRank(); v = n[i]->getVal(); });
    SIM_CHECK(rk == rank[i] && v == val[i], "wrong-node", "%s a node has key %d and value %d, not %d and %d", after, rk, v, rank[i], val[i]);
  }
  // dir -1: predecessor, +1: successor
  void neighbour(int i, int dir, const char* after) {
    int k = in[i];
    BSTNode* y = nullptr;
    quiet(dir < 0 ? "predecessor" : "successor", [&] { y = dir < 0 ? t[k]->pre(n[i]) : t[k]->suf(n[i]); });
    // nearest key strictly on that side
    bool some = false;
    i64 best = 0;
    for (size_t j = 0; j < n.size(); j++)
      if (in[j] == k && (dir < 0 ? rank[j] < rank[i] : rank[j] > rank[i]) && (!some || (dir < 0 ? rank[j] > best : rank[j] < best))) some = true, best = rank[j];
    const char* w = dir < 0 ? "predecessor" : "successor";
    g_run->log("%s %d: %d", w, i, y ? index(y) >= 0 ? rank[index(y)] : -1 : -2);
    if (!y) { SIM_CHECK(!some, "wrong-neighbour", "%s the node with key %d has no %s, though the tree holds key %lld", after, rank[i], w, best); return; }
    int j = index(y);
    SIM_CHECK(j >= 0 && j != i && in[j] == k && (rank[j] == rank[i] || (some && rank[j] == best)), "wrong-neighbour", "%s the %s of the node with key %d is not its neighbour", after, w, rank[i]);
  }
  void sweep(int k, const char* after) {
    for (size_t i = 0; i < n.size(); i++) {
      find(k, rank[i], after);
      if (in[i] == k) { neighbour((int)i, -1, after); neighbour((int)i, 1, after); }
    }
    find(k, ranks + 1, after);
    find(k, -1, after);
  }
  void step(const Step& s) {
    int k = (int)(s.a[0] & 1);
    std::vector<int> here, idle;
    for (size_t i = 0; i < n.size(); i++) { if (in[i] == k) here.push_back((int)i); if (in[i] < 0) idle.push_back((int)i); }
    int h = here.empty() ? -1 : here[s.a[4] % here.size()];
    // in order of the pool by half, so that sorted insertions happen
    int f = idle.empty() ? -1 : idle[s.a[5] & 1 ? 0 : s.a[4] % idle.size()];
    switch (s.op) {
      case B_INSERT: if (f < 0) return; quiet("insert", [&] { t[k]->insert(n[f]); }); in[f] = k; g_run->log("insert %d %d", k, rank[f]); return;
      case B_ERASE: if (h < 0) return; quiet("erase", [&] { t[k]->erase(n[h]); }); in[h] = -1; g_run->log("erase %d %d", k, rank[h]); return;
      case B_MOVE: if (h < 0) return; quiet("erase and insert", [&] { t[k]->erase(n[h]); t[1 - k]->insert(n[h]); }); in[h] = 1 - k; g_run->log("move %d %d", k, rank[h]); return;
      case B_FIND: find(k, s.a[5] % 5 == 0 ? (int)s.a[3] : rank[s.a[4] % n.size()], "after the changes"); return;
      case B_PRE: if (h >= 0) neighbour(h, -1, "after the changes"); return;
      case B_SUF: if (h >= 0) neighbour(h, 1, "after the changes"); return;
      case B_VAL: { int i = (int)(s.a[4] % n.size()); val[i] = (int)s.a[3]; quiet("setVal", [&] { n[i]->setVal(val[i]); }); attrs(i, "after setting a value"); return; }
      default: sweep(k, "after the changes");
    }
  }
  void finish() {
    sweep(0, "after the history");
    sweep(1, "after the history");
    for (size_t i = 0; i < n.size(); i++) attrs((int)i, "after the history");
    quiet("destroying search trees", [&] { delete t[0]; delete t[1]; for (BSTNode* x : n) delete x; });
  }
};
template <class V>
static void play(const Plan& p) {
  Segs<V> s(p);
  Bst b(p);
  for (const Step& st : p.steps) if (st.op < B_INSERT) s.step(st); else b.step(st);
  s.finish();
  b.finish();
  SIM_CHECK(liveBlocks() == 0, "leak", "%zu blocks survive: %s", liveBlocks(), describeLive().c_str());
}
static void exec(const Plan& p) {
  switch (p.get("type")) {
    case 1: play<i64>(p); break;
    case 2: play<double>(p); break;
    default: play<int>(p);
  }
}
static Property PR = {"C17", gen, exec, nullptr};
namespace sim { Property* getProperty() { return &PR; } }
