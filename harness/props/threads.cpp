// C01: threads that work on objects of their own, or only read shared ones,
// get what they would get alone.
#include "tsim.h"
#include "menu.h"
using namespace tsim;
using namespace cuhksz;
struct Out : menu::Sink {
  void u(u64 v) override { emitU(v); }
  void d(double v) override { emitD(v == 0 ? 0.0 : v); }
  void s(const std::string& v) override { emitS(v); }
};
enum { SHARED = 100, S_JSON = SHARED, S_VECTOR, S_LIST, S_SET, S_MULTISET, S_MAP, S_MULTIMAP, S_STACKQUEUE, S_BIGNUM, S_FRACTION, S_MATRIX, S_POINT, S_COPIES, S_FUNCTIONS, S_COMPARE, S_END };
static const char* SN[] = {"reading shared JSON", "reading a shared vector", "reading a shared list", "reading a shared set", "reading a shared multiset", "reading a shared map",
                           "reading a shared multimap", "reading shared stack and queue", "reading shared big numbers", "reading shared fractions", "reading shared matrices", "reading shared points", "copying shared objects", "calculating from shared arguments", "comparing shared objects"};
struct World {
  JSONObject json;
  Vector<std::string> vec;
  List<std::string> lst;
  Set<std::string> set;
  MultiSet<std::string> mset;
  Map<std::string, int> map{{"a", 1}, {"b", 2}, {"ab", 3}, {"", 4}};
  MultiMap<std::string, int> mmap{{"a", 1}, {"a", 2}, {"b", 3}};
  Stack<std::string> st;
  Queue<std::string> q;
  BigNum<64> big[3];
  Fraction fr[3];
  Matrix<double> mat{2, 3};
  Point<2> pt[3];
  Trie trie;
  std::vector<i64> init{5, -3, 8, 0, 7};
  SegmentTree<i64> seg{init};
  Random gen{17};
  Vertex vx[2];
  Circle circle{Point<2>(1, 2), 3};
  Line line{Point<2>(0, 1), GVector<2>(2, 1)};
  std::string text, number = "-12345";
  std::vector<double> reals;
};
static World* W;
static void setup(const Plan& p) {
  Rng r((u64)p.get("world", 1));
  W = new World;
  World& w = *W;
  w.json = loadJSON("{\"a\": [1, 2.5, \"three\", null, {\"in\": true}], \"b\": \"text with \\\"quotes\\\"\", \"c\": -7}");
  int n = (int)r.range(1, 9);
  for (int i = 0; i < n; i++) {
    std::string x = menu::word(r, 20);
    w.vec.push(x); w.lst.push(x); w.set.insert(x.substr(0, 2)); w.mset.insert(x.substr(0, 2)); w.st.push(x); w.q.enqueue(x);
  }
  for (int i = 0; i < n; i++) { w.trie.insert("t" + menu::word(r, 4)); w.text += menu::word(r, 40, "ab%+ \\\"="); w.reals.push_back((double)r.range(-99, 99) / 4); }
  w.vx[0].addEdge(w.vx[1], 3); w.vx[0].addEdge(w.vx[1], 2);
  for (int i = 0; i < 3; i++) { w.big[i] = BigNum<64>((int64_t)r.range(-100000000, 100000000)); w.fr[i] = Fraction((int)r.range(-9, 9), (int)r.range(1, 9)); w.pt[i] = Point<2>((double)r.range(-9, 9), (double)r.range(-9, 9)); }
  for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) w.mat[i][j] = (double)r.range(-9, 9);
}
static void shared(int op, u64 seed, Out& o) {
  const World& w = *W;
  Rng r(seed);
  switch (op) {
    case S_JSON: {
      const JSONObject& a = w.json.at("a");
      o.s(w.json.dump()); o.u((u64)a.length()); o.u((u64)a.at(0).toInt()); o.d(a.at(1).toDouble()); o.s(a.at(2).toString()); o.u(a.at(3).isNull()); o.u(a.at(4).at("in").toBool());
      o.s((std::string)w.json.at("b")); o.u(w.json.hasKey("c") + 2 * w.json.hasKey("d")); o.u((u64)(i64)(int)w.json.at("c")); o.s(menu::text(w.json));
      for (auto& e : a.ArrayRange()) o.u((u64)e.getType());
      for (auto& kv : w.json.ObjectRange()) o.s(kv.first);
      JSONObject copy(w.json);
      copy["b"] = 1;
      o.s(copy.dump());
      break;
    }
    case S_VECTOR: {
      o.u((u64)w.vec.size()); o.u(w.vec.isEmpty()); o.s(w.vec.first()); o.s(w.vec.last()); o.s(w.vec.get(0)); o.s(w.vec[(int)r.below(w.vec.size())]);
      for (auto& x : w.vec) o.s(x);
      o.s(menu::text(w.vec));
      Vector<std::string> copy(w.vec);
      copy.push("x");
      o.u(copy == w.vec); o.u(copy > w.vec);
      break;
    }
    case S_LIST: {
      o.u((u64)w.lst.size()); o.u(w.lst.isEmpty()); o.s(w.lst.first()); o.s(w.lst.last()); o.s(w.lst[(int)r.below(w.lst.size())]);
      for (auto& x : w.lst) o.s(x);
      List<std::string> copy(w.lst);
      copy.sort();
      for (auto& x : copy) o.s(x);
      std::list<std::string> l = w.lst;
      o.u((u64)l.size());
      break;
    }
    case S_SET: {
      o.u((u64)w.set.size());
      for (auto& x : w.set) o.s(x);
      o.u(w.set.contains(menu::word(r, 2)));
      Set<std::string> copy(w.set);
      copy.insert("zzz");
      o.u(copy == w.set);
      break;
    }
    case S_MULTISET: {
      o.u((u64)w.mset.size());
      for (auto& x : w.mset) o.s(x);
      o.u((u64)w.mset.count(menu::word(r, 2))); o.u(w.mset.contains("a"));
      MultiSet<std::string> copy(w.mset);
      o.u(copy == w.mset);
      break;
    }
    case S_MAP: {
      o.u((u64)w.map.size()); o.u(w.map.isEmpty()); for (const char* k : {"ab", "a", "b", "", "a", "ab"}) o.u((u64)w.map.get(k));
      for (auto& e : w.map) { o.s(e.first); o.u((u64)e.second); }
      Map<std::string, int> copy(w.map);
      copy["new"] = 9;
      o.u((u64)copy.size());
      break;
    }
    case S_MULTIMAP: {
      o.u((u64)w.mmap.size()); o.u((u64)w.mmap.count("a")); o.u(w.mmap.isEmpty());
      for (auto& e : w.mmap) { o.s(e.first); o.u((u64)e.second); }
      break;
    }
    case S_STACKQUEUE: {
      o.u((u64)w.st.size()); o.s(w.st.top()); o.u((u64)w.q.size()); o.s(w.q.first()); o.s(w.q.last());
      Stack<std::string> a(w.st);
      Queue<std::string> b(w.q);
      while (!a.isEmpty()) { o.s(a.pop()); o.s(b.dequeue()); }
      break;
    }
    case S_BIGNUM:
      o.s(w.big[0].toString()); o.s(menu::text(w.big[1] + w.big[2])); o.s(menu::text(w.big[0] - w.big[1])); o.s(menu::text(w.big[0] * w.big[2]));
      o.u((u64)((w.big[0] < w.big[1]) + 2 * (w.big[0] == w.big[1]) + 4 * (w.big[2] >= w.big[1]))); o.s(menu::text(-w.big[2]));
      break;
    case S_FRACTION:
      o.s(menu::text(w.fr[0] + w.fr[1])); o.s(menu::text(w.fr[0] * w.fr[2])); o.s(menu::text(w.fr[1] - 3)); o.u((u64)((w.fr[0] < w.fr[1]) + 2 * (w.fr[0] == w.fr[2])));
      break;
    case S_MATRIX: {
      o.s(w.mat.toString()); o.s(menu::text(w.mat + w.mat)); o.u(w.mat == w.mat); o.d(w.mat[1][2]);
      Matrix<double> copy(w.mat);
      copy.reduce();
      o.s(copy.toString());
      break;
    }
    case S_COPIES: {
      Trie t(w.trie);
      t.insert("zz");
      o.u((u64)t.size()); o.u(t.contain("ta"));
      SegmentTree<i64> g(w.seg);
      g.addInterval(0, 2, 1);
      o.u((u64)g.querySum(0, 4));
      Random x(w.gen);
      o.u((u64)(i64)x.nextInt()); o.d(x.nextDouble());
      Map<std::string, int> m(w.map);
      MultiMap<std::string, int> k(w.mmap);
      Matrix<double> a(w.mat), b(w.mat);
      a += b;
      o.s(a.toString()); o.u((u64)(m.size() + k.size()));
      BigNum<64> d(w.big[0]);
      ++d;
      o.s(d.toString());
      Circle c(w.circle);
      Line l(w.line);
      o.d(c.getArea()); o.d(l.len());
      break;
    }
    case S_FUNCTIONS: {
      o.s(jsonEscape(w.text)); o.s(urlEncode(w.text)); o.s(urlDecode(w.text)); o.s(base64Encode(w.text)); o.s(base64Decode(w.text));
      o.u((u64)editDistance(w.text, w.number)); o.u((u64)(i64)kmpSearch(w.text, "aa")); o.u((u64)(i64)stringCast<int>(w.number)()); o.d(stringCast<double>(w.number)());
      o.d(mean(w.reals)); o.d(variance(w.reals)); o.d(sum(w.reals)); o.d(stddev(w.reals)); o.d(sum(w.reals.data(), (int)w.reals.size()));
      for (double x : mapAll(w.reals, [](double x) { return x * 0.5; })) o.d(x);
      for (double x : filterContainer(w.reals, [](double x) { return x > 0; })) o.d(x);
      o.d(disToLine(w.pt[0], w.line)); o.d(disToSegment(w.pt[1], w.line));
      break;
    }
    case S_COMPARE:
      o.u((u64)((w.vx[0] == w.vx[1]) + 2 * (w.vx[0] != w.vx[1]) + 4 * (w.vx[0] < w.vx[1])));
      { const Edge &a = *w.vx[0].outEdges.front(), &b = *w.vx[0].outEdges.back(); o.u((u64)((a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (b < a))); }
{ // the left side of a comparison is not constant: an own copy against the shared one
        Vector<std::string> a(w.vec); List<std::string> b(w.lst); Set<std::string> c(w.set); MultiSet<std::string> d(w.mset); Map<std::string, int> e(w.map); MultiMap<std::string, int> f(w.mmap);
        Stack<std::string> g(w.st); Queue<std::string> h(w.q);
        o.u((u64)((a == w.vec) + 2 * (a < w.vec) + 4 * (b <= w.lst) + 8 * (b != w.lst) + 16 * (c == w.set) + 32 * (d != w.mset) + 64 * (d == w.mset) + 128 * (e == w.map) + 256 * (e < w.map) + 512 * (f >= w.mmap) + 1024 * (f == w.mmap) + 2048 * (g == w.st) + 4096 * (h == w.q)));
      }
      break;
    default:
      o.d(w.pt[0] * w.pt[1]); o.s(menu::text(w.pt[1] + w.pt[2])); o.s(menu::text(2.0 * w.pt[1])); o.d(cross(w.pt[0], w.pt[2])); o.u((u64)((w.pt[0] == w.pt[1]) + 2 * (w.pt[0] < w.pt[2])));
  }
}
static void gen(Rng& r, Plan& p) {
  p.cfg["threads"] = r.range(2, 4);
  p.cfg["world"] = r.below(1 << 20);
  int n = (int)r.range(2, 8), mode = (int)r.below(4), one = (int)(r.chance(30) ? r.range(SHARED, S_END - 1) : r.below(menu::M_N));
  for (int k = 0; k < n; k++) {
    Step s;
    s.a[0] = r.below(p.cfg["threads"]);
    // mostly the same part of the library in all threads: that is what can interfere
    s.op = mode < 3 && r.chance(80) ? one : r.chance(30) ? (int)r.range(SHARED, S_END - 1) : (int)r.below(menu::M_N);
    s.a[1] = r.below(1 << 30);
    s.a[2] = r.chance(10) ? 2 : r.chance(4) ? r.range(3, 9) : 1;
    p.steps.push_back(s);
  }
}
static void body(const Plan& p, int tid) {
  Out o;
  for (size_t k = 0; k < p.steps.size(); k++) {
    const Step& s = p.steps[k];
    if (s.op >= 9000 || s.a[0] != tid) continue;
    bool own = s.op < menu::M_N, sh = s.op >= SHARED && s.op < S_END;
    if (!own && !sh) continue;
    emitS(std::string("\x01OP:") + (own ? menu::name(s.op) : SN[s.op - SHARED]) + "\x02");
    if (own) menu::run(s.op, (u64)s.a[1], (int)s.a[2], o);
    else shared(s.op, (u64)s.a[1], o);
  }
}
static Property PR = {"C01", gen, body, true, nullptr, setup};
namespace tsim { Property* getProperty() { return &PR; } }
