// Short scripts of valid calls over the whole library.  Each works on objects
// of its own, is a pure function of its two numbers, and reports everything it
// saw to a sink.  What the scripts must see is not written here: the checks
// compare executions of the same script in different surroundings.
#ifndef VERIF_MENU_H
#define VERIF_MENU_H
#include "sim.h"
#include <array>
#include <algorithm>
#include <list>
#include <queue>
#include <stack>
#include "algorithm.h"
#include "algorithm/Filter.h"
#include "algorithm/Map.h"
#include "algorithm/Zip.h"
#include "base64/base64_functions.h"
#include "containers.h"
#include "geometry/Circle.h"
#include "geometry/Line.h"
#include "geometry/Point.h"
#include "graph/BST.h"
#include "graph/Edge.h"
#include "graph/SegmentTree.h"
#include "graph/Tree.h"
#include "graph/Vertex.h"
#include "json.h"
#include "math_utils/BigNum.h"
#include "math_utils/Fraction.h"
#include "math_utils/Matrix.h"
#include "math_utils/math_functions.h"
#include "network/network_functions.h"
#include "random.h"
#include "string_utils/StringCast.h"
#include "string_utils/Trie.h"
namespace menu {
using sim::i64;
using sim::Rng;
using sim::u64;
struct Sink {
  virtual void u(u64 v) = 0;
  virtual void d(double v) = 0;
  virtual void s(const std::string& v) = 0;
  virtual ~Sink() {}
};
enum { M_EDIT, M_KMP, M_GCD, M_STAT, M_STATC, M_POW, M_COMB, M_BIGNUM, M_FRACTION, M_MATRIX, M_MATRIXD, M_POINT, M_LINE, M_SEGTREE, M_BST,
       M_TREE, M_GRAPH, M_CAST, M_BASE64, M_URL, M_JSONTEXT, M_JSONBUILD, M_ESCAPE, M_TRIE, M_VECTOR, M_LIST, M_STACKQUEUE, M_SETS, M_MAPS,
       M_FUNCTIONAL, M_RANDOM, M_DIST, M_PRINT, M_N };
inline const char* name(int op) {
  static const char* n[] = {"edit distance", "string search", "gcd and lcm", "array statistics", "container statistics", "powers", "combinatorics",
                            "big numbers", "fractions", "integer matrices", "real matrices", "points", "lines and circles", "segment tree", "search tree",
                            "rooted tree", "graph", "text to number", "base64", "URL coding", "JSON text", "JSON building", "JSON escaping", "trie", "vector", "list",
                            "stack and queue", "sets", "maps", "map, filter and zip", "seeded generator", "seeded distributions", "printing"};
  return op >= 0 && op < M_N ? n[op] : "?";
}
inline std::string word(Rng& r, int max, const char* alphabet = "ab") {
  std::string w;
  int n = (int)r.below(max + 1), k = (int)strlen(alphabet);
  for (int i = 0; i < n; i++) w += alphabet[r.below(k)];
  return w;
}
template <class T>
std::string text(const T& x) {
  std::ostringstream os;
  os.exceptions(std::ios::badbit);
  os << x;
  return os.str();
}
inline std::string bytes(Rng& r, int max) {
  std::string w;
  int n = (int)r.below(max + 1);
  for (int i = 0; i < n; i++) w += (char)r.below(256);
  return w;
}
inline void json(Sink& o, const cuhksz::JSONObject& x) {
  o.u((u64)x.getType());
  o.u((u64)(i64)x.length());
  o.u((u64)(i64)x.size());
  o.s(x.dump());
}
inline void run(int op, u64 seed, int size, Sink& o) {
  using namespace cuhksz;
  Rng r(sim::mix(seed, (u64)op * 977 + 5));
  int big = size < 1 ? 1 : size;
  switch (op) {
    case M_EDIT: {
      for (int k = 0; k < 2; k++) {
        std::string a = word(r, 6 * big), b = r.chance(20) ? a : word(r, 6 * big, "abc");
        o.u((u64)editDistance(a, b));
        o.u((u64)editDistance(b, a));
      }
      break;
    }
    case M_KMP: {
      for (int k = 0; k < 3; k++) {
        std::string base = word(r, 12 * big), pat = word(r, big > 6 ? (int)r.pick({4, 9, 30}) : 4);
        if (big > 6 && r.chance(50) && base.size() > 20) pat = base.substr((std::size_t)r.below((i64)base.size() - 18), (std::size_t)r.range(8, 18));
        o.u((u64)(i64)kmpSearch(base, pat));
        o.u((u64)(i64)kmpSearch(base, pat, (std::size_t)r.below((i64)base.size() + 1)));
      }
      break;
    }
    case M_GCD: {
      int a = (int)r.range(1, 5000), b = (int)r.range(1, 5000);
      o.u((u64)gcd(a, b));
      o.u((u64)gcd((i64)a * 6, b * 4));
      o.u((u64)lcm(a, b));
      o.u((u64)gcd(0, b));
      break;
    }
    case M_STAT: {
      std::vector<int> a;
      std::vector<double> b;
      int n = (int)r.range(2, 5 + 4 * big);
      for (int i = 0; i < n; i++) a.push_back((int)r.range(-100, 100)), b.push_back((double)r.range(-1000, 1000) / 8);
      o.u((u64)(i64)sum(a.data(), n)); o.d(sum(b.data(), n)); o.d(sum(a.data(), n, [](int x) { return x / 2.0; }));
      o.d(mean(a.data(), n)); o.d(mean(b.data(), n));
      o.d(variance(a.data(), n)); o.d(variance(b.data(), n)); o.d(stddev(a.data(), n)); o.d(stddev(b.data(), n));
      o.d(sample_variance(a.data(), n)); o.d(sample_variance(b.data(), n)); o.d(sample_stddev(a.data(), n)); o.d(sample_stddev(b.data(), n));
      break;
    }
    case M_STATC: {
      std::vector<double> b;
      Vector<int> v;
      int n = (int)r.range(2, 5 + 4 * big);
      for (int i = 0; i < n; i++) v.push((int)r.range(-100, 100)), b.push_back((double)r.range(-1000, 1000) / 8);
      o.u((u64)(i64)sum(v)); o.d(sum(b)); o.d(sum(v, [](int x) { return x * 0.25; }));
      o.d(mean(v)); o.d(mean(b)); o.d(variance(v)); o.d(variance(b)); o.d(stddev(v)); o.d(stddev(b));
      o.d(sample_variance(v)); o.d(sample_variance(b)); o.d(sample_stddev(v)); o.d(sample_stddev(b));
      break;
    }
    case M_POW: {
      o.u((u64)binaryPow(r.range(-9, 9), (int)r.below(15)));
      o.u((u64)genericBinaryPow((i64)r.range(-9, 9), (int)r.below(15)));
      Fraction f((int)r.range(-3, 3), (int)r.range(1, 3));
      Fraction g = genericBinaryPow(f, (int)r.range(0, 6));
      o.s(text(g));
      Matrix<double> m(2);
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m[i][j] = (int)r.range(-2, 2);
      o.s(genericBinaryPow(m, (int)r.range(1, 6)).toString());
      o.d(genericBinaryPow(1.5, (int)r.range(0, 12)));
      break;
    }
    case M_COMB: {
      int n = (int)r.range(0, 12);
      o.u((u64)factorial((i64)n));
      int k = (int)r.range(0, n);
      o.u((u64)permutation((i64)n, (i64)k));
      o.u((u64)binomial((i64)n * std::min(big, 6), (i64)k));
      break;
    }
    case M_BIGNUM: {
      typedef BigNum<96> B;
      B a(word(r, 1, "123456789") + "7" + word(r, std::min(8 * big, 80), "0123456789")), b((int64_t)r.range(-100000, 100000)), c;
      int n = (int)r.range(1, 8);
      for (int i = 0; i < n; i++) {
        switch (r.below(12)) {
          case 10: c = B((int64_t)r.range(-999, 999)) + (int64_t)r.range(-999, 999); a = B("-" + word(r, 3, "123456789") + "4") - (int64_t)r.range(-999, 999); break;
          case 11: b -= a; c += b; c = c - b; b = B((int64_t)r.range(-9, 9)) * B("-12"); break;
          case 0: c = a + b; break;
          case 1: c = a - b; break;
          case 2: if (text(a).size() + text(b).size() < 80) c = a * b; break;
          case 3: a = c; break;
          case 4: b = a; break;
          case 5: b = B((int64_t)r.range(-9, 9)); break;
          case 6: c = -a; break;
          case 7: switch (r.below(6)) {
            case 0: c += (int64_t)r.range(-500, 500); break;
            case 1: c -= (int64_t)r.range(-500, 500); break;
            case 2: c = B((int64_t)r.range(-5000, 5000)); c *= (int64_t)r.range(-500, 500); break;
            case 3: c = a + (int64_t)r.range(-500, 500); break;
            case 4: c = b - (int64_t)r.range(-500, 500); break;
            default: c = B((int64_t)r.range(-5000, 5000)) * (int64_t)r.range(-50, 50); o.u((u64)(i64)c[0]);
          } break;
          case 8: ++b; break;
          default: { B t(b); b -= t; b = t; --b; }
        }
        o.s(c.toString()); o.s(a.toString()); o.s(text(b));
        o.u((u64)((a < b) + 2 * (a <= b) + 4 * (a > c) + 8 * (b >= c) + 16 * (a == c) + 32 * (a != b)));
      }
      break;
    }
    case M_FRACTION: {
      Fraction a((int)r.range(-9, 9), (int)r.range(1, 9)), b((int)r.range(1, 9), (int)r.range(-9, -1)), c = a + b;
      c = c * Fraction((int)r.range(1, 5)); c = c - a; c = c / b;
      o.s(text(c));
      c += a; c -= b; c *= a;
      Fraction e((int)r.range(-9, 9)), z;
      e /= b;
      o.s(text(e)); o.s(text(z)); o.s(text(4 - a)); o.s(text(5 / b)); z = a; z += 1; o.s(text(z - 2)); o.s(text(z * 3));
      o.u((u64)(i64)c.getNumerator()); o.u((u64)(i64)c.getDenominator());
      o.s(text(2 + a)); o.s(text(3 * b));
      o.u((u64)((a < b) + 2 * (a <= b) + 4 * (a > c) + 8 * (b >= c) + 16 * (a == c) + 32 * (a != b)));
      break;
    }
    case M_MATRIX: {
      int n = (int)r.range(1, 2 + big), m = (int)r.range(1, 2 + big), k = (int)r.range(1, 2 + big);
      Matrix<double> a(n, m), b(n, m), c(m, k);
      for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a[i][j] = (int)r.range(-9, 9), b[i][j] = (int)r.range(-9, 9);
      for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) c[i][j] = (int)r.range(-9, 9);
      Matrix<double> d = a + b, e = a - b, f = a * c;
      o.s(d.toString()); o.s(e.toString()); o.s(f.toString());
      d += a; e -= b; d = e; e = e;
      o.s(text(d));
      f = d; f *= c;
      o.s(f.toString());
      std::vector<std::vector<int> > ini(2, std::vector<int>(3, 4));
      ini[1][2] = (int)r.range(-9, 9);
      Matrix<double> g(ini);
      o.s(g.toString());
      o.u((u64)((a == b) + 2 * (a != d) + 4 * (g == f)));
      break;
    }
    case M_MATRIXD: {
      int n = (int)r.range(1, 2 + big), m = (int)r.range(1, 3 + big);
      Matrix<double> a(n, m);
      for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a[i][j] = (double)r.range(-9, 9);
      Matrix<double> b(a);
      b.reduce();
      o.s(b.toString());
      a = b;
      o.s(text(a));
      break;
    }
    case M_POINT: {
      auto c = [&] { return (double)r.range(-80, 80) / 4; };
      Point<2> p(c(), c()), q(c(), c());
      Point<3> u(c(), c(), c()), v(c(), c(), c());
      Point<2> z = p + q - p * 2.0; z = 0.5 * z; z = z / 4.0; z += p; z -= q; z *= 3; z /= 2;
      o.s(text(z)); o.d(p * q); o.d(dot(u, v)); o.d(cross(p, q)); o.d(u.len());
      Point<3> w = u - v; w = w + u; w[1] = 7;
      o.s(text(w));
      if (w.len() > 0.001) { w.normalize(); o.d(w[0]); o.d(w[2]); }
      o.u((u64)((p == q) + 2 * (p != q) + 4 * (p < q) + 8 * (p <= q) + 16 * (u > v) + 32 * (u >= v)));
      o.u((u64)((p < p) + 2 * (p <= p) + 4 * (u > u) + 8 * (u >= u) + 16 * (v == v) + 32 * (v != v)));
      Point<1> d1, e1(c());
      Point<2> d2, e2(p);
      Point<3> d3;
      Point<5> d5;
      o.s(text(d1)); o.s(text(d2)); o.s(text(d3)); o.s(text(d5));
      for (int i = 0; i < 5; i++) o.d(d5[i]);
      d5[(int)r.below(5)] = c();
      Point<5> f5(d5), g5 = f5 + d5, h5;
      h5 = g5;
      h5 -= f5;
      o.s(text(h5)); o.d(h5 * g5); o.d((d1 + e1)[0]); o.d(e1.len()); o.s(text(e2 - d2)); o.u(d3 == Point<3>());
      break;
    }
    case M_LINE: {
      auto c = [&] { return (double)r.range(-80, 80) / 4; };
      Line a(Point<2>(c(), c()), GVector<2>(1 + r.below(9), c())), b(Point<2>(c(), c()), GVector<2>(c(), 1000 + r.below(9)));
      Point<2> x = getIntersection(a, b), p(c(), c());
      o.d(x[0]); o.d(x[1]); o.d(disToLine(p, a)); o.d(disToSegment(p, b)); o.d(a.len());
      Line l(a); l = b;
      Line sh(Point<2>(c(), c()), GVector<2>(1, (double)r.range(-1, 1)));
      for (int i = 0; i < 3; i++) o.d(disToSegment(Point<2>(c() + 4 * c(), c()), sh));
      o.d(disToSegment(p, l));
      Circle k(p, 1 + r.below(9)), k1((double)3), k2(p), k3;
      Point<2> y = k.getPoint(c());
      o.d(y[0]); o.d(y[1]); o.d(k.getArea() + k1.getArea() + k2.getPerimeter() + k3.getPerimeter());
      break;
    }
    case M_SEGTREE: {
      int n = (int)r.range(1, 4 + 6 * big);
      std::vector<i64> v;
      for (int i = 0; i < n; i++) v.push_back(r.range(-20, 20));
      SegmentTree<i64> t(v);
      int m = (int)r.range(2, 6 + 6 * big);
      for (int i = 0; i < m; i++) {
        int a = (int)r.below(n), b = (int)r.range(a, n - 1);
        switch (r.below(5)) {
          case 0: t.addInterval(a, b, r.range(-5, 5)); break;
          case 1: t.mulInterval(a, b, i < 20 ? r.range(-2, 3) : r.range(-1, 1)); break;
          case 2: o.u((u64)t.queryMax(a, b)); break;
          case 3: o.u((u64)t.queryMin(a, b)); break;
          default: o.u((u64)t.querySum(a, b));
        }
      }
      o.u((u64)t.getSize());
      break;
    }
    case M_BST: {
      std::vector<std::unique_ptr<BSTNode>> n;
      BST t;
      int m = (int)r.range(1, 4 + 4 * big);
      std::set<int> keys;
      for (int i = 0; i < m; i++) {
        int k = (int)r.range(-50, 50);
        if (!keys.insert(k).second) continue;
        n.push_back(std::unique_ptr<BSTNode>(new BSTNode(k, i)));
        t.insert(n.back().get());
      }
      for (auto& x : n) if (r.chance(30)) { t.erase(x.get()); if (r.chance(40)) t.insert(x.get()); }
      for (int i = 0; i < 8; i++) {
        BSTNode* x = t.find((int)r.range(-50, 50));
        o.u(x ? (u64)x->getVal() : 999);
        if (x) {
          BSTNode *a = t.pre(x), *b = t.suf(x);
          o.u(a ? (u64)(i64)a->getRank() : 999);
          o.u(b ? (u64)(i64)b->getRank() : 999);
        }
      }
      break;
    }
    case M_TREE: {
      std::vector<std::unique_ptr<Node>> n;
      Tree t;
      o.u(t.getRoot() == nullptr);
      int m = (int)r.range(1, 4 + 8 * big);
      for (int i = 0; i < m; i++) n.push_back(std::unique_ptr<Node>(new Node(i, i * 3)));
      o.u((u64)(i64)n[0]->getHeight());
      t.setRoot(n[0].get());
      bool path = r.chance(40);
      for (int i = 1; i < m; i++) t.addNode(n[i].get(), n[path ? i - 1 - (i > 5 ? r.below(3) : 0) : r.below(i)].get());
      for (int i = 0; i < 8; i++) {
        Node *a = n[r.below(m)].get(), *b = n[r.below(m)].get();
        o.u((u64)t.LCA(a, b)->getID()); o.u((u64)t.getDistance(a, b)); o.u((u64)a->getAncestor((int)r.below(a->getHeight() + 1))->getID()); o.u((u64)a->getDegree());
        for (Node* s : b->getSon()) o.u((u64)s->getVal());
      }
      break;
    }
    case M_GRAPH: {
      std::list<Vertex> v;
      int n = (int)r.range(1, 3 + 2 * big);
      for (int i = 0; i < n; i++) v.emplace_back((int)r.range(-9, 9));
      std::vector<Vertex*> w;
      for (auto& x : v) w.push_back(&x);
      int m = (int)r.range(0, 4 + 3 * big);
      for (int i = 0; i < m; i++) w[r.below(n)]->addEdge(*w[r.below(n)], (int)r.range(-99, 99));
      for (int i = 0; i < n; i++) {
        o.u((u64)w[i]->getInDegree()); o.u((u64)w[i]->getOutDegree());
        for (Edge* e : w[i]->outEdges) { o.u((u64)(i64)e->getVal()); o.u(e->getFrom() == w[i]); o.u((u64)(std::find(w.begin(), w.end(), e->getTo()) - w.begin())); }
        for (Edge* e : w[i]->inEdges) { o.u((u64)(i64)e->getVal()); o.u(e->getTo() == w[i]); if (r.chance(50)) e->setInvalid(); o.u(e->isValid()); }
        o.u((u64)((*w[0] < *w[i]) + 2 * (*w[0] == *w[i]) + 4 * (*w[0] != *w[i])));
      }
      Vertex p, q((int)r.range(-9, 9)), t(q);
      o.u((u64)((p == q) + 2 * (q != t) + 4 * (p < t) + 8 * p.isValid()));
      if (r.chance(50)) q.setInvalid();
      p.setVal((int)r.range(-9, 9));
      t = q; q = p;
      o.u((u64)(i64)p.getVal()); o.u((u64)(i64)q.getVal()); o.u((u64)(i64)t.getVal()); o.u((u64)(q.isValid() + 2 * t.isValid())); o.u((u64)t.getInDegree());
      Edge e(w[0], &p, (int)r.range(-9, 9)), f(e), g(&q, &t);
      o.u((u64)((e == f) + 2 * (e != f) + 4 * (e < g) + 8 * (g == g)));
      if (r.chance(50)) e.setInvalid();
      e.setVal((int)r.range(-9, 9));
      g = e;
      o.u((u64)((g.getFrom() == w[0]) + 2 * (g.getTo() == &p) + 4 * g.isValid() + 8 * f.isValid() + 16 * (f < g))); o.u((u64)(i64)g.getVal()); o.u((u64)(i64)f.getVal());
      break;
    }
    case M_CAST: {
      std::string t = std::to_string(r.range(-100000, 100000)), f = t + "." + word(r, 4, "0123456789") + "5", g = word(r, 5 + 20 * (big - 1), "12x. -"), e;
      o.u((u64)(i64)(int)stringCast<int>(t)); o.d(stringCast<double>(f)()); o.u((u64)(i64)stringCast<i64>(t)());
      o.u((u64)(i64)(int)stringCast<int>(g)); o.d(stringCast<double>(g)()); o.u((u64)(i64)(int)stringCast<int>(e)); o.d(stringCast<double>(e)());
      break;
    }
    case M_BASE64: {
      for (int k = 0; k < 2; k++) {
        std::string x = bytes(r, 10 * big), y = base64Encode(x);
        o.s(y); o.s(base64Decode(y)); o.s(base64Decode(word(r, 9 * big, "QUJDabcd01+/=-")));
        o.s(base64Encode(x, (int)r.below((i64)x.size() * 2 + 8))); o.s(base64Encode(x, -2));
      }
      break;
    }
    case M_URL: {
      for (int k = 0; k < 2; k++) {
        std::string x = bytes(r, 10 * big), y = urlEncode(x);
        o.s(y); o.s(urlDecode(y)); o.s(urlDecode(word(r, 9 * big, "a%b20+Ff/z")));
      }
      break;
    }
    case M_JSONTEXT: {
      std::function<std::string(int)> gen = [&](int depth) -> std::string {
        switch (r.below(depth > 2 ? 5 : 7)) {
          case 0: return std::to_string(r.range(-1000, 1000)) + (r.chance(15) ? r.pick({0, 1}) ? "e2" : "E+1" : "");
          case 1: return std::to_string(r.range(-1000, 1000)) + ".25" + (r.chance(20) ? r.pick({0, 1}) ? "e-3" : "E2" : "");
          case 2: return r.chance(50) ? "true" : "false";
          case 3: return "null";
          case 4: return "\"" + word(r, 3 + 9 * big, "abc xyz") + (r.chance(30) ? "\\n\\\"" : r.chance(20) ? "\\\\\\/\\b\\f\\r\\t\\u00e9\\u4F60" : "") + "\"";
          case 5: { std::string t = "["; int n = (int)r.below(2 + (depth ? std::min(big, 6) : big)); for (int i = 0; i < n; i++) t += (i ? ", " : "") + gen(depth + 1); return t + "]"; }
          default: { std::string t = "{"; int n = (int)r.below(2 + (depth ? std::min(big, 6) : big)); for (int i = 0; i < n; i++) t += std::string(i ? "," : "") + "\"" + word(r, 6) + "\" : " + gen(depth + 1); return t + "}"; }
        }
      };
      std::string t = gen(0);
      JSONObject x = loadJSON(t), y(x);
      json(o, x);
      json(o, loadJSON(x.dump()));
      JSONObject z = JSONObject::Array();
      z.append(x);
      z.append(y);
      json(o, z);
      break;
    }
    case M_JSONBUILD: {
      JSONObject x, y = JSONObject::Array(1, "two", true, 2.5), z({"k", 7, "l", nullptr, "m", "text"});
      int n = (int)r.range(1, 4 + 2 * big);
      for (int i = 0; i < n; i++) {
        std::string k = word(r, 3);
        switch (r.below(8)) {
          case 0: x[k] = (int)r.range(-99, 99); break;
          case 1: x[k] = word(r, 4 + 10 * big, "pqr"); break;
          case 2: x[k] = r.chance(50); break;
          case 3: x[k] = (double)r.range(-99, 99) / 4; break;
          case 4: x[k] = y; break;
          case 5: x[k]["in"] = z; break;
          case 6: y.append((int)r.below(9)); break;
          default: y[(int)r.below(6)] = word(r, 5);
        }
        o.u(x.hasKey("a") + 2 * x.hasKey("ab"));
      }
      json(o, x); json(o, y); json(o, z);
      for (auto& kv : z.ObjectRange()) { o.s(kv.first); o.u((u64)kv.second.getType()); }
      for (auto& e : y.ArrayRange()) { o.u((u64)(i64)e.toInt()); o.d(e.toDouble()); o.s(e.toString()); o.u(e.toBool()); }
      const JSONObject& cz = z;
      o.u((u64)(i64)cz.at("k").toInt()); json(o, cz.at("l")); json(o, z.at("m"));
      const JSONObject a = JSONObject::Array(2.25, 3, "s", true, nullptr), ob = JSONObject::Object();
      JSONObject nul(a.at(4)), copy;
      json(o, nul); json(o, a.at(0u)); json(o, copy.at("new")); json(o, copy.at(2u)); json(o, ob);
      copy = a;
      copy.at(1u) = 5;
      o.d(copy.at(0u).toFloat()); o.d((double)copy.at(0u)); o.d((float)copy.at(0u)); o.u((u64)(i64)(int)copy.at(1u)); o.u((bool)copy.at(3u)); o.s((std::string)copy.at(2u));
      int seen = 0;
      for (auto& e : copy.at(1u).ArrayRange()) seen += e.toInt();
      for (auto& e : copy.at(1u).ObjectRange()) seen += e.second.toInt();
      for (auto& e : a.at(1u).ArrayRange()) seen += e.toInt();
      for (auto& e : a.ObjectRange()) seen += e.second.toInt();
      o.u((u64)seen);
      JSONObject w(std::move(x));
      json(o, w);
      o.s(text(w));
      break;
    }
    case M_ESCAPE: o.s(jsonEscape(word(r, 20 * big, "ab\"\\/\b\f\n\r\t"))); break;
    case M_TRIE: {
      Trie t;
      int n = (int)r.range(1, 4 + 4 * big);
      for (int i = 0; i < n; i++) {
        std::string w = word(r, 5, "abc");
        if (r.chance(75)) t.insert(w); else t.remove(w);
        o.u((u64)t.size());
        o.u(t.contain(word(r, 5, "abc")));
      }
      std::vector<std::string> all;
      for (auto w : t) all.push_back(w);
      std::sort(all.begin(), all.end());
      for (auto& w : all) o.s(w);
      Trie u(t), x;
      u.insert("cab"); u.remove("a"); t.remove("b");
      x.insert("zzz");
      x = u;
      o.u((u64)t.size()); o.u((u64)u.size()); o.u((u64)(u.contain("a") + 2 * t.contain("cab") + 4 * x.contain("cab") + 8 * x.contain("zzz")));
      Trie::iterator i = u.begin(), j = u.begin();
      o.u((u64)((i == j) + 2 * (i != u.end()) + 4 * (u.end() == u.end()) + 8 * (i == x.begin())));
      ++j;
      o.u((u64)((i == j) + 2 * (j != u.end())));
      break;
    }
    case M_VECTOR: {
      Vector<std::string> v{"one", "two"};
      Vector<int> w(3, (int)r.below(9));
      int n = (int)r.range(1, 4 + 4 * big);
      for (int i = 0; i < n; i++) {
        std::string x = word(r, 4 + 12 * big);
        switch (r.below(6)) {
          case 0: v.push(x); break;
          case 1: v.insert((int)r.below(v.size() + 1), x); break;
          case 2: if (v.size()) v.erase((int)r.below(v.size())); break;
          case 3: if (v.size()) v.set((int)r.below(v.size()), x); break;
          case 4: if (v.size()) o.s(v.pop()); break;
          default: if (v.size()) o.s(v[(int)r.below(v.size())] + v.first() + v.last() + v.get(0));
        }
        w.push((int)r.below(99));
      }
      o.u((u64)v.size());
      for (auto& x : v) o.s(x);
      o.s(text(v)); o.s(text(w));
      Vector<std::string> y(v);
      o.u((u64)((v == y) + 2 * (v != y) + 4 * (v < y) + 8 * (v <= y)));
      y.push("zz");
      o.u((u64)((v > y) + 2 * (v >= y)));
      std::vector<std::string> z = y.toStlVector();
      o.u((u64)z.size());
      y = v;
      y.clear();
      o.u(y.isEmpty());
      std::istringstream is(text(w));
      is.exceptions(std::ios::badbit);
      Vector<int> back;
      is >> back;
      o.u(back == w);
      std::istringstream none(r.chance(50) ? "{}" : " { } ");
      none.exceptions(std::ios::badbit);
      none >> back;
      o.u((u64)back.size());
      break;
    }
    case M_LIST: {
      List<std::string> v{"x", "a long element that does not fit inside", "m"};
      List<std::string> u;
      int n = (int)r.range(1, 4 + 4 * big);
      for (int i = 0; i < n; i++) {
        std::string x = word(r, 4 + 12 * big);
        switch (r.below(8)) {
          case 0: v.push(x); break;
          case 1: v.push_front(x); break;
          case 2: v.insert((int)r.below(v.size() + 1), x); break;
          case 3: if (v.size()) v.erase((int)r.below(v.size())); break;
          case 4: if (v.size()) o.s(r.chance(50) ? v.pop() : v.pop_front()); break;
          case 5: v.reverse(); break;
          case 6: u.push(x); break;
          default: if (v.size()) o.s(v[(int)r.below(v.size())] + v.first() + v.last());
        }
      }
      v.sort(); u.sort();
      v.merge(u);
      o.u((u64)v.size()); o.u(u.isEmpty());
      for (auto& x : v) o.s(x);
      List<std::string> y;
      y = v;
      o.u((u64)((v == y) + 2 * (v != y) + 4 * (v < y) + 8 * (v <= y)));
      y.clear();
      break;
    }
    case M_STACKQUEUE: {
      Stack<std::string> s;
      Queue<std::string> q;
      int n = (int)r.range(1, 6 + 6 * big);
      for (int i = 0; i < n; i++) {
        std::string x = word(r, 4 + 12 * big);
        switch (r.below(5)) {
          case 0: case 1: s.push(x); q.enqueue(x); break;
          case 2: if (!s.isEmpty()) { o.s(s.pop()); o.s(q.dequeue()); } break;
          case 3: if (!s.isEmpty()) { o.s(s.top()); o.s(q.first() + q.last()); } break;
          default: { Stack<std::string> t(s); Queue<std::string> p(q); t.push(x); p.enqueue(x); o.u((u64)((s == t) + 2 * (s < t) + 4 * (q == p) + 8 * (q < p))); s = t; q = p; }
        }
        o.u((u64)s.size()); o.u((u64)q.size());
      }
      std::stack<std::string> a = s.toStlStack();
      std::queue<std::string> b = q.toStlQueue();
      o.u((u64)(a.size() + b.size()));
      s.clear(); q.clear();
      break;
    }
    case M_SETS: {
      Set<std::string> s;
      MultiSet<std::string> m;
      int n = (int)r.range(1, 4 + 6 * big);
      for (int i = 0; i < n; i++) {
        std::string x = word(r, 3);
        switch (r.below(5)) {
          case 0: case 1: case 2: s.insert(x); m.insert(x); break;
          case 3: if (s.contains(x)) s.erase(x); if (m.contains(x)) m.erase(x); break;
          default: o.u((u64)(s.contains(x) + 2 * m.contains(x) + 4 * m.count(x)));
        }
      }
      o.u((u64)s.size()); o.u((u64)m.size());
      for (auto& x : s) o.s(x);
      for (auto& x : m) o.s(x);
      Set<std::string> t; t = s;
      MultiSet<std::string> k; k = m;
      k.insert("q");
      o.u((u64)((s == t) + 2 * (m == k) + 4 * (m < k)));
      break;
    }
    case M_MAPS: {
      Map<std::string, std::string> m{{"a", "1"}};
      MultiMap<std::string, int> k{{"a", 1}, {"a", 2}, {"b", 3}, {"", 4}};
      int n = (int)r.range(1, 4 + 5 * big);
      for (int i = 0; i < n; i++) {
        std::string x = word(r, 2), y = word(r, 4 + 12 * big);
        switch (r.below(6)) {
          case 0: m.set(x, y); break;
          case 1: m[x] = y; break;
          case 2: if (m.contains(x)) o.s(m.get(x)); break;
          case 3: if (m.contains(x)) m.erase(x); break;
          case 4: o.u((u64)k.count(x)); break;
          default: { Set<int> f = k.find(x); for (int v : f) o.u((u64)v); std::string e = word(r, 1); if (k.count(e)) k.erase(e); }
        }
        o.u((u64)m.size()); o.u((u64)k.size());
      }
      for (auto& e : m) { o.s(e.first); o.s(e.second); }
      for (auto& e : k) { o.s(e.first); o.u((u64)e.second); }
      Map<std::string, std::string> m2; m2 = m;
      MultiMap<std::string, int> k2; k2 = k;
      o.u((u64)((m == m2) + 2 * (k == k2) + 4 * (m < m2) + 8 * (k <= k2)));
      break;
    }
    case M_FUNCTIONAL: {
      std::vector<int> a, b;
      Vector<std::string> c;
      int n = (int)r.range(0, 4 + 4 * big);
      for (int i = 0; i < n; i++) { a.push_back((int)r.range(-50, 50)); if (r.chance(80)) b.push_back(i); c.push(word(r, 4 + 12 * big)); }
      for (double x : mapAll(a, [](int x) { return x * 0.5; })) o.d(x);
      for (auto& x : mapAll(c, [](std::string& x) { return x + "!"; })) o.s(x);
      for (int x : filterContainer(a, [](int x) { return x % 2 == 0; })) o.u((u64)(i64)x);
      for (auto& x : filterContainer(c, [](const std::string& x) { return x.size() > 2; })) o.s(x);
      for (auto& x : zip(a, b, a)) for (int y : x) o.u((u64)(i64)y);
      break;
    }
    case M_RANDOM: {
      Random g((int)r.below(1000)), h((int)r.below(1000));
      int n = (int)r.range(1, 8 + 4 * big);
      for (int i = 0; i < n; i++) {
        Random& x = r.chance(50) ? g : h;
        switch (r.below(8)) {
          case 0: o.u((u64)(i64)x.nextInt()); break;
          case 1: o.u((u64)(i64)x.nextInt(1 + (int)r.below(1000))); break;
          case 2: o.u((u64)(i64)x.nextInt(-5, (int)r.below(1000))); break;
          case 3: o.d(x.nextDouble()); break;
          case 4: o.d(x.nextDouble(3.5)); break;
          case 5: o.d(x.nextDouble(-2, 7)); break;
          case 6: o.u(x.nextBool()); break;
          default: x.setSeed((int)r.below(100));
        }
      }
      break;
    }
    case M_DIST: {
      Random g((int)r.below(1000));
      int n = (int)r.range(1, 3 + 2 * big);
      double p = (1 + r.below(9)) / 10.0, k = (1 + r.below(40)) / 4.0;
      switch (r.below(14)) {
        case 12: { BinomialDistribution d(g, (int)r.range(0, 60), r.chance(50) ? 0 : 1); for (int i = 0; i < n; i++) o.u((u64)d.next()); break; }
        case 13: { NormalDistribution d(k, p); d.setRandomGenerator(g); BernoulliDistribution e(p); e.setRandomGenerator(g); for (int i = 0; i < n; i++) { o.d(d.next()); o.u(e.next()); } break; }
        case 0: { BernoulliDistribution d(g, p); for (int i = 0; i < n; i++) o.u(d.next()); break; }
        case 1: { BinomialDistribution d(g, (int)r.range(0, 25), p); for (int i = 0; i < n; i++) o.u((u64)d.next()); break; }
        case 2: { ChiSquaredDistribution d(g, k); for (int i = 0; i < n; i++) o.d(d.next()); break; }
        case 3: { ExponentialDistribution d(g, k); for (int i = 0; i < n; i++) o.d(d.next()); break; }
        case 4: { GammaDistribution d(g, k, p); for (int i = 0; i < n; i++) o.d(d.next()); break; }
        case 5: { GeometricDistribution d(g, p); for (int i = 0; i < n; i++) o.u((u64)d.next()); break; }
        case 6: { NegativeBinomialDistribution d(g, r.chance(15) ? 400 : (int)r.range(1, 6), p); for (int i = 0; i < n; i++) o.u((u64)d.next()); break; }
        case 7: { NormalDistribution d(g, -k, p), e(g); for (int i = 0; i < n; i++) { o.d(d.next()); o.d(e.next()); } break; }
        case 8: { PoissonDistribution d(g, k); for (int i = 0; i < n; i++) o.u((u64)d.next()); break; }
        case 9: { StudentTDistribution d(g, k); for (int i = 0; i < n; i++) o.d(d.next()); break; }
        case 10: { UniformDistribution d(g, -k, p); for (int i = 0; i < n; i++) o.d(d.next()); break; }
        default: { UniformIntDistribution d(g, -5, 1 + (int)r.below(100)); for (int i = 0; i < n; i++) o.u((u64)(i64)d.next()); }
      }
      o.u((u64)(i64)g.nextInt());
      break;
    }
    default: {   // M_PRINT
      Vector<double> v;
      Vector<std::string> w;
      int n = (int)r.below(4 * big);
      for (int i = 0; i < n; i++) { v.push((double)r.range(-999, 999) / 8); w.push(word(r, 4 + 12 * big)); }
      o.s(text(v)); o.s(text(w));
      o.s(text(Point<2>((double)r.below(9), 0.5))); o.s(text(Fraction((int)r.below(9), 3))); o.s(text(BigNum<40>((int64_t)r.range(-99999, 99999))));
      Matrix<double> m(2, 1 + (int)r.below(3));
      o.s(text(m));
      break;
    }
  }
}
}  // namespace menu
#endif
