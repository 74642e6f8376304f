// C02: the process-wide random functions are one generator.
// C03: vertices and edges have identities of their own.
#include "tsim.h"
#include <list>
#include <unordered_set>
#include "random/random_functions.h"
#include "random/Random.h"
#include "random/NormalDistribution.h"
#include "random/UniformIntDistribution.h"
#include "graph/Vertex.h"
#include "graph/Edge.h"
using namespace tsim;
static u64 bitsOf(double d) { u64 u; memcpy(&u, &d, 8); return u; }

#ifdef VERIF_PROP_C02
enum { R_INT, R_INTMAX, R_INTRANGE, R_DBL, R_DBLMAX, R_DBLRANGE, R_BOOL, R_N, R_OWN = R_N, R_BURST };
static u64 draw(const Step& s) {
  int m = (int)(1 + s.a[1] % 1000000);
  switch (s.op) {
    case R_INT: return (u64)(i64)cuhksz::randomInt();
    case R_INTMAX: return (u64)(i64)cuhksz::randomInt(m);
    case R_INTRANGE: return (u64)(i64)cuhksz::randomInt(-m, m);
    case R_DBL: return bitsOf(cuhksz::randomDouble());
    case R_DBLMAX: return bitsOf(cuhksz::randomDouble((double)m));
    case R_DBLRANGE: return bitsOf(cuhksz::randomDouble(-(double)m, (double)m / 3));
    default: return (u64)cuhksz::randomBool();
  }
}
static u64 model(cuhksz::Random& r, const Step& s) {
  int m = (int)(1 + s.a[1] % 1000000);
  switch (s.op) {
    case R_INT: return (u64)(i64)r.nextInt();
    case R_INTMAX: return (u64)(i64)r.nextInt(m);
    case R_INTRANGE: return (u64)(i64)r.nextInt(-m, m);
    case R_DBL: return bitsOf(r.nextDouble());
    case R_DBLMAX: return bitsOf(r.nextDouble((double)m));
    case R_DBLRANGE: return bitsOf(r.nextDouble(-(double)m, (double)m / 3));
    default: return (u64)r.nextBool();
  }
}
// very many calls by one thread alone: one event with a digest of the values
template <typename F> static u64 burst(const Step& s, F one) {
  u64 h = 1469598103934665603ull;
  Step t = s;
  for (i64 i = 0; i < s.a[2] % 100000; i++) {
    t.op = s.a[3] % 8 == 7 ? (int)(i % R_N) : (int)(s.a[3] % R_N);
    t.a[1] = s.a[1] + i;
    h = (h ^ one(t)) * 1099511628211ull;
  }
  return h;
}
static void gen(Rng& r, Plan& p) {
  p.cfg["threads"] = r.range(2, 4);
  p.cfg["clock"] = r.chance(10) ? r.pick<i64>({0, 1, 2147483646, 2147483647}) : 1000000000 + r.below(1000000000);
  int n = (int)r.range(2, r.chance(10) ? 200 : 14);
  bool one = r.chance(30);   // everybody calls the same function
  int only = (int)r.below(R_N);
  for (int k = 0; k < n; k++) {
    Step s;
    s.op = r.chance(12) ? R_OWN : one ? only : (int)r.below(R_N);
    s.a[0] = r.below(p.cfg["threads"]);
    s.a[1] = r.below(1 << 30);
    p.steps.push_back(s);
  }
  if (r.below(400) == 0) {
    p.cfg["threads"] = 1;
    for (auto& s : p.steps) {
      s.a[0] = 0;
      if (!r.chance(25)) continue;
      s.op = R_BURST;
      s.a[2] = r.pick<i64>({300, 1100, 5000, 33000, 66000});
      s.a[3] = r.below(1000);
      break;
    }
  }
}
static void body(const Plan& p, int tid) {
  for (size_t k = 0; k < p.steps.size(); k++) {
    const Step& s = p.steps[k];
    if (s.op > R_BURST || s.a[0] != tid || (s.op == R_BURST && p.cfg.at("threads") != 1)) continue;
    if (s.op == R_OWN) {       // generators of its own do not matter to the shared one
      ownClock(true);
      switch (s.a[1] % 4) {
        case 0: { cuhksz::Random r; r.nextInt(); break; }
        case 1: { cuhksz::Random r((int)s.a[1]); r.nextInt(); r.setSeed(5); r.nextDouble(); break; }
        case 2: { cuhksz::NormalDistribution d(0, 1); d.next(); break; }
        default: { cuhksz::Random r; cuhksz::UniformIntDistribution d(r, 10); d.next(); cuhksz::Random q(r); q.nextBool(); break; }
      }
      ownClock(false);
      continue;
    }
    Event e = {tid, (int)k, now(), 0, {0, 0, 0, 0}};
    e.out[0] = s.op == R_BURST ? burst(s, draw) : draw(s);
    if (s.op == R_BURST) tsim::probe("many_draws");
    e.resp = now();
    event(e);
  }
}
// Wing & Gong search for an order of the calls that one generator explains.
struct Lin {
  const Plan& p;
  std::vector<std::vector<Event>> th;
  std::set<std::vector<int>> dead;
  size_t done = 0, total = 0;
  explicit Lin(const Plan& pl) : p(pl) {}
  bool go(std::vector<int>& at, cuhksz::Random& r) {
    if (done == total) return true;
    if (dead.count(at)) return false;
    u64 minResp = ~0ull;
    for (size_t t = 0; t < th.size(); t++)
      if (at[t] < (int)th[t].size()) minResp = std::min(minResp, th[t][at[t]].resp);
    for (size_t t = 0; t < th.size(); t++) {
      if (at[t] >= (int)th[t].size()) continue;
      const Event& e = th[t][at[t]];
      if (e.inv > minResp) continue;
      cuhksz::Random q = r;
      const Step& s = p.steps[e.step];
      if ((s.op == R_BURST ? burst(s, [&](const Step& t) { return model(q, t); }) : model(q, s)) != e.out[0]) continue;
      at[t]++;
      done++;
      if (go(at, q)) return true;
      done--;
      at[t]--;
    }
    dead.insert(at);
    return false;
  }
};
static std::string check(const Plan& p) {
  Lin l(p);
  l.th.resize(4);
  for (auto& e : events()) l.th[e.tid].push_back(e);
  l.total = events().size();
  if (!l.total) return "";
  if (clockReadings().empty()) return "clock-not-used:the first use did not take its seed from the clock";
  for (i64 c : clockReadings()) {
    l.dead.clear();
    l.done = 0;
    std::vector<int> at(4, 0);
    cuhksz::Random r((int)c);
    if (l.go(at, r)) return "";
  }
  return "not-linearizable:no order of the " + std::to_string(l.total) + " concurrent calls is explained by one generator seeded with the time of the first use";
}
static Property PR = {"C02", gen, body, false, check};
#endif

#ifdef VERIF_PROP_C03
enum { V_NEW, V_NEWVAL, V_COPY, E_NEW, E_COPY, E_ADD, V_ARRAY, V_ASSIGN, E_ASSIGN, V_TOUCH, E_TOUCH, V_COPYIN, E_DROP, V_BY_VALUE, V_MANY, V_N };
static void gen(Rng& r, Plan& p) {
  p.cfg["threads"] = r.range(2, 4);
  bool many = r.below(150) == 0;
  int n = (int)r.range(2, 30);
  for (int k = 0; k < n; k++) {
    Step s;
    s.op = r.chance(50) ? (int)r.pick({(int)V_NEW, (int)V_NEWVAL, (int)E_NEW, (int)E_ADD}) : (int)r.below(V_MANY);
    s.a[0] = r.below(p.cfg["threads"]);
    s.a[1] = r.below(1000);
    s.a[2] = r.below(1000);
    if (many && k == n / 2) { s.op = V_MANY; s.a[1] = r.pick<i64>({300, 5000, 33000, 66000}); s.a[2] = r.below(2); }
    p.steps.push_back(s);
  }
}
// out[0]: 0 vertex, 1 edge; out[1]: identity; out[2]: how many identities from there on
static void made(int tid, int step, int kind, int id, u64 inv, u64 n = 1) {
  Event e = {tid, step, inv, now(), {(u64)kind, (u64)(i64)id, n, 0}};
  event(e);
}
static cuhksz::Vertex giveVertex(int v) { cuhksz::Vertex x(v); return x; }
static void body(const Plan& p, int tid) {
  using namespace cuhksz;
  std::list<Vertex> keep;       // edges point at vertices: addresses must stay
  std::vector<Vertex*> plain;   // never gets an edge of its own, so that it can be copied
  std::vector<Edge*> edges;
  std::vector<std::pair<Vertex*, int>> vids;
  std::vector<std::pair<Edge*, int>> eids;
  auto newV = [&](int step, Vertex* v, u64 inv) { vids.emplace_back(v, v->getID()); made(tid, step, 0, v->getID(), inv); };
  auto newE = [&](int step, Edge* e, u64 inv) { eids.emplace_back(e, e->getID()); made(tid, step, 1, e->getID(), inv); };
  keep.emplace_back(1);
  newV(-1, &keep.back(), now());
  keep.emplace_back(2);
  newV(-1, &keep.back(), now());
  for (size_t k = 0; k < p.steps.size(); k++) {
    const Step& s = p.steps[k];
    if (s.op < 0 || s.op >= V_N || s.a[0] != tid) continue;
    u64 inv = now();
    auto vtx = [&](i64 i) -> Vertex& { auto it = keep.begin(); std::advance(it, (size_t)i % keep.size()); return *it; };
    auto anyV = [&](i64 i) -> Vertex& { return *vids[(size_t)i % vids.size()].first; };
    size_t pi = plain.empty() ? 0 : (size_t)s.a[1] % plain.size(), pj = plain.empty() ? 0 : (size_t)s.a[2] % plain.size();
    size_t ei = edges.empty() ? 0 : (size_t)s.a[1] % edges.size(), ej = edges.empty() ? 0 : (size_t)s.a[2] % edges.size();
    switch (s.op) {
      case V_NEW: plain.push_back(new Vertex); newV((int)k, plain.back(), inv); break;
      case V_NEWVAL: keep.emplace_back((int)s.a[1]); newV((int)k, &keep.back(), inv); break;
      case V_COPY: if (!plain.empty()) { plain.push_back(new Vertex(*plain[pi])); newV((int)k, plain.back(), inv); } break;
      case V_ASSIGN: if (!plain.empty()) *plain[pi] = *plain[pj]; break;
      case E_ASSIGN: if (!edges.empty()) *edges[ei] = *edges[ej]; break;
      case E_NEW: edges.push_back(new Edge(&vtx(s.a[1]), &vtx(s.a[2]), (int)s.a[1])); newE((int)k, edges.back(), inv); break;
      case E_COPY: if (!eids.empty()) { edges.push_back(new Edge(*eids[(size_t)s.a[1] % eids.size()].first)); newE((int)k, edges.back(), inv); } break;
      case E_ADD: { Vertex& f = vtx(s.a[1]); f.addEdge(vtx(s.a[2]), (int)s.a[1]); newE((int)k, f.outEdges.back(), inv); break; }
      case V_ARRAY: { Vertex* a = new Vertex[3]; for (int i = 0; i < 3; i++) made(tid, (int)k, 0, a[i].getID(), inv); delete[] a; break; }
      case V_TOUCH: { Vertex& v = anyV(s.a[1]); v.setVal((int)s.a[2]); if (s.a[2] % 2) v.setInvalid(); if (s.a[2] % 3) v.setValid(); v.getInDegree(); break; }
      case E_TOUCH: if (!eids.empty()) { Edge& e = *eids[(size_t)s.a[1] % eids.size()].first; e.setVal((int)s.a[2]); if (s.a[2] % 2) e.setInvalid(); if (s.a[2] % 3) e.setValid(); } break;
      case V_COPYIN: {         // a vertex that only edges of others lead to
        plain.push_back(new Vertex((int)s.a[1])); newV((int)k, plain.back(), inv);
        Vertex& f = vtx(s.a[2]);
        f.addEdge(*plain.back(), 5); newE((int)k, f.outEdges.back(), inv);
        plain.push_back(new Vertex(*plain.back())); newV((int)k, plain.back(), now());
        break;
      }
      case E_DROP: if (!edges.empty()) {
        Edge* e = edges[ei];
        for (auto it = eids.begin(); it != eids.end(); ++it) if (it->first == e) { eids.erase(it); break; }
        edges.erase(edges.begin() + (long)ei);
        delete e;
      } break;
      case V_BY_VALUE: { Vertex v(giveVertex((int)s.a[1])), w(1); made(tid, (int)k, 0, v.getID(), inv); made(tid, (int)k, 0, w.getID(), inv); w = giveVertex(3); std::vector<Vertex> all; all.emplace_back(1); all.emplace_back(2); all.emplace_back(3); made(tid, (int)k, 0, all[0].getID(), inv); made(tid, (int)k, 0, all[1].getID(), inv); made(tid, (int)k, 0, all[2].getID(), inv); break; }
      case V_MANY: {           // far more than any narrow counter holds
        std::set<int> got;
        Vertex a, b;
        for (i64 i = 0; i < s.a[1] % 100000; i++) {
          int id;
          if (s.a[2]) { Edge e(&a, &b); id = e.getID(); } else { Vertex v; id = v.getID(); }
          if (!got.insert(id).second) tsim::violate("duplicate-identity", "the %lldth of many %s got an identity of an earlier one", i, s.a[2] ? "edges" : "vertices");
        }
        // runs of consecutive identities, so that the history stays small
        for (auto it = got.begin(); it != got.end();) {
          int first = *it, n = 0;
          while (it != got.end() && *it == first + n) { ++it; ++n; }
          made(tid, (int)k, (int)s.a[2] % 2, first, inv, (u64)n);
        }
        tsim::probe("many_identities");
        break;
      }
    }
    // everything the thread owns keeps its identity and is distinguishable
    for (size_t i = 0; i < vids.size(); i++) {
      if (vids[i].first->getID() != vids[i].second) tsim::violate("identity-changed", "a vertex has another identity than before");
      for (size_t j = 0; j < vids.size(); j++)
        if ((*vids[i].first == *vids[j].first) != (i == j) || (*vids[i].first != *vids[j].first) != (i != j)) tsim::violate("identity-confused", "two vertices compare wrongly");
    }
    for (size_t i = 0; i < eids.size(); i++) {
      if (eids[i].first->getID() != eids[i].second) tsim::violate("identity-changed", "an edge has another identity than before");
      for (size_t j = 0; j < eids.size(); j++)
        if ((*eids[i].first == *eids[j].first) != (i == j) || (*eids[i].first != *eids[j].first) != (i != j)) tsim::violate("identity-confused", "two edges compare wrongly");
    }
  }
  for (auto v : plain) { v->inEdges.clear(); delete v; }
  for (auto e : edges) delete e;
}
static std::string check(const Plan&) {
  std::map<std::pair<u64, i64>, u64> seen;     // kind, first identity -> how many
  for (auto& e : events()) {
    i64 first = (i64)e.out[1], last = first + (i64)e.out[2] - 1;
    auto it = seen.upper_bound({e.out[0], last});
    if (it != seen.begin()) {
      --it;
      if (it->first.first == e.out[0] && it->first.second + (i64)it->second - 1 >= first)
        return std::string("duplicate-identity:two ") + (e.out[0] ? "edges" : "vertices") + " got identity " + std::to_string(first);
    }
    seen[{e.out[0], first}] = e.out[2];
  }
  return "";
}
static Property PR = {"C03", gen, body, false, check};
#endif
namespace tsim {
Property* getProperty() { return &PR; }
}
