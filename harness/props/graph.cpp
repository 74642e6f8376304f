// C16: graphs and trees are what was built, also when memory runs out on the way.
#include "sim.h"
#include <algorithm>
#include "graph/Vertex.h"
#include "graph/Edge.h"
#include "graph/Tree.h"
using namespace sim;
using cuhksz::Edge;
using cuhksz::Node;
using cuhksz::Tree;
using cuhksz::Vertex;

enum { G_VERTEX, G_ADD, G_ADDDFLT, G_EDGEVAL, G_EDGEUSE, G_VTXVAL, G_VTXUSE, G_COPYEDGE, G_ASSIGNEDGE, G_COPYVTX, G_ASSIGNVTX,
       N_NEW, N_ADD, N_QUERY, N_SONS, G_N };
static void gen(Rng& r, Plan& p) {
  int n = (int)r.range(4, r.chance(15) ? 120 : 40);
  int rate = (int)r.pick({0, 15, 40, 70});
  int shape = (int)r.below(4);   // of trees: random, path, star, two paths
  p.cfg["shape"] = shape;
  p.cfg["trees"] = r.range(1, 2);
  p.cfg["order"] = r.below(3);
  int focus = (int)r.below(3);   // both, graphs, trees
  bool big = r.below(200) == 0;
  if (big) { n = (int)r.range(200, r.chance(30) ? 2500 : 900); focus = r.chance(80) ? 2 : 1; rate = rate ? 2 : 0; if (focus == 1) n /= 2; p.cfg["trees"] = 1; p.cfg["steady"] = r.pick<i64>({8, 97, 1009}); }
  bool deep = big && r.chance(35);   // trees of great height
  if (deep) { focus = 2; p.cfg["shape"] = r.pick({1, 3}); p.cfg["steady"] = r.pick<i64>({1009, 499}); n = (int)r.range(700, 2000); }
  for (int i = 0; i < n; i++) {
    Step s;
    int c = (int)r.below(100);
    bool tree = focus == 2 || (focus == 0 && r.chance(50));
    if (tree) s.op = c < (deep ? 85 : big ? 75 : 50) ? N_ADD : c < 55 && !big ? N_NEW : c < 92 ? N_QUERY : N_SONS;
    else s.op = c < 20 ? G_VERTEX : c < 55 ? G_ADD : c < 60 ? G_ADDDFLT : (int)r.range(G_EDGEVAL, G_ASSIGNVTX);
    s.a[0] = r.below(1000);
    s.a[1] = r.chance(15) ? s.a[0] : r.below(1000);
    s.a[2] = r.chance(10) ? r.pick<i64>({0, -1, 2147483647, -2147483647 - 1}) : r.range(-50, 50);
    s.a[3] = r.below(1000);
    if (r.chance(rate)) {
      s.fk = (int)r.pick<i64>({F_OOM_SCAN, F_OOM_SCAN, F_OOM_ONE, F_OOM_FROM, F_OOM_SIZE});
      s.fa = s.fk == F_OOM_SIZE ? r.pick<i64>({1, 25, 33, 65}) : r.skew(4);
      s.fb = r.below(2);
    }
    p.steps.push_back(s);
  }
}
struct MEdge { int from, to, val; bool use; };
struct MV { int val; bool use; std::vector<int> in, out; };   // indices of edges
struct MN { int val, fa, height; std::vector<int> sons; };
struct World {
  std::vector<Vertex*> v;
  std::vector<Edge*> e;          // owned by the vertices
  std::vector<MV> mv;
  std::vector<MEdge> me;
  std::vector<Edge*> loose;      // copies, owned here
  std::vector<MEdge> ml;
  std::vector<Vertex*> plain;    // vertices without edges: these can be copied
  std::vector<std::pair<int, bool>> mp;
  std::vector<int> vid, eid, lid, pid;
  // trees
  Tree* t[2];
  std::vector<Node*> n[2];
  std::vector<MN> mn[2];
};
static void quiet(const std::function<void()>& f) {
  CallInfo ci = call(f);
  SIM_CHECK(ci.out == O_OK, "observation-failed", "reading ended with %s %s", outcomeName(ci.out), ci.what.c_str());
}
static void edgeIs(World& w, Edge* e, const MEdge& m, const char* nm, const char* what, int i) {
  SIM_CHECK(e->getVal() == m.val && e->isValid() == m.use, "wrong-edge", "after %s %s %d has value %d validity %d, not %d %d", nm, what, i, e->getVal(), e->isValid(), m.val, m.use);
  SIM_CHECK(e->getFrom() == w.v[m.from] && e->getTo() == w.v[m.to], "wrong-edge", "after %s %s %d connects other vertices than %d and %d", nm, what, i, m.from, m.to);
}
static void graphIs(World& w, const char* nm) {
  for (size_t i = 0; i < w.v.size(); i++) {
    Vertex* v = w.v[i];
    MV& m = w.mv[i];
    int val = 0, in = 0, out = 0, id = 0;
    bool use = false;
    quiet([&] { val = v->getVal(); use = v->isValid(); in = v->getInDegree(); out = v->getOutDegree(); id = v->getID(); });
    SIM_CHECK(val == m.val && use == m.use && id == w.vid[i], "wrong-vertex", "after %s vertex %zu has value %d validity %d, not %d %d", nm, i, val, use, m.val, m.use);
    SIM_CHECK(in == (int)m.in.size() && out == (int)m.out.size(), "wrong-degree", "after %s vertex %zu has degrees %d %d, not %zu %zu", nm, i, in, out, m.in.size(), m.out.size());
    SIM_CHECK(v->inEdges.size() == m.in.size() && v->outEdges.size() == m.out.size(), "wrong-degree", "after %s vertex %zu lists %zu and %zu edges, not %zu %zu", nm, i, v->inEdges.size(), v->outEdges.size(), m.in.size(), m.out.size());
    size_t k = 0;
    for (Edge* e : v->outEdges) {
      int g = m.out[k++];
      if (!w.e[g]) w.e[g] = e, w.eid[g] = e ? e->getID() : -1;
      SIM_CHECK(e && w.e[g] == e, "wrong-adjacency", "after %s outgoing edge %zu of vertex %zu is another edge", nm, k - 1, i);
    }
  }
  for (size_t i = 0; i < w.v.size(); i++) {
    size_t k = 0;
    for (Edge* e : w.v[i]->inEdges) {
      SIM_CHECK(w.e[w.mv[i].in[k]] == e, "wrong-adjacency", "after %s incoming edge %zu of vertex %zu is another edge", nm, k, i);
      k++;
    }
  }
  for (size_t i = 0; i < w.e.size(); i++) {
    edgeIs(w, w.e[i], w.me[i], nm, "edge", (int)i);
    SIM_CHECK(w.e[i]->getID() == w.eid[i], "identity-changed", "after %s edge %zu has another identity", nm, i);
  }
  for (size_t i = 0; i < w.loose.size(); i++) {
    edgeIs(w, w.loose[i], w.ml[i], nm, "free edge", (int)i);
    SIM_CHECK(w.loose[i]->getID() == w.lid[i], "identity-changed", "after %s free edge %zu has another identity", nm, i);
  }
  for (size_t i = 0; i < w.plain.size(); i++)
    SIM_CHECK(w.plain[i]->getVal() == w.mp[i].first && w.plain[i]->isValid() == w.mp[i].second && w.plain[i]->getInDegree() == 0 && w.plain[i]->getOutDegree() == 0 && w.plain[i]->getID() == w.pid[i],
              "wrong-vertex", "after %s copied vertex %zu differs from its source", nm, i);
}
static int up(std::vector<MN>& m, int x, int k) { while (k-- > 0) x = m[x].fa; return x; }
static int lca(std::vector<MN>& m, int x, int y) {
  while (m[x].height > m[y].height) x = m[x].fa;
  while (m[y].height > m[x].height) y = m[y].fa;
  while (x != y) x = m[x].fa, y = m[y].fa;
  return x;
}
static void nodeIs(World& w, int t, int i, const char* nm) {
  Node* n = w.n[t][i];
  MN& m = w.mn[t][i];
  std::vector<Node*> want;
  for (int s : m.sons) want.push_back(w.n[t][s]);
  int val = 0, h = 0, d = 0, id = 0;
  Node* fa = nullptr;
  std::vector<Node*> sons;
  quiet([&] { val = n->getVal(); h = n->getHeight(); d = n->getDegree(); fa = n->getFa(); id = n->getID(); std::vector<Node*> got = n->getSon(); Out o; sons.assign(got.begin(), got.end()); });
  SIM_CHECK(id == i && val == m.val && h == m.height && d == (int)m.sons.size(), "wrong-node", "after %s node %d of tree %d has id %d value %d height %d degree %d, not %d %d %zu", nm, i, t, id, val, h, d, m.val, m.height, m.sons.size());
  SIM_CHECK(fa == (m.fa < 0 ? nullptr : w.n[t][m.fa]), "wrong-father", "after %s node %d of tree %d has another father", nm, i, t);
  SIM_CHECK(sons == want, "wrong-sons", "after %s node %d of tree %d lists other sons", nm, i, t);
}
static void treesAre(World& w, const char* nm, bool deep, i64 salt, int onlyNode, int onlyTree) {
  for (int t = 0; t < 2; t++) {
    int cnt = (int)w.n[t].size();
    for (int i = 0; i < cnt; i++)
      if (deep || (t == onlyTree && (i == onlyNode || i == w.mn[t][onlyNode].fa))) nodeIs(w, t, i, nm);
    if (cnt) {
      Node* root = nullptr;
      quiet([&] { root = w.t[t]->getRoot(); });
      SIM_CHECK(root == w.n[t][0], "wrong-root", "after %s tree %d has another root", nm, t);
    }
    if (!deep) continue;
    for (int i = 0; i < cnt; i++) {
      int h = w.mn[t][i].height, lv = (int)((salt + i) % (h + 1));
      int j = (int)((salt * 7 + i * 13) % cnt);
      Node *a = nullptr, *b = nullptr;
      int d = 0;
      quiet([&] { a = w.n[t][i]->getAncestor(lv); b = w.t[t]->LCA(w.n[t][i], w.n[t][j]); d = w.t[t]->getDistance(w.n[t][i], w.n[t][j]); });
      SIM_CHECK(a == w.n[t][up(w.mn[t], i, lv)], "wrong-ancestor", "after %s ancestor %d of node %d (tree %d) is another node", nm, lv, i, t);
      int l = lca(w.mn[t], i, j);
      SIM_CHECK(b == w.n[t][l], "wrong-ancestor", "after %s the lowest common ancestor of %d and %d (tree %d) is another node", nm, i, j, t);
      SIM_CHECK(d == w.mn[t][i].height + w.mn[t][j].height - 2 * w.mn[t][l].height, "wrong-distance", "after %s nodes %d and %d (tree %d) are at distance %d", nm, i, j, t, d);
    }
  }
}
static void exec(const Plan& p) {
  World w;
  int trees = (int)p.get("trees", 1), shape = (int)p.get("shape"), steady = (int)p.get("steady", 8);
  auto addV = [&](Vertex* v, int val) { w.v.push_back(v); w.vid.push_back(v->getID()); w.mv.push_back({val, true, {}, {}}); };
  Vertex* first = nullptr;
  quiet([&] { first = new Vertex(7); });
  addV(first, 7);
  for (int t = 0; t < 2; t++) {
    quiet([&] { w.t[t] = new Tree; });
    Node* n = nullptr;
    quiet([&] { n = new Node(0, t); w.t[t]->setRoot(n); });
    w.n[t].push_back(n);
    w.mn[t].push_back({t, -1, 0, {}});
  }
  for (const Step& s : p.steps) {
    int a = (int)(s.a[0] % (i64)w.v.size()), b = (int)(s.a[1] % (i64)w.v.size()), val = (int)s.a[2];
    int t = (int)(s.a[3] % trees), tn = (int)w.n[t].size();
    int x = (int)(s.a[0] % tn), y = (int)(s.a[1] % tn);
    const char* nm = "?";
    std::function<void()> lib, done = [] {};
    bool isTree = s.op >= N_NEW;
    int ei = w.e.empty() ? -1 : (int)(s.a[1] % (i64)w.e.size());
    int li = w.loose.empty() ? -1 : (int)(s.a[0] % (i64)w.loose.size());
    int pi = w.plain.empty() ? -1 : (int)(s.a[0] % (i64)w.plain.size()), pj = w.plain.empty() ? -1 : (int)(s.a[1] % (i64)w.plain.size());
    Vertex* nv = nullptr;
    Edge* ne = nullptr;
    Node *nn = nullptr, *got = nullptr, *anc = nullptr;
    int dist = 0;
    std::vector<Node*> sons;
    switch (s.op) {
      case G_VERTEX: nm = "creating a vertex";
        lib = [&] { nv = s.a[3] % 4 ? new Vertex(val) : new Vertex; };
        done = [&] { addV(nv, s.a[3] % 4 ? val : 0); };
        break;
      case G_ADD: case G_ADDDFLT: nm = "connecting two vertices";
        lib = [&] { if (s.op == G_ADD) w.v[a]->addEdge(*w.v[b], val); else w.v[a]->addEdge(*w.v[b]); };
        done = [&] {
          w.me.push_back({a, b, s.op == G_ADD ? val : 0, true});
          w.mv[a].out.push_back((int)w.e.size());
          w.mv[b].in.push_back((int)w.e.size());
          w.e.push_back(nullptr);
          w.eid.push_back(0);
        };
        break;
      case G_EDGEVAL: if (ei < 0) continue; nm = "relabelling an edge"; lib = [&] { w.e[ei]->setVal(val); }; done = [&] { w.me[ei].val = val; }; break;
      case G_EDGEUSE: if (ei < 0) continue; nm = "validating an edge"; lib = [&] { if (val & 1) w.e[ei]->setValid(); else w.e[ei]->setInvalid(); }; done = [&] { w.me[ei].use = val & 1; }; break;
      case G_VTXVAL: nm = "relabelling a vertex"; lib = [&] { w.v[a]->setVal(val); }; done = [&] { w.mv[a].val = val; }; break;
      case G_VTXUSE: nm = "validating a vertex"; lib = [&] { if (val & 1) w.v[a]->setValid(); else w.v[a]->setInvalid(); }; done = [&] { w.mv[a].use = val & 1; }; break;
      case G_COPYEDGE: if (ei < 0 && li < 0) continue; nm = "copying an edge";
        lib = [&] { ne = (s.a[3] & 1) && li >= 0 ? new Edge(*w.loose[li]) : ei >= 0 ? new Edge(*w.e[ei]) : new Edge(*w.loose[li]); };
        done = [&] { w.loose.push_back(ne); w.lid.push_back(ne->getID()); w.ml.push_back((s.a[3] & 1) && li >= 0 ? w.ml[li] : ei >= 0 ? w.me[ei] : w.ml[li]); };
        break;
      case G_ASSIGNEDGE: if (ei < 0 || li < 0) continue; nm = "assigning an edge"; lib = [&] { *w.loose[li] = *w.e[ei]; }; done = [&] { w.ml[li] = w.me[ei]; }; break;
      case G_COPYVTX: nm = "copying a vertex";
        lib = [&] { nv = pi >= 0 && (s.a[3] & 1) ? new Vertex(*w.plain[pi]) : new Vertex(val); };
        done = [&] { w.mp.push_back(pi >= 0 && (s.a[3] & 1) ? w.mp[pi] : std::make_pair(val, true)); w.plain.push_back(nv); w.pid.push_back(nv->getID()); };
        break;
      case G_ASSIGNVTX: if (pi < 0) continue; nm = "assigning a vertex";
        lib = [&] { if (s.a[3] & 1) { *w.plain[pi] = *w.plain[pj]; } else { w.plain[pi]->setInvalid(); w.plain[pi]->setVal(val); } };
        done = [&] { w.mp[pi] = s.a[3] & 1 ? w.mp[pj] : std::make_pair(val, false); };
        break;
      case N_NEW: nm = "creating a tree"; {
        if (s.a[3] % 8) continue;
        Tree* nt = nullptr;
        quiet([&] { nt = new Tree; nn = new Node(0, val); nt->setRoot(nn); });
        quiet([&] { delete w.t[t]; for (Node* q : w.n[t]) delete q; });
        w.t[t] = nt;
        w.n[t].assign(1, nn);
        w.mn[t].assign(1, MN{val, -1, 0, {}});
        continue;
      }
      case N_ADD: nm = "adding a node"; {
        if (shape == 1 && s.a[0] % steady) x = tn - 1;
        if (shape == 2 && s.a[0] % steady) x = 0;
        if (shape == 3 && s.a[0] % steady) x = tn > 2 ? tn - 2 : 0;
        quiet([&] { nn = s.a[2] % 3 ? new Node(tn, val) : new Node(tn); });
        int xv = s.a[2] % 3 ? val : 0;
        lib = [&, x] { w.t[t]->addNode(nn, w.n[t][x]); };
        done = [&, x, xv] { w.n[t].push_back(nn); w.mn[t].push_back({xv, x, w.mn[t][x].height + 1, {}}); w.mn[t][x].sons.push_back(tn); };
        break;
      }
      case N_QUERY: nm = "querying a tree";
        lib = [&] { got = w.t[t]->LCA(w.n[t][x], w.n[t][y]); dist = w.t[t]->getDistance(w.n[t][x], w.n[t][y]); anc = w.n[t][x]->getAncestor((int)(s.a[3] % (w.mn[t][x].height + 1))); };
        done = [&] {
          int l = lca(w.mn[t], x, y);
          SIM_CHECK(got == w.n[t][l], "wrong-ancestor", "the lowest common ancestor of %d and %d is another node than %d", x, y, l);
          SIM_CHECK(dist == w.mn[t][x].height + w.mn[t][y].height - 2 * w.mn[t][l].height, "wrong-distance", "nodes %d and %d are at distance %d", x, y, dist);
          SIM_CHECK(anc == w.n[t][up(w.mn[t], x, (int)(s.a[3] % (w.mn[t][x].height + 1)))], "wrong-ancestor", "an ancestor of node %d is another node", x);
        };
        break;
      default: nm = "listing sons";
        lib = [&] { { Out o; sons.clear(); } std::vector<Node*> g = w.n[t][x]->getSon(); Out o; sons.assign(g.begin(), g.end()); };
        done = [&] { std::vector<Node*> want; for (int q : w.mn[t][x].sons) want.push_back(w.n[t][q]); SIM_CHECK(sons == want, "wrong-sons", "node %d lists other sons", x); };
    }
    bool finished = false;
    auto attempt = [&](Arm ar) {
      CallInfo ci = call(ar, lib);
      g_run->log("%s %d %d %d: %s%s", nm, a, b, val, outcomeName(ci.out), ci.fired ? " (fault)" : "");
      if (ci.out == O_BADALLOC) {
        SIM_CHECK(ci.fired, "spurious-failure", "%s ran out of memory without a fault", nm);
        if (isTree) {
          treesAre(w, nm, true, s.a[3], 0, 0);
          if (s.op == N_ADD) SIM_CHECK(nn->getFa() == nullptr && nn->ancestor.empty() && nn->getDegree() == 0, "half-added", "a node that could not be added knows a father or ancestors");
        } else graphIs(w, nm);
        return false;
      }
      SIM_CHECK(ci.out == O_OK, "wrong-failure", "%s ended with %s %s", nm, outcomeName(ci.out), ci.what.c_str());
      done();
      if (isTree) treesAre(w, nm, false, 0, s.op == N_ADD ? tn : x, t); else graphIs(w, nm);
      return true;
    };
    if (s.fk == F_OOM_SCAN) {
      for (int j = 0; j < 100 && !finished; j++) { Arm r; r.kind = F_OOM_ONE; r.k = j; finished = attempt(r); }
    } else if (s.fk) {
      Arm r;
      r.kind = s.fk;
      r.k = s.fa;
      finished = attempt(r);
      if (!finished && !(s.fb & 1)) { finished = true; if (s.op == N_ADD) quiet([&] { delete nn; }); }
    }
    if (!finished) attempt(Arm());
    if (isTree && s.a[3] % 10 == 3) treesAre(w, nm, true, s.a[3], 0, 0);
  }
  graphIs(w, "the history");
  treesAre(w, "the history", true, 5, 0, 0);
  // vertices sort by value, edges too
  for (size_t i = 1; i < w.v.size(); i++) {
    bool lt = false, eq = false, ne = false;
    quiet([&] { lt = *w.v[i - 1] < *w.v[i]; eq = *w.v[i - 1] == *w.v[i]; ne = *w.v[i] != *w.v[i]; });
    SIM_CHECK(lt == (w.mv[i - 1].val < w.mv[i].val) && !eq && !ne, "wrong-comparison", "vertices %zu and %zu compare wrongly", i - 1, i);
  }
  for (size_t i = 1; i < w.e.size(); i++) {
    bool lt = false, eq = false, ne = false;
    quiet([&] { lt = *w.e[i - 1] < *w.e[i]; eq = *w.e[i - 1] == *w.e[i]; ne = *w.e[i] != *w.e[i]; });
    SIM_CHECK(lt == (w.me[i - 1].val < w.me[i].val) && !eq && !ne, "wrong-comparison", "edges %zu and %zu compare wrongly", i - 1, i);
  }
  quiet([&] {
    for (Edge* e : w.loose) delete e;
    for (Vertex* v : w.plain) delete v;
    size_t n = w.v.size();
    for (size_t i = 0; i < n; i++) { size_t k = p.get("order") == 0 ? i : p.get("order") == 1 ? n - 1 - i : (i * 2 < n ? i * 2 : (i * 2 - n) | 1); if (k < n && w.v[k]) { delete w.v[k]; w.v[k] = nullptr; } }
    for (Vertex* v : w.v) delete v;
    for (int t = 0; t < 2; t++) { delete w.t[t]; for (Node* q : w.n[t]) delete q; }
  });
  SIM_CHECK(liveBlocks() == 0, "leak", "%zu blocks survive: %s", liveBlocks(), describeLive().c_str());
}
static Property PR = {"C16", gen, exec, nullptr};
namespace sim { Property* getProperty() { return &PR; } }
