// C04: JSON values under memory exhaustion.
// C08: messages (JSON, base64, URL) over lossy storage and transport.
#include "jmodel.h"
#include "base64/base64_functions.h"
#include "network/network_functions.h"
#include "string_utils/StringCast.h"
using namespace sim;
using namespace jm;
typedef cuhksz::JSONObject JO;
static const char* KEYS[] = {"", "a", "b", "k1", "a much longer key that needs memory of its own", "z z", "\xc3\xa9t\xc3\xa9", "q\"b\\n\n", "\\"};
static const int NKEYS = 9;
static const char* STRS[] = {"", "x", "Two", "quote\" back\\ tab\t nl\n", "a string that is certainly longer than the small buffer", "true", "\b\f\r/"};
static const int NSTRS = 7;
static std::string keyOf(i64 v) { return KEYS[(u64)v % NKEYS]; }
static std::string strOf(i64 v) { return STRS[(u64)v % NSTRS]; }
static double dblOf(i64 v) { return (double)(v % 4001 - 2000) / 8.0; }

static std::string ws(Rng& r) {
  std::string s;
  while (r.chance(25)) s += " \n\t\r"[r.below(4)];
  return s;
}
static std::string writeText(Rng& r, std::string& t) {
  std::string o = "\"", v;
  for (char c : t) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; v += c; }
    else if (c == '/' && r.chance(50)) { o += "\\/"; v += '/'; }
    else if (c == '\n') { o += "\\n"; v += c; }
    else if (c == '\t') { o += "\\t"; v += c; }
    else if (c == '\b') { o += "\\b"; v += c; }
    else if (c == '\f') { o += "\\f"; v += c; }
    else if (c == '\r') { o += "\\r"; v += c; }
    else { o += c; v += c; }
    if (r.chance(3)) {
      std::string h = "\\u";
      for (int k = 0; k < 4; k++) h += "0123456789abcdefABCDEF"[r.below(22)];
      o += h;
      v += h;
    }
  }
  t = v;
  return o + "\"";
}
// JSON text as other programs write it: free white space, escapes, exponents.
// Updates j to the value the text denotes.
static std::string writeJ(Rng& r, J& j) {
  switch (j.t) {
    case NUL: return "null";
    case BOOL: return j.b ? "true" : "false";
    case INT: return std::to_string(j.i);
    case FLT: {
      char b[80];
      int e = (int)r.range(-12, 12);
      i64 mant = r.range(-99999, 99999);
      switch (r.below(4)) {
        case 0: snprintf(b, sizeof b, "%lld.%lldE%d", mant, r.range(0, 999), e); break;
        case 1: snprintf(b, sizeof b, "%llde+%d", mant, e < 0 ? -e : e); break;
        case 2: snprintf(b, sizeof b, "%lldE%d", mant, e); break;
        default: snprintf(b, sizeof b, "%.6f", j.f);
      }
      j.f = strtod(b, nullptr);
      return b;
    }
    case STR: return writeText(r, j.s);
    case ARR: {
      std::string o = "[";
      for (size_t i = 0; i < j.a.size(); i++) { if (i) o += ws(r) + ","; o += ws(r) + writeJ(r, j.a[i]); }
      return o + ws(r) + "]";
    }
    default: {
      std::string o = "{";
      bool f = true;
      std::map<std::string, J> m;
      for (auto& p : j.o) {
        std::string k = p.first, t = writeText(r, k), w = writeJ(r, p.second);
        if (!m.emplace(k, p.second).second) continue;
        if (!f) o += ws(r) + ",";
        f = false;
        o += ws(r) + t + ws(r) + ":" + ws(r) + w;
      }
      j.o = m;
      return o + ws(r) + "}";
    }
  }
}
#ifdef VERIF_PROP_C04
enum { A_BOOL, A_INT, A_DBL, A_STR, A_CSTR, A_COPY, A_MOVE, A_KEY, A_CKEY, A_IDX, A_CHAIN, A_APPEND, A_APPENDJ, A_APPENDN, A_CCTOR, A_MCTOR,
       A_BUILD, A_INIT, A_ARRAY, A_DUMP, A_OUT, A_LOAD, A_FRESH, A_CHAINI, A_ASSIGNKEY, A_GROW, A_NEST, A_NOPS };
static void gen(Rng& r, Plan& p) {
  int n = (int)r.range(4, 26);
  for (int k = 0; k < n; k++) {
    Step s;
    s.op = (int)r.below(A_NOPS);
    if (r.chance(30)) s.op = (int)r.pick({A_COPY, A_MOVE, A_KEY, A_IDX, A_ASSIGNKEY, A_STR});
    for (auto& a : s.a) a = (i64)r.below(100000);
    if ((s.op == A_GROW || s.op == A_NEST) && r.chance(70)) s.op = (int)r.below(A_GROW);
    if (r.chance(15)) {   // text of any length and any bytes
      int len = r.chance(5) ? (int)r.pick({255, 256, 1023, 4097}) : (int)r.skew(60) + 1;
      while ((int)s.s.size() < len) s.s += r.chance(10) ? "\0\"\\/\n"[r.below(5)] : (char)(r.chance(60) ? r.range(32, 126) : r.below(256));
    }
    if (r.chance(55)) {
      switch (r.below(6)) {
        case 0: s.fk = F_OOM_ONE; s.fa = r.skew(12); break;
        case 1: s.fk = F_OOM_FROM; s.fa = r.skew(12); break;
        case 2: s.fk = F_OOM_SIZE; s.fa = r.pick({1, 32, 64, 128, 512}); break;
        default: s.fk = F_OOM_SCAN;
      }
      s.fb = r.below(2);
    }
    p.steps.push_back(s);
  }
}
// the value as far as its text keeps it: six decimals of a real
static J written(J j) {
  if (j.t == FLT) j.f = strtod(std::to_string(j.f).c_str(), nullptr);
  for (auto& e : j.a) e = written(e);
  for (auto& p : j.o) p.second = written(p.second);
  return j;
}
struct Pos { J* m; JO* l; int root; std::vector<J*> chain; };
static J* g_m[3];
static JO* g_l[3];
static void quiet(const std::function<void()>& f) {
  CallInfo ci = call([&] { f(); });
  SIM_CHECK(ci.out == O_OK, "observation-failed", "reading ended with %s %s", outcomeName(ci.out), ci.what.c_str());
}
static Pos pos(i64 root, i64 path) {
  Pos q;
  q.root = (int)(root % 3);
  q.m = g_m[q.root];
  q.l = g_l[q.root];
  q.chain.push_back(q.m);
  u64 v = (u64)path;
  quiet([&] {
    Out o;
    for (int d = 0; d < 4; d++) {
      size_t n = q.m->t == ARR ? q.m->a.size() : q.m->t == OBJ ? q.m->o.size() : 0;
      size_t c = v % (n + 1);
      v /= (n + 1);
      if (c == n) break;
      if (q.m->t == ARR) { q.m = &q.m->a[c]; q.l = &q.l->at((unsigned)c); }
      else { auto it = q.m->o.begin(); std::advance(it, c); const std::string& k = it->first; q.m = &it->second; q.l = &q.l->at(k); }
      q.chain.push_back(q.m);
    }
  });
  return q;
}
static void verify(const char* name) {
  for (int i = 0; i < 3; i++) {
    J got;
    quiet([&] { Out o; got = read(*g_l[i]); });
    g_run->logs(name, show(got));
    SIM_CHECK(eq(got, *g_m[i]), "value-differs", "after %s value %d is %s, expected %s", name, i, cut(show(got)).c_str(), cut(show(*g_m[i])).c_str());
  }
}
struct Case { J done; std::vector<J> partial; };
static JO* literal(int k) {
  switch (k % 3) {
    case 0: return new JO({"a", 1, "b", true, "z z", nullptr, "k1", {"a", "VALUE", "b", JO::Array(1, "Str", false)}});
    case 1: return new JO({"a", "a string that is certainly longer than the small buffer", "a", 2.5});
    default: return new JO({"k1", JO::Array(JO::Object(), JO::Array()), "b", JO({"k1", {"a", 7}})});
  }
}
static J literalModel(int k) {
  J j = jt(OBJ);
  J ar = jt(ARR);
  switch (k % 3) {
    case 0: { j.o["a"] = ji(1); j.o["b"] = jb(true); j.o["z z"] = jn(); J in = jt(OBJ); in.o["a"] = js("VALUE"); ar.a = {ji(1), js("Str"), jb(false)}; in.o["b"] = ar; j.o["k1"] = in; return j; }
    case 1: j.o["a"] = jf(2.5); return j;
    default: { ar.a = {jt(OBJ), jt(ARR)}; j.o["k1"] = ar; J in = jt(OBJ), in2 = jt(OBJ); in2.o["a"] = ji(7); in.o["k1"] = in2; j.o["b"] = in; return j; }
  }
}
static void exec(const Plan& p) {
  J m[3];
  for (int i = 0; i < 3; i++) { g_m[i] = &m[i]; call([&] { g_l[i] = new JO; }); }
  for (const Step& s : p.steps) {
    Pos t = pos(s.a[0], s.a[1]), src = pos(s.a[2], s.a[3]);
    int v = (int)(s.a[4] % 100), op = s.op;
    size_t total = weight(m[0]) + weight(m[1]) + weight(m[2]);
    if (total > 400 && (op == A_COPY || op == A_APPENDJ || op == A_CCTOR)) op = A_FRESH;
    bool srcHoldsTarget = false, targetHoldsSrc = false;
    for (J* c : t.chain) srcHoldsTarget |= c == src.m;
    for (J* c : src.chain) targetHoldsSrc |= c == t.m;
    if ((op == A_MOVE) && srcHoldsTarget && src.m != t.m) op = A_COPY;
    if (op == A_MCTOR && src.root == t.root) op = A_CCTOR;
    std::string key = s.s.empty() || s.a[5] % 2 ? keyOf(s.a[4]) : s.s, str1 = s.s.empty() ? strOf(s.a[5]) : s.s, text, got, tab = s.a[5] % 3 == 0 ? "\t" : "  ";
    if (op == A_CSTR || op == A_FRESH) str1 = str1.c_str();
    if (op == A_CKEY) key = key.c_str();
    int idx = (int)(s.a[4] % 4), depth = (int)(s.a[4] % 4);
    if (s.a[5] % 40 == 0 && total < 300) idx = (int)(s.a[4] % 90);
    static const int EDGES[] = {2147483647, -2147483647 - 1, 65536, -32769, 128, 255, -129, 1 << 24};
    int num = s.a[5] % 4 ? v - 50 : EDGES[s.a[4] % 8], width = (int)(s.a[3] % 7);
    if (width == 1) num = (short)num;
    if (width == 2) num = (signed char)num;
    if (width == 3) num = (unsigned char)num;
    if (width == 4) num = num & 0x7fffffff;
    auto assignNum = [&](JO& x) {
      switch (width) {
        case 1: x = (short)num; break;
        case 2: x = (signed char)num; break;
        case 3: x = (unsigned char)num; break;
        case 4: x = (unsigned)num; break;
        case 5: x = (long)num; break;
        case 6: x = (long long)num; break;
        default: x = num;
      }
    };
    if ((op == A_GROW || op == A_NEST) && total > 250) op = A_FRESH;
    J want, srcVal = *src.m, loaded;
    bool usesSrc = false, streamBad = false;
    std::function<void()> lib, commit = [] {};
    std::vector<J> partial;
    const char* nm = "?";
    std::vector<std::string> keys;
    JO* fresh = nullptr;
    JO* tl = t.l;
    JO* sl = src.l;
    // want: value of the target when the call completes; partial: states the
    // target may be left in when the call fails (besides the old value)
    auto expectNow = [&] {
      partial.clear();
      const J& old = *t.m;
      J asObj = old.t == OBJ ? old : jt(OBJ), asArr = old.t == ARR ? old : jt(ARR);
      want = old;
      switch (op) {
        case A_BOOL: want = jb(v & 1); partial = {want}; break;
        case A_INT: want = ji(num); partial = {want}; break;
        case A_DBL: want = jf(dblOf(s.a[4])); partial = {want}; break;
        case A_STR: case A_CSTR: want = js(str1); partial = {want}; break;
        case A_COPY: want = srcVal; break;
        case A_MOVE: want = srcVal; break;
        case A_KEY: case A_CKEY: want = asObj; want.o[key]; partial = {asObj}; break;
        case A_ASSIGNKEY: {
          want = asObj; partial = {asObj}; J w2 = want; w2.o[key]; partial.push_back(w2); want.o[key] = js(str1); partial.push_back(want); break; }
        case A_IDX: want = asArr; if ((int)want.a.size() <= idx) want.a.resize(idx + 1); partial = {asArr}; break;
        case A_CHAINI: {
          want = asArr; partial = {asArr}; if ((int)want.a.size() <= idx) want.a.resize(idx + 1); partial.push_back(want);
          if (want.a[idx].t != OBJ) want.a[idx] = jt(OBJ);
          partial.push_back(want); want.a[idx].o[key]; break; }
        case A_CHAIN: {
          want = asObj; partial = {asObj}; want.o[key]; partial.push_back(want);
          J& c = want.o[key]; if (c.t != OBJ) c = jt(OBJ);
          partial.push_back(want); want.o[key].o["b"]; break; }
        case A_APPEND: want = asArr; want.a.push_back(v % 8 == 6 ? jn() : v % 8 == 4 ? jb(true) : v & 1 ? js(v % 8 == 3 ? str1.c_str() : str1) : v & 2 ? ji(num) : jf(dblOf(v))); partial = {asArr}; break;
        case A_GROW: if (v & 1) { want = asArr; for (int i = 0; i <= v; i++) want.a.push_back(i % 3 ? ji(i) : js(str1)); } else { want = asObj; for (int i = 0; i <= v; i++) want.o[key + std::to_string(i * 7 % 100)] = ji(i); } break;
        case A_NEST: for (int i = 0; i < v % 40; i++) { J in = want; want = jt(i & 1 ? ARR : OBJ); if (i & 1) want.a = {in}; else want.o[key] = in; } break;
        case A_APPENDJ: want = asArr; want.a.push_back(srcVal); partial = {asArr}; break;
        case A_APPENDN: want = asArr; partial = {want}; want.a.push_back(jb(true)); partial.push_back(want); want.a.push_back(js(str1)); partial.push_back(want); want.a.push_back(ji(3)); partial.push_back(want); want.a.push_back(jf(4.5)); break;
        default: break;
      }
    };
    switch (op) {
      case A_BOOL: nm = "assign bool"; lib = [&] { *tl = (bool)(v & 1); }; break;
      case A_INT: nm = "assign int"; lib = [&] { assignNum(*tl); }; break;
      case A_DBL: nm = "assign double"; lib = [&] { if (v & 1) *tl = dblOf(s.a[4]); else *tl = (float)dblOf(s.a[4]); }; break;
      case A_STR: nm = "assign string"; lib = [&] { *tl = str1; }; break;
      case A_CSTR: nm = "assign text"; lib = [&] { *tl = str1.c_str(); }; break;
      case A_COPY: nm = "copy assignment"; usesSrc = true; lib = [&] { const JO& c = *sl; *tl = c; }; break;
      case A_MOVE: nm = "move assignment"; usesSrc = true; lib = [&] { *tl = std::move(*sl); }; break;
      case A_KEY: nm = "lookup by key"; lib = [&] { if (v & 1) (*tl)[key]; else tl->at(key); }; break;
      case A_CKEY: nm = "lookup by text"; lib = [&] { (*tl)[key.c_str()]; }; break;
      case A_ASSIGNKEY: nm = "assign member"; lib = [&] { (*tl)[key] = str1; }; break;
      case A_IDX: nm = "lookup by index"; lib = [&] { if (v & 1) (*tl)[idx]; else tl->at((unsigned)idx); }; break;
      case A_CHAIN: nm = "nested lookup"; lib = [&] { (*tl)[key]["b"]; }; break;
      case A_CHAINI: nm = "nested index lookup"; lib = [&] { (*tl)[idx][key]; }; break;
      case A_APPEND: nm = "append"; lib = [&] { if (v % 8 == 6) tl->append(nullptr); else if (v % 8 == 4) tl->append(true); else if (v % 8 == 3) tl->append(str1.c_str()); else if (v & 1) tl->append(str1); else if (v & 2) { if (width == 5) tl->append((long)num); else tl->append(num); } else tl->append(dblOf(v)); }; break;
      case A_GROW: nm = "growing"; for (int i = 0; i <= v; i++) keys.push_back(key + std::to_string(i * 7 % 100));
        lib = [&] { for (int i = 0; i <= v; i++) { if (v & 1) { if (i % 3) tl->append(i); else tl->append(str1); } else (*tl)[keys[i]] = i; } }; break;
      case A_NEST: nm = "nesting"; lib = [&] { for (int i = 0; i < v % 40; i++) { JO in(*tl); if (i & 1) *tl = JO::Array(in); else { JO o = JO::Object(); o[key] = in; *tl = std::move(o); } } }; break;
      case A_APPENDJ: nm = "append value"; usesSrc = true; lib = [&] { tl->append(*sl); }; break;
      case A_APPENDN: nm = "append many"; lib = [&] { tl->append(true, str1, 3, 4.5); }; break;
      case A_CCTOR: nm = "copy construction"; usesSrc = true; lib = [&] { const JO& c = *sl; fresh = new JO(c); }; break;
      case A_MCTOR: nm = "move construction"; usesSrc = true; lib = [&] { fresh = new JO(std::move(*sl)); }; break;
      case A_BUILD: nm = "build"; lib = [&] { fresh = v % 9 == 7 ? new JO(JO::Array()) : v % 9 == 8 ? new JO(JO::Object()) : new JO(JO::Build((JO::Type)(v % 7))); }; break;
      case A_INIT: nm = "initializer list"; lib = [&] { fresh = literal(v); }; break;
      case A_ARRAY: nm = "array builder"; lib = [&] { fresh = new JO(JO::Array(true, str1, v, 4.0, JO::Array("x"))); }; break;
      case A_DUMP: nm = "dump"; lib = [&] { std::string d = v % 3 == 0 ? tl->dump() : tl->dump(depth, tab); Out o; got = d; }; break;
      case A_OUT: nm = "print"; lib = [&] { std::ostringstream os; os << *tl; streamBad = !os.good(); std::string d = os.str(); Out o; got = d; }; break;
      case A_LOAD: nm = "load"; if (v & 1) { Rng w(mix((u64)s.a[4], (u64)s.a[5])); loaded = srcVal; text = writeJ(w, loaded); } else { loaded = written(srcVal); text = dumpModel(*src.m, 1, "  "); } lib = [&] { fresh = new JO(cuhksz::loadJSON(text)); }; break;
      default: nm = "fresh value"; op = A_FRESH; lib = [&] { fresh = v % 3 == 0 ? new JO(str1) : v % 3 == 1 ? new JO(v) : new JO(str1.c_str()); }; break;
    }
    bool rootOp = op == A_CCTOR || op == A_MCTOR || op == A_BUILD || op == A_INIT || op == A_ARRAY || op == A_LOAD || op == A_FRESH;
    auto attempt = [&](Arm a) -> bool {
      expectNow();
      fresh = nullptr;
      CallInfo ci = call(a, lib);
      g_run->log("%s: %s%s", nm, outcomeName(ci.out), ci.fired ? " (fault)" : "");
      if (ci.out == O_BADALLOC) {
        SIM_CHECK(ci.fired, "spurious-failure", "%s ran out of memory without a fault", nm);
        J now;
        quiet([&] { Out o; now = read(*tl); });
        if (!eq(now, *t.m)) {
          bool ok = false;
          for (auto& c : partial) ok |= eq(now, c);
          SIM_CHECK(ok, "value-differs", "failed %s changed the value from %s to %s", nm, cut(show(*t.m)).c_str(), cut(show(now)).c_str());
          *t.m = now;
          if (usesSrc) { verify(nm); return true; }
        }
        verify(nm);
        return false;
      }
      SIM_CHECK(ci.out == O_OK, "wrong-failure", "%s ended with %s %s", nm, outcomeName(ci.out), ci.what.c_str());
      if (rootOp) {
        J made;
        switch (op) {
          case A_CCTOR: case A_MCTOR: made = srcVal; break;
          case A_BUILD: made = v % 9 == 7 ? jt(ARR) : v % 9 == 8 ? jt(OBJ) : jt(v % 7); break;
          case A_INIT: made = literalModel(v); break;
          case A_ARRAY: { made = jt(ARR); J in = jt(ARR); in.a = {js("x")}; made.a = {jb(true), js(str1), ji(v), jf(4.0), in}; break; }
          case A_LOAD: made = loaded; break;
          default: made = v % 3 == 1 ? ji(v) : js(str1);
        }
        if (op == A_MCTOR) *src.m = jn();
        quiet([&] { delete g_l[t.root]; });
        g_l[t.root] = fresh;
        m[t.root] = made;
      } else if (op == A_DUMP || op == A_OUT) {
        std::string w = op == A_OUT || v % 3 == 0 ? dumpModel(*t.m, 1, "  ") : dumpModel(*t.m, depth, tab);
        if (!streamBad) SIM_CHECK(got == w, "wrong-text", "%s of %s gave %s", nm, cut(show(*t.m)).c_str(), cut(got).c_str());
        else SIM_CHECK(ci.fired, "spurious-failure", "printing failed without a fault");
      } else if (op == A_MOVE) {
        if (src.m == t.m) {
          J now;
          quiet([&] { Out o; now = read(*tl); });
          SIM_CHECK(eq(now, *t.m) || now.t == NUL, "value-differs", "moving a value onto itself made %s", cut(show(now)).c_str());
          *t.m = now;
        } else {
          if (!targetHoldsSrc) *src.m = jn();
          *t.m = want;
          // what a moved-from value holds is not specified; look at it
          if (!targetHoldsSrc) { J now; quiet([&] { Out o; now = read(*sl); }); *src.m = now; }
        }
      } else {
        *t.m = want;
      }
      verify(nm);
      return true;
    };
    bool done = false;
    Arm a;
    if (op == A_GROW || op == A_NEST) {   // many calls in one step: no fault
    } else if (s.fk == F_OOM_SCAN) {
      for (int k = 0; k < 600 && !done; k++) { a.kind = F_OOM_ONE; a.k = k; done = attempt(a); }
    } else if (s.fk) {
      a.kind = s.fk; a.k = s.fa;
      done = attempt(a);
      if (!done && !(s.fb & 1)) done = true;
    }
    if (!done) attempt(Arm());
  }
  for (int i = 0; i < 3; i++) quiet([&] { delete g_l[i]; });
  SIM_CHECK(liveBlocks() == 0, "leak", "%zu blocks survive: %s", liveBlocks(), describeLive().c_str());
}
static Property PR = {"C04", gen, exec, nullptr};
#endif

#ifdef VERIF_PROP_C08
// A message is encoded, stored or sent, possibly damaged, and decoded.
enum { K_JSON, K_JSONTEXT, K_B64, K_URL, K_CAST, K_NKINDS };
enum { D_NONE, D_TRUNC, D_FLIP, D_ZERO, D_DROP, D_DUP, D_SPLICE, D_BYTE, D_SWAP, D_NKINDS };
static const char* DN[] = {"none", "torn_write", "bit_flip", "lost_sector", "dropped_bytes", "duplicated_bytes", "stale_tail", "garbled_byte", "reordered_bytes"};
static void gen(Rng& r, Plan& p) {
  int n = (int)r.range(2, 8);
  for (int k = 0; k < n; k++) {
    Step s;
    s.op = (int)r.below(K_NKINDS);
    if (r.chance(25)) s.op = K_JSONTEXT;
    s.a[0] = (i64)(r.next() >> 2);   // content
    s.a[1] = r.chance(25) ? D_NONE : r.chance(35) ? D_TRUNC : r.below(D_NKINDS);
    s.a[2] = r.below(1 << 20);       // where
    s.a[3] = r.below(1 << 20);       // how much / what
    if (r.chance(25)) {
      switch (r.below(4)) {
        case 0: s.fk = F_OOM_ONE; s.fa = r.skew(30); break;
        case 1: s.fk = F_OOM_FROM; s.fa = r.skew(30); break;
        case 2: s.fk = F_OOM_SIZE; s.fa = r.pick({1, 32, 64, 128, 512}); break;
        default: s.fk = F_OOM_SCAN;
      }
    }
    p.steps.push_back(s);
  }
}
static std::string rndText(Rng& r, int max, bool plain) {
  int n = (int)r.skew(max);
  if (r.below(400) == 0) n = (int)r.pick({127, 128, 255, 256, 257, 1000, 5000, 20000});
  std::string s;
  for (int i = 0; i < n; i++)
    s += plain ? "abcXYZ019 _-.:,[]{}tfn"[r.below(22)] : r.chance(40) ? "\"\\/\b\f\n\r\t"[r.below(8)] : r.chance(20) ? (char)r.below(256) : (char)r.range(32, 126);
  return s;
}
static J rndJ(Rng& r, int depth) {
  int t = (int)r.below(depth > 0 ? 7 : 5);
  switch (t) {
    case 0: return jn();
    case 1: return jb(r.chance(50));
    case 2: return ji(r.chance(20) ? r.pick({0, -1, 2147483647, -2147483647 - 1, 10, 1000000}) : r.chance(30) ? (int)r.range(-2147483647ll - 1, 2147483647ll) : (int)r.range(-1000, 1000));
    case 3: if (r.chance(50)) return jf((double)r.range(-10000000000ll, 10000000000ll) / (r.chance(50) ? 1e6 : 1e3));
            return jf((double)r.range(-100000, 100000) / 64.0 * (r.chance(10) ? 4294967296.0 : 1));
    case 4: return js(rndText(r, 40, false));
    case 5: { J j = jt(ARR); int n = (int)r.skew(6); if (depth == 1 && r.below(60) == 0) n = (int)r.range(20, r.chance(15) ? 2500 : 300); for (int i = 0; i < n; i++) j.a.push_back(rndJ(r, depth - 1)); return j; }
    default: { J j = jt(OBJ); int n = (int)r.skew(6); if (depth == 1 && r.below(60) == 0) n = (int)r.range(20, r.chance(15) ? 1200 : 200); for (int i = 0; i < n; i++) j.o[rndText(r, 12, r.chance(60))] = rndJ(r, depth - 1); return j; }
  }
}
static J rndMsg(Rng& r) {
  J j = rndJ(r, 3);
  int pure = (int)r.below(6);
  if (r.below(60) == 0)   // nested deeply
    for (int n = (int)r.range(10, r.chance(15) ? 280 : 80); n > 0; n--) {
      J o = jt(pure == 1 ? ARR : pure == 2 ? OBJ : r.chance(50) ? ARR : OBJ);
      if (pure == 1) o.a.push_back(j);
      else if (pure == 2) o.o["k"] = j;
      else if (o.t == ARR) { if (r.chance(30)) o.a.push_back(ji(n)); o.a.push_back(j); if (r.chance(30)) o.a.push_back(jn()); }
      else { o.o[rndText(r, 4, true)] = j; if (r.chance(30)) o.o["zz"] = jb(true); }
      j = o;
    }
  return j;
}
static JO build(const J& j) {
  switch (j.t) {
    case NUL: return JO();
    case BOOL: return JO(j.b);
    case INT: return JO(j.i);
    case FLT: return JO(j.f);
    case STR: return JO(j.s);
    case ARR: { JO a = JO::Array(); for (auto& e : j.a) a.append(build(e)); return a; }
    default: { JO o = JO::Object(); for (auto& p : j.o) o[p.first] = build(p.second); return o; }
  }
}
static std::string damage(const std::string& m, const Step& s, const std::string& old) {
  std::string d = m;
  size_t n = m.size();
  if (!n) return d;
  size_t at = (size_t)s.a[2] % n, len = 1 + (size_t)s.a[3] % 8;
  switch (s.a[1]) {
    case D_TRUNC: d = m.substr(0, at); break;
    case D_FLIP: d[at] ^= (char)(1 << (s.a[3] % 8)); break;
    case D_ZERO: for (size_t i = at; i < n && i < at + 4 * len; i++) d[i] = 0; break;
    case D_DROP: d = m.substr(0, at) + (at + len < n ? m.substr(at + len) : ""); break;
    case D_DUP: d = m.substr(0, at) + m.substr(at, len) + m.substr(at); break;
    case D_SPLICE: d = m.substr(0, at) + (at < old.size() ? old.substr(at) : ""); break;
    case D_BYTE: d[at] = (s.a[3] & 1) ? "\"\\{}[]:,=%+-.eE0u"[(s.a[3] >> 1) % 17] : (char)(s.a[3] >> 1); break;
    case D_SWAP: { size_t b = (at + len) % n; std::swap(d[at], d[b]); break; }
  }
  if (d != m) fault(DN[s.a[1]]);
  return d;
}
// does the message start with something that has a definite end?
static bool firstOf(const std::string& m) {
  size_t i = 0;
  while (i < m.size() && isspace((unsigned char)m[i])) i++;
  return i < m.size() && strchr("{[\"tfn", m[i]);
}
static size_t lastOf(const std::string& m) {   // index of the last character that is not white space
  size_t i = m.size();
  while (i && isspace((unsigned char)m[i - 1])) i--;
  return i ? i - 1 : 0;
}
static size_t common(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return i;
}
static bool readable(const J& j) {
  if (j.t == FLT && !std::isfinite(j.f)) return false;
  for (auto& e : j.a) if (!readable(e)) return false;
  for (auto& p : j.o) if (!readable(p.second)) return false;
  return true;
}
// runs the call with the step's memory fault; returns false if it gave up for lack of memory
static bool guarded(const Step& s, const char* nm, const std::function<void()>& lib, CallInfo& ci) {
  for (int k = 0; k < 400; k++) {
    Arm a;
    a.kind = s.fk == F_OOM_SCAN ? F_OOM_ONE : s.fk;
    a.k = s.fk == F_OOM_SCAN ? k : s.fa;
    size_t before = liveBlocks();
    takeStderr();
    ci = call(a, lib);
    g_run->log("%s: %s%s code %d", nm, outcomeName(ci.out), ci.fired ? " (fault)" : "", ci.exitCode);
    if (ci.out == O_BADALLOC) {
      SIM_CHECK(ci.fired, "spurious-failure", "%s ran out of memory without a fault", nm);
      SIM_CHECK(liveBlocks() == before, "leak", "%s leaked when memory ran out: %s", nm, describeLive().c_str());
      if (s.fk == F_OOM_SCAN) continue;
      return false;
    }
    return true;
  }
  return false;
}
static void exec(const Plan& p) {
  std::string old;
  for (const Step& s : p.steps) {
    Rng r((u64)s.a[0]);
    int kind = s.op;
    J val;
    std::string raw, msg, bad;
    CallInfo ci;
    if (kind == K_JSON) {
      val = rndMsg(r);
      if (!guarded(s, "dump", [&] { std::string d = build(val).dump(); Out o; msg = d; }, ci)) continue;
      SIM_CHECK(ci.out == O_OK, "wrong-failure", "dump ended with %s", outcomeName(ci.out));
      SIM_CHECK(msg == dumpModel(val, 1, "  "), "wrong-encoding", "dump gave %s", cut(msg).c_str());
    } else if (kind == K_JSONTEXT) {
      val = rndMsg(r);
      msg = ws(r) + writeJ(r, val) + ws(r);
    } else if (kind == K_B64 || kind == K_URL) {
      int n = (int)r.skew(60);
      if (r.below(150) == 0) n = (int)r.pick({127, 128, 255, 256, 257, 1000, 3000, 5000});
      for (int i = 0; i < n; i++) raw += r.chance(20) ? "\0%+ ="[r.below(5)] : (char)(r.chance(50) ? r.range(32, 126) : r.below(256));
      int need = ((int)raw.size() * 8 + 5) / 6, pad = r.chance(30) ? need + (int)r.below(8) - 1 : -1;
      if (!guarded(s, "encode", [&] { std::string e = kind == K_B64 ? (pad >= 0 ? cuhksz::base64Encode(raw, pad) : cuhksz::base64Encode(raw)) : cuhksz::urlEncode(raw); Out o; msg = e; }, ci)) continue;
      SIM_CHECK(ci.out == O_OK, "wrong-failure", "encoding ended with %s", outcomeName(ci.out));
      if (kind == K_B64 && pad >= 0) {
        SIM_CHECK((int)msg.size() == (pad < need ? 0 : pad), "wrong-encoding", "%zu bytes encoded to length %d gave %zu characters", raw.size(), pad, msg.size());
        if (pad < need) continue;   // does not fit, as documented
      }
      for (unsigned char c : msg)
        SIM_CHECK(c > 32 && c < 127, "wrong-encoding", "the encoded message holds byte %d", c);
      if (kind == K_URL && r.chance(30)) {   // as other programs encode
        msg.clear();
        for (unsigned char c : raw) {
          if (c < 128 && (isalnum(c) || strchr("-_.~!*()", c)) && c && !r.chance(10)) { msg += (char)c; continue; }
          if (c == ' ' && r.chance(50)) { msg += '+'; continue; }
          const char* hex[2] = {"0123456789ABCDEF", "0123456789abcdef"};
          msg += '%';
          msg += hex[r.below(2)][c >> 4];
          msg += hex[r.below(2)][c & 15];
        }
      }
    } else {
      char b[80];
      switch (r.below(6)) {
        case 0: snprintf(b, sizeof b, "%lld", r.range(-1000000, 1000000)); break;
        case 1: snprintf(b, sizeof b, "%lld.25", r.range(-1000000, 1000000)); break;
        case 2: snprintf(b, sizeof b, "%lld", r.pick<i64>({2147483647, -2147483648ll, 0, 32767, -32768, 4294967295ll})); break;
        case 3: snprintf(b, sizeof b, "%lld", (long long)(i64)r.next() >> r.below(60)); break;
        case 4: snprintf(b, sizeof b, "%.17g", (r.unit() - 0.5) * std::pow(10.0, (double)r.range(-30, 30))); break;
        default: snprintf(b, sizeof b, "%s%lld%s", r.chance(50) ? "+" : "-", r.below(100000), r.chance(50) ? "e5" : ""); break;
      }
      msg = b;
    }
    bad = damage(msg, s, old);
    old = msg;
    bool intact = bad == msg;
    g_run->logs("message", bad);
    if (kind == K_CAST) {
      double d = 0;
      float f = 0;
      int i = 0;
      long long l = 0;
      short h = 0;
      if (!guarded(s, "stringCast", [&] {
            d = cuhksz::stringCast<double>(bad);
            i = cuhksz::stringCast<int>(bad)();
            l = cuhksz::stringCast<long long>(bad)();
            f = cuhksz::stringCast<float>(bad);
            h = cuhksz::stringCast<short>(bad);
          }, ci)) continue;
      SIM_CHECK(ci.out == O_OK, "wrong-failure", "stringCast ended with %s", outcomeName(ci.out));
      g_run->logd("cast", d);
      g_run->logd("cast", f);
      g_run->log("cast %d %lld %d", i, l, (int)h);
      if (intact) {
        SIM_CHECK(d == strtod(msg.c_str(), nullptr) && f == strtof(msg.c_str(), nullptr), "wrong-decoding", "%s was read as %.17g and %.9g", msg.c_str(), d, f);
        long long w = strtoll(msg.c_str(), nullptr, 10);
        bool in = w >= -2147483648ll && w <= 2147483647, sh = w >= -32768 && w <= 32767;
        SIM_CHECK(l == w && (!in || i == w) && (!sh || h == w), "wrong-decoding", "%s was read as %lld, %d and %d", msg.c_str(), l, i, (int)h);
      }
      continue;
    }
    if (kind == K_B64 || kind == K_URL) {
      std::string got;
      if (!guarded(s, "decode", [&] { std::string e = kind == K_B64 ? cuhksz::base64Decode(bad) : cuhksz::urlDecode(bad); Out o; got = e; }, ci)) continue;
      SIM_CHECK(ci.out == O_OK, "wrong-failure", "decoding ended with %s", outcomeName(ci.out));
      g_run->logs("decoded", got);
      if (intact) SIM_CHECK(got == raw, "wrong-decoding", "%zu bytes came back as %zu bytes or differ", raw.size(), got.size());
      SIM_CHECK(got.size() <= bad.size(), "wrong-decoding", "decoding %zu characters produced %zu bytes", bad.size(), got.size());
      // everything before the damage is kept
      size_t c = common(bad, msg), keep = 0;
      if (kind == K_B64) keep = c * 6 / 8;
      else { for (size_t i = 0; i < c;) { size_t st = msg[i] == '%' ? 3 : 1; if (i + st > c) break; i += st; keep++; } }
      if (keep > raw.size()) keep = raw.size();
      SIM_CHECK(got.size() >= keep && got.compare(0, keep, raw, 0, keep) == 0, "wrong-decoding", "bytes before the damage changed: %zu of %zu must be kept", keep, raw.size());
      continue;
    }
    // JSON
    JO* v = nullptr;
    size_t before = liveBlocks();
    if (!guarded(s, "loadJSON", [&] { v = nullptr; v = new JO(cuhksz::loadJSON(bad)); }, ci)) continue;
    SIM_CHECK(ci.out == O_OK || ci.out == O_EXIT, "wrong-failure", "parsing ended with %s %s", outcomeName(ci.out), ci.what.c_str());
    if (ci.out == O_EXIT) {
      std::string e = takeStderr();
      SIM_CHECK(ci.exitCode != 0, "wrong-failure", "a damaged message ended the process with success");
      SIM_CHECK(!e.empty(), "wrong-failure", "a damaged message was refused without a diagnostic");
      SIM_CHECK(!intact, "wrong-decoding", "an intact message was refused: %s", cut(e).c_str());
      probe("refused");
      return;   // the process is gone
    }
    J got;
    std::string d2, d3;
    CallInfo c2 = call([&] { Out o; got = read(*v); });
    SIM_CHECK(c2.out == O_OK, "observation-failed", "reading ended with %s", outcomeName(c2.out));
    g_run->logs("parsed", show(got));
    if (intact) SIM_CHECK(eq(got, val), "wrong-decoding", "%s was read as %s", cut(msg).c_str(), cut(show(got)).c_str());
    if (s.a[1] == D_TRUNC && !intact && firstOf(msg) && bad.size() <= lastOf(msg))
      violate("truncation-accepted", "the first %zu of %zu characters were accepted as a complete message", bad.size(), msg.size());
    probe("accepted");
    if (readable(got)) {
      c2 = call([&] { std::string a = v->dump(); std::string b = cuhksz::loadJSON(a).dump(); Out o; d2 = a; d3 = b; });
      SIM_CHECK(c2.out == O_OK && d2 == d3, "unstable-value", "an accepted value cannot be stored and read back: %s / %s (%s)", cut(d2).c_str(), cut(d3).c_str(), outcomeName(c2.out));
    }
    c2 = call([&] { delete v; });
    SIM_CHECK(liveBlocks() == before, "leak", "%zu blocks survive: %s", liveBlocks() - before, describeLive().c_str());
  }
}
static Property PR = {"C08", gen, exec, nullptr};
#endif
namespace sim {
Property* getProperty() { return &PR; }
}
