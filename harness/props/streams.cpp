// C07: reading vectors from streams that deliver in pieces, stop or fail.
// C14: printing to streams that stop accepting bytes.
#include "sim.h"
#include <ios>
#include <istream>
#include <limits>
#include "containers/Vector.h"
#include "geometry/Point.h"
#include "json.h"
#include "math_utils/BigNum.h"
#include "math_utils/Fraction.h"
#include "math_utils/Matrix.h"
using namespace sim;
using cuhksz::Vector;

// ------------------------------------------------------------------ streams
enum { SRC_EOF, SRC_THROW, SRC_GLITCH };   // what happens at the end of the delivered text
// A source of bytes: buffered in pieces of changing size, or unbuffered.
struct Source : std::streambuf {
  std::string text;
  size_t pos = 0, stop;
  int how, piece;
  bool hit = false;
  Rng r;
  char buf[64];
  Source(const std::string& t, size_t stop_, int how_, int piece_, u64 seed) : text(t), stop(stop_), how(how_), piece(piece_), r(seed) {
    setg(buf, buf, buf);
  }
  size_t consumed() const { return pos - (size_t)(egptr() - gptr()); }
  bool dry() {
    if (pos < stop) return false;
    if (!hit) { hit = true; fault(how == SRC_EOF ? "input_ends" : how == SRC_THROW ? "input_fails" : "input_fails_once"); }
    if (how == SRC_EOF) return true;
    if (how == SRC_GLITCH) { stop = text.size() + 1; how = SRC_EOF; }
    throw std::runtime_error("simulated read failure");
  }
  int_type underflow() override {
    Out o;
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (piece == 0) { if (dry() || pos >= text.size()) return traits_type::eof(); return traits_type::to_int_type(text[pos]); }
    if (dry() || pos >= text.size()) return traits_type::eof();
    size_t end = std::min(stop, text.size());
    size_t n = std::min<size_t>({(size_t)piece, sizeof buf, end - pos});
    if (n > 1 && piece > 1) n = 1 + (size_t)r.below((i64)n);
    memcpy(buf, text.data() + pos, n);
    pos += n;
    setg(buf, buf, buf + n);
    return traits_type::to_int_type(buf[0]);
  }
  int_type uflow() override {
    if (piece != 0) return std::streambuf::uflow();
    int_type c = underflow();
    if (c != traits_type::eof()) pos++;
    return c;
  }
};

// A sink of bytes that breaks after `at` of them.
enum { SNK_OK, SNK_FAIL, SNK_SHORT, SNK_THROW };
struct Sink : std::streambuf {
  std::string got;
  int mode = SNK_OK;
  i64 at = 0;          // bytes until the fault, from arming on
  bool once = false, hit = false;
  void arm(int m, i64 n, bool o) { mode = m; at = n; once = o; hit = false; }
  int_type overflow(int_type c) override {
    if (c == traits_type::eof()) return 0;
    Out o;
    char ch = (char)c;
    return put(&ch, 1) == 1 ? traits_type::to_int_type(ch) : traits_type::eof();
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    Out o;
    return put(s, n);
  }
  std::streamsize put(const char* s, std::streamsize n) {
    if (mode == SNK_OK || n <= at) {
      got.append(s, (size_t)n);
      if (mode != SNK_OK) at -= n;
      return n;
    }
    std::streamsize k = mode == SNK_SHORT ? at : 0;     // a failing write may or may not have taken a part
    got.append(s, (size_t)k);
    int m = mode;
    hit = true;
    fault(m == SNK_FAIL ? "output_refused" : m == SNK_SHORT ? "output_short" : "output_throws");
    if (once) mode = SNK_OK; else at = 0;
    if (m == SNK_THROW) throw std::runtime_error("simulated write failure");
    return k;
  }
};

// ------------------------------------------------------------------ elements
template <class T> struct Gen;
template <> struct Gen<int> { static int one(Rng& r) { return r.chance(10) ? r.pick({INT32_MAX, INT32_MIN, 0, -1}) : r.chance(40) ? (int)r.range(-9, 9) : (int)r.range(-2000000000, 2000000000); } };
template <> struct Gen<long long> { static long long one(Rng& r) { return r.chance(10) ? r.pick<long long>({INT64_MAX, INT64_MIN}) : (long long)r.next() >> r.below(63); } };
template <> struct Gen<unsigned> { static unsigned one(Rng& r) { return (unsigned)(r.next() >> (32 + r.below(31))); } };
template <> struct Gen<double> { static double one(Rng& r) { return r.chance(50) ? (double)r.range(-999, 999) / 8 : (double)r.range(-99999, 99999) * (r.chance(50) ? 1e-9 : 1e12); } };
template <> struct Gen<short> { static short one(Rng& r) { return r.chance(20) ? r.pick<short>({32767, -32768, 0}) : (short)r.range(-32768, 32767); } };
template <> struct Gen<float> { static float one(Rng& r) { return r.chance(50) ? (float)r.range(-999, 999) / 8 : (float)r.range(-999, 999) * (r.chance(50) ? 1e-9f : 1e12f); } };
template <> struct Gen<char> { static char one(Rng& r) { static const char c[] = "abz,AZ09{;.+-"; return c[r.below(sizeof c - 1)]; } };
template <> struct Gen<std::string> { static std::string one(Rng& r) { std::string s; for (int n = (int)r.skew(30); n > 0; n--) s += (char)('a' + r.below(26)); return s; } };
template <class T> struct Mod { typedef T type; };
template <class T> struct Gen<std::vector<T>> {
  static std::vector<T> one(Rng& r) { std::vector<T> v; for (int n = (int)r.skew(5); n > 0; n--) v.push_back(Gen<T>::one(r)); return v; }
};
// text the library should print, written independently of it
template <class T> std::string show(const T& x) { std::ostringstream o; o << x; return o.str(); }
template <class T> std::string show(const std::vector<T>& v) {
  std::string s = "{";
  for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + show(T(v[i]));
  return s + "}";
}
// text of a vector as somebody else may write it, with other spacing
template <class T> void wild(Rng& r, const T& x, std::string& s) { s += show(x); }
static void space(Rng& r, std::string& s) { while (r.chance(30)) s += r.pick({' ', '\n', '\t', ' ', '\r', '\v', '\f'}); }
template <class T> void wild(Rng& r, const std::vector<T>& v, std::string& s) {
  s += "{";
  space(r, s);
  for (size_t i = 0; i < v.size(); i++) {
    if (i) { space(r, s); s += ","; space(r, s); }
    wild(r, T(v[i]), s);
  }
  space(r, s);
  s += "}";
}
// reference reader: element values by the standard library, the frame by hand
template <class T> bool rd(std::istream& is, T& x) { return (bool)(is >> x); }
template <class T> bool rd(std::istream& is, std::vector<T>& v) {
  char c;
  v.clear();
  if (!(is >> c) || c != '{') return false;
  is >> std::ws;
  if (is.peek() == '}') { is.get(); return true; }
  for (;;) {
    T x;
    if (!rd(is, x)) return false;
    v.push_back(x);
    if (!(is >> c)) return false;
    if (c == '}') return true;
    if (c != ',') return false;
  }
}
template <class T> struct Lb { typedef T type; };                       // library type of a model type
template <class T> struct Lb<std::vector<T>> { typedef Vector<typename Lb<T>::type> type; };
template <class T> T toLib(const T& x) { return x; }
template <class T> typename Lb<std::vector<T>>::type toLib(const std::vector<T>& v) {
  typename Lb<std::vector<T>>::type o;
  for (auto& x : v) o.push(toLib(x));
  return o;
}
template <class T> bool same(const T& a, const T& b) { return a == b; }
template <class T> bool same(const typename Lb<std::vector<T>>::type& a, const std::vector<T>& b) {
  if (a.size() != (int)b.size()) return false;
  auto it = a.begin();
  for (auto& x : b) { if (!same(*it, x)) return false; ++it; }
  return true;
}
template <class T> bool prefix(const typename Lb<std::vector<T>>::type& a, const std::vector<T>& b) {
  if (a.size() > (int)b.size()) return false;
  size_t i = 0;
  for (auto it = a.begin(); it != a.end(); ++it, ++i) if (!same(*it, b[i])) return false;
  return true;
}
static std::string clip(const std::string& s) { return s.size() < 90 ? s : s.substr(0, 90) + "..."; }

// ================================================================== C07
enum { K_INT, K_LL, K_UNS, K_DBL, K_CHR, K_NEST, K_SHORT, K_FLT, K_DEEP, K_N };
template <class F> void byKind(int k, F f) {
  switch (k) {
    case K_INT: f(std::vector<int>()); break;
    case K_LL: f(std::vector<long long>()); break;
    case K_UNS: f(std::vector<unsigned>()); break;
    case K_DBL: f(std::vector<double>()); break;
    case K_CHR: f(std::vector<char>()); break;
    case K_SHORT: f(std::vector<short>()); break;
    case K_FLT: f(std::vector<float>()); break;
    case K_DEEP: f(std::vector<std::vector<std::vector<int>>>()); break;
    default: f(std::vector<std::vector<int>>()); break;
  }
}
// A step holds the text of one stream; a[0] number of reads asked of it.
static void gen7(Rng& r, Plan& p) {
  int kind = (int)r.below(K_N);
  p.cfg["kind"] = kind;
  int streams = (int)r.range(1, 4);
  for (int k = 0; k < streams; k++) {
    Step s;
    int n = (int)r.range(1, 4);
    s.a[0] = n;
    byKind(kind, [&](auto proto) {
      typedef decltype(proto) V;
      for (int i = 0; i < n; i++) {
        V v;
        int len = (int)r.skew(r.chance(15) ? 60 : 8);
        if (r.below(400) == 0) len = (int)r.pick({100, 128, 256, 300, 1025});
        for (int j = 0; j < len; j++) v.push_back(Gen<typename V::value_type>::one(r));
        if (i) s.s += r.pick({" ", "\n", "", "  "});
        if (r.chance(50)) wild(r, v, s.s); else s.s += show(v);
      }
      if (r.chance(50)) s.s += r.pick({"\n", " ", "tail", "}", ","});
    });
    s.a[1] = r.pick<i64>({0, 1, 2, 7, 64});       // piece
    s.a[2] = (i64)(r.next() >> 1);                // seed of the piece sizes
    s.a[3] = r.chance(20) ? r.range(1, 7) : 0;    // exceptions asked of the stream: bad, fail, end
    s.a[4] = r.chance(3) ? r.range(1, 2) : 0;     // stream already failed
    i64 L = (i64)s.s.size();
    int c = (int)r.below(100);
    if (c < 30) {                                 // the source ends or fails somewhere
      s.fk = F_STREAM;
      s.fa = r.chance(90) ? r.below(L + 1) : L;
      s.fb = r.range(0, 2);
    } else if (c < 55) {                          // damaged bytes
      for (int d = (int)r.range(1, 2); d > 0 && !s.s.empty(); d--) {
        size_t at = (size_t)r.below((i64)s.s.size());
        switch (r.below(6)) {
          case 5: s.s.insert(at, r.pick({"99999", "9999999999", "99999999999999999999", "e400", "1e", "-", "0x1F"})); break;
          case 0: s.s[at] = (char)(s.s[at] ^ (1 << r.below(8))); break;
          case 1: s.s.erase(at, 1); break;
          case 2: s.s.insert(at, 1, r.pick({',', '{', '}', 'a', ' ', '-', '1', '\0', '.', 'e', '\xff'})); break;
          case 3: s.s[at] = r.pick({',', '{', '}', 'x', ' ', '-', '9', '\0', '+'}); break;
          default: s.s.erase(at, (size_t)r.range(1, 6)); break;
        }
      }
    } else if (c < 75) {
      s.fk = (int)r.pick<i64>({F_OOM_SCAN, F_OOM_ONE, F_OOM_FROM, F_OOM_SIZE});
      s.fa = s.fk == F_OOM_SIZE ? r.pick<i64>({17, 65, 257}) : r.skew(8);
    }
    if (r.chance(25) && (!s.fk || s.fk == F_STREAM) && c >= 55) s.op = 1;   // the text comes from the library's own printing
    s.a[5] = r.below(4);                          // elements the target already holds
    p.steps.push_back(s);
  }
}
template <class M> static void exec7k(const Plan& p) {
  typedef std::vector<M> MV;
  typedef typename Lb<MV>::type LV;
  LV* target = nullptr;
  auto quiet = [&](const std::function<void()>& f) {
    CallInfo ci = call(f);
    SIM_CHECK(ci.out == O_OK, "observation-failed", "a harmless call ended with %s %s", outcomeName(ci.out), ci.what.c_str());
  };
  quiet([&] { target = new LV; });
  for (const Step& plan : p.steps) {
    Step s = plan;
    std::vector<MV> sent;
    if (s.op == 1) {
      std::istringstream in(s.s);
      MV v;
      while ((int)sent.size() < s.a[0] && rd(in, v)) sent.push_back(v);
      s.a[0] = (i64)sent.size();
      s.s.clear();
      for (auto& x : sent) {
        LV lv = toLib(x);
        quiet([&] { std::ostringstream os; os.exceptions(std::ios::badbit); os << lv; Out o; s.s += os.str(); });
        if (plan.a[2] & 1) s.s += "\n";
      }
      g_run->log("printed %s", clip(s.s).c_str());
    }
    int fault_k = s.fk == F_STREAM ? (int)s.fb : SRC_EOF;
    size_t stop = s.fk == F_STREAM ? (size_t)s.fa : s.s.size();
    std::string heard = s.s.substr(0, std::min(stop, s.s.size()));
    std::istringstream ref(heard);
    Source src(s.s, stop, fault_k, (int)s.a[1], (u64)s.a[2]);
    std::istream is(&src);
    if (s.a[4]) is.setstate(s.a[4] == 1 ? std::ios::failbit : std::ios::badbit);
    quiet([&] { for (int i = 0; i < (int)s.a[5]; i++) target->push(typename Lb<M>::type()); });
    if (s.a[3]) {
      try { is.exceptions((s.a[3] & 1 ? std::ios::badbit : std::ios::goodbit) | (s.a[3] & 2 ? std::ios::failbit : std::ios::goodbit) | (s.a[3] & 4 ? std::ios::eofbit : std::ios::goodbit)); }
      catch (std::ios_base::failure&) { continue; }
    }
    int oom = s.fk >= F_OOM_ONE && s.fk != F_STREAM ? s.fk : 0;
    for (int n = 0; n < (int)s.a[0]; n++) {
      MV want;
      bool ok = !s.a[4] && rd(ref, want);
      if (s.op == 1 && !s.a[4]) { SIM_CHECK(ok && want == sent[(size_t)n], "wrong-text", "the printed text %s is not that of the vector", clip(s.s).c_str()); }
      size_t upto = ok ? (size_t)ref.tellg() : 0;
      Arm arm;
      // memory exhaustion strikes one read of the stream; what follows is then unknown
      bool armed = oom && n == (int)(s.a[0] - 1);
      if (armed) {
        arm.kind = oom == F_OOM_SCAN ? F_OOM_ONE : oom;
        arm.k = s.fa;
      }
      takeStderr();
      LV old(*target);
      CallInfo ci = call(arm, [&] { is >> *target; });
      g_run->log("read %zu of %s: %s%s", upto, clip(heard).c_str(), outcomeName(ci.out), ci.fired ? " (fault)" : "");
      std::string err = takeStderr();
      if (ci.out == O_BADALLOC) {
        SIM_CHECK(ci.fired, "spurious-failure", "reading %s ran out of memory without a fault", clip(heard).c_str());
        bool pre = prefix<M>(*target, want) || show(*target) == show(old);
        SIM_CHECK(pre, "wrong-elements", "after memory ran out the vector holds elements that were not read");
        break;
      }
      if (ci.out == O_EXIT) {
        // a number conversion that runs out of memory fails the stream, which is reported like any failure
        SIM_CHECK(!ok || (armed && ci.fired && !src.hit), "refused-valid", "reading the valid text %s ended the process: %s", clip(heard).c_str(), clip(err).c_str());
        SIM_CHECK(ci.exitCode != 0, "wrong-status", "the process ended with status %d", ci.exitCode);
        SIM_CHECK(!err.empty(), "no-diagnostic", "the process ended without a diagnostic");
        probe("read_reported");
        return;
      }
      if (ci.out == O_OTHER) {
        SIM_CHECK((!ok || (armed && ci.fired && !src.hit)) && s.a[3], "wrong-failure", "reading %s ended with exception %s", clip(heard).c_str(), ci.what.c_str());
        probe("read_exception");
        break;
      }
      SIM_CHECK(ci.out == O_OK, "wrong-failure", "reading ended with %s", outcomeName(ci.out));
      SIM_CHECK(ok, "accepted-invalid", "reading %s returned a vector of %d elements", clip(heard).c_str(), target->size());
      SIM_CHECK(same<M>(*target, want), "wrong-elements", "reading %s gave %d elements, the text has %zu", clip(heard).c_str(), target->size(), want.size());
      g_run->log("%d elements", target->size());
      SIM_CHECK(is.good(), "wrong-state", "a complete vector was read and the stream is not good");
      SIM_CHECK(src.consumed() == upto, "wrong-position", "a vector of %zu bytes was read and %zu bytes are gone", upto, src.consumed());
    }
  }
  quiet([&] { delete target; });
  SIM_CHECK(liveBlocks() == 0, "leak", "%zu blocks survive: %s", liveBlocks(), describeLive().c_str());
}
static void exec7(const Plan& p) {
  byKind((int)p.get("kind"), [&](auto proto) { exec7k<typename decltype(proto)::value_type>(p); });
}

// ================================================================== C14
enum { V_INT, V_LL, V_DBL, V_CHR, V_STR, V_NEST, V_JSON, V_BIG, V_FRAC, V_MAT, V_PT2, V_PT3, V_FVEC, V_N };
static void gen14(Rng& r, Plan& p) {
  int n = (int)r.range(1, 10);
  p.cfg["exceptions"] = r.chance(25) ? r.range(1, 3) : 0;
  p.cfg["format"] = r.chance(25) ? r.range(1, 5) : 0;
  for (int i = 0; i < n; i++) {
    Step s;
    s.op = (int)r.below(V_N);
    s.a[0] = (i64)(r.next() >> 1);            // seed of the value
    s.a[1] = r.chance(60);                    // clear the stream after a failure
    int c = (int)r.below(100);
    if (c < 55) {
      s.fk = F_STREAM;
      s.fa = r.range(SNK_FAIL, SNK_THROW);
      s.fb = r.chance(2) ? r.below(3000) : r.skew(r.chance(20) ? 300 : 40);
      s.a[2] = r.chance(50);                  // the sink fails only once
    } else if (c < 75) {
      s.fk = (int)r.pick<i64>({F_OOM_SCAN, F_OOM_ONE, F_OOM_FROM, F_OOM_SIZE});
      s.fa = s.fk == F_OOM_SIZE ? r.pick<i64>({17, 65, 257}) : r.skew(8);
    }
    s.a[3] = r.chance(5) ? r.range(1, 7) : 0;   // state the stream is in beforehand
    p.steps.push_back(s);
  }
}
struct Val {
  std::string text;                      // known text under default formatting, if set
  bool known = false;
  std::function<void(std::ostream&)> print;
  std::function<bool()> intact;
  std::function<void()> drop;
};
template <class M> static Val vecVal(Rng& r) {
  typedef typename Lb<std::vector<M>>::type LV;
  auto model = std::make_shared<std::vector<M>>();
  int len = (int)r.skew(r.chance(15) ? 60 : 8);
  if (r.below(200) == 0) len = (int)r.pick({100, 128, 256, 300, 1025});
  for (int i = 0; i < len; i++) model->push_back(Gen<M>::one(r));
  LV* v = new LV(toLib(*model));
  Val x;
  x.text = show(*model);
  x.known = true;
  x.print = [v](std::ostream& os) { os << *v; };
  x.intact = [v, model] { return same<M>(*v, *model); };
  x.drop = [v] { delete v; };
  return x;
}
static std::string anyBytes(Rng& r) {
  std::string t = Gen<std::string>::one(r);
  int c = (int)r.below(10);
  if (c < 3) t += "\"\n\\";
  if (c >= 2 && c < 5)
    for (int n = (int)r.range(1, 6); n > 0; n--) t.insert(t.begin() + r.below((i64)t.size() + 1), r.chance(40) ? '\0' : (char)r.below(256));
  return t;
}
static cuhksz::JSONObject mkJson(Rng& r, int depth) {
  using cuhksz::JSONObject;
  switch (r.below(depth > 2 ? 5 : 8)) {
    case 0: return JSONObject();
    case 1: return JSONObject((int)r.range(-99999, 99999));
    case 2: return JSONObject((double)r.range(-999, 999) / 8);
    case 3: return JSONObject(r.chance(50));
    case 4: return JSONObject(anyBytes(r));
    case 5: case 6: { JSONObject o = JSONObject::Array(); for (int n = (int)r.skew(5); n > 0; n--) o.append(mkJson(r, depth + 1)); return o; }
    default: { JSONObject o = JSONObject::Object(); for (int n = (int)r.skew(5); n > 0; n--) { o[anyBytes(r)] = mkJson(r, depth + 1); } return o; }
  }
}
template <class T> static Val plain(T* v, const std::string& text, bool known) {
  Val x;
  x.text = text;
  x.known = known;
  x.print = [v](std::ostream& os) { os << *v; };
  x.intact = [] { return true; };
  x.drop = [v] { delete v; };
  return x;
}
static Val mkVal(int op, u64 seed) {
  Rng r(seed);
  using namespace cuhksz;
  switch (op) {
    case V_INT: return vecVal<int>(r);
    case V_LL: return vecVal<long long>(r);
    case V_DBL: return vecVal<double>(r);
    case V_CHR: return vecVal<char>(r);
    case V_STR: return vecVal<std::string>(r);
    case V_NEST: return vecVal<std::vector<int>>(r);
    case V_JSON: {
      JSONObject* j = new JSONObject(mkJson(r, 0));
      return plain(j, j->dump(), true);
    }
    case V_BIG: {
      int64_t v = (int64_t)r.next() >> r.below(60);
      if (v == 0) v = 7;
      if (r.chance(50)) {
        std::string t(1, (char)('1' + r.below(9)));
        for (int n = (int)r.skew(100); n > 0; n--) t += r.chance(40) ? '0' : (char)('0' + r.below(10));
        if (r.chance(40)) t = "-" + t;
        return plain(new BigNum<120>(t), t, true);
      }
      return plain(new BigNum<40>(v), std::to_string(v), true);
    }
    case V_FRAC: {
      int n = (int)r.range(-99, 99), d = (int)r.range(1, 30), g = 1;
      for (int i = 1; i <= 30; i++) if (n % i == 0 && d % i == 0) g = i;
      if (n == 0) g = d;
      return plain(new Fraction(n, d), std::to_string(n / g) + "/" + std::to_string(d / g), true);
    }
    case V_MAT: {
      int row = (int)r.range(1, r.chance(5) ? 12 : 3), col = (int)r.range(1, r.chance(5) ? 12 : 4);
      Matrix<double>* m = new Matrix<double>(row, col);
      std::string t;
      for (int i = 0; i < row; i++) for (int j = 0; j < col; j++) { double d = (double)r.range(-99, 99) / 4; (*m)[i][j] = d; t += std::to_string(d) + (j + 1 < col ? ", " : "\n"); }
      return plain(m, t, true);
    }
    case V_PT2: { double a = Gen<double>::one(r), b = Gen<double>::one(r); return plain(new Point<2>(a, b), "(" + show(a) + ", " + show(b) + ")", true); }
    case V_PT3: { double a = Gen<double>::one(r), b = Gen<double>::one(r), c = Gen<double>::one(r); return plain(new Point<3>(a, b, c), "(" + show(a) + ", " + show(b) + ", " + show(c) + ")", true); }
    default: {
      Vector<Fraction>* v = new Vector<Fraction>;
      std::string t = "{";
      int n = (int)r.skew(6);
      for (int i = 0; i < n; i++) { int a = (int)r.range(-9, 9); v->push(Fraction(a)); t += (i ? ", " : "") + std::to_string(a) + "/1"; }
      return plain(v, t + "}", true);
    }
  }
}
static void setFormat(std::ostream& os, int f) {
  switch (f) {
    case 1: os.precision(12); break;
    case 2: os << std::hex << std::showbase; break;
    case 3: os << std::fixed; os.precision(2); break;
    case 4: os << std::scientific << std::uppercase; break;
    case 5: os << std::showpos; os.fill('*'); break;
  }
}
static const char* vname(int op) {
  static const char* n[] = {"vector of int", "vector of long long", "vector of double", "vector of char", "vector of string", "nested vector", "JSON value", "big number", "fraction", "matrix", "point", "point in space", "vector of fractions"};
  return n[op];
}
static void exec14(const Plan& p) {
  Sink sink;
  std::ostream os(&sink);
  int fmt = (int)p.get("format"), exc = (int)p.get("exceptions");
  setFormat(os, fmt);
  if (exc) os.exceptions((exc & 1 ? std::ios::badbit : std::ios::goodbit) | (exc & 2 ? std::ios::failbit : std::ios::goodbit));
  auto quiet = [&](const std::function<void()>& f) {
    CallInfo ci = call(f);
    SIM_CHECK(ci.out == O_OK, "observation-failed", "a harmless call ended with %s %s", outcomeName(ci.out), ci.what.c_str());
  };
  for (const Step& s : p.steps) {
    Val v;
    quiet([&] { v = mkVal(s.op, (u64)s.a[0]); });
    // the whole text, from a stream that never fails
    std::string whole;
    auto fresh = [&](const char* when) {
      Sink k;
      std::ostream o(&k);
      setFormat(o, fmt);
      quiet([&] { v.print(o); });
      SIM_CHECK(o.good(), "wrong-state", "printing a %s to a working stream failed", vname(s.op));
      if (*when == 'b') whole = k.got;
      SIM_CHECK(k.got == whole, "value-changed", "printing a %s again gave %s, before %s", vname(s.op), clip(k.got).c_str(), clip(whole).c_str());
      SIM_CHECK(v.intact(), "value-changed", "printing changed a %s", vname(s.op));
    };
    fresh("before");
    if (v.known && !fmt) SIM_CHECK(whole == v.text, "wrong-text", "a %s prints as %s, expected %s", vname(s.op), clip(whole).c_str(), clip(v.text).c_str());
    auto attempt = [&](Arm arm) {
      bool good = os.good();
      std::ios::iostate before = os.rdstate();
      auto flags = os.flags();
      auto prec = os.precision();
      auto fill = os.fill();
      size_t from = sink.got.size();
      sink.hit = false;
      CallInfo ci = call(arm, [&] { v.print(os); });
      std::string d = sink.got.substr(from);
      g_run->log("%s: %s%s %zu of %zu bytes, state %d", vname(s.op), outcomeName(ci.out), ci.fired ? " (memory)" : "", d.size(), whole.size(), (int)os.rdstate());
      SIM_CHECK(flags == os.flags() && prec == os.precision() && fill == os.fill(), "format-changed", "printing a %s changed the formatting of the stream", vname(s.op));
      SIM_CHECK((os.rdstate() & before) == before, "state-cleared", "printing a %s cleared the error state of the stream", vname(s.op));
      SIM_CHECK(whole.compare(0, d.size(), d) == 0, "not-a-prefix", "printing a %s delivered %s, whole text %s", vname(s.op), clip(d).c_str(), clip(whole).c_str());
      if (ci.out == O_BADALLOC) {
        SIM_CHECK(ci.fired, "spurious-failure", "printing a %s ran out of memory without a fault", vname(s.op));
      } else if (ci.out == O_OTHER) {
        SIM_CHECK(exc, "wrong-failure", "printing a %s ended with exception %s", vname(s.op), ci.what.c_str());
        SIM_CHECK(!os.good(), "wrong-failure", "printing a %s ended with exception %s and the stream is good", vname(s.op), ci.what.c_str());
      } else {
        SIM_CHECK(ci.out == O_OK, "wrong-failure", "printing a %s ended with %s %s", vname(s.op), outcomeName(ci.out), ci.what.c_str());
      }
      if (before == std::ios::eofbit) {
        // neither good nor failed: either nothing or everything
      } else if (!good) {
        SIM_CHECK(d.empty(), "wrote-to-failed-stream", "printing a %s delivered bytes to a failed stream", vname(s.op));
      } else if (ci.out == O_OK && os.good()) {
        SIM_CHECK(d == whole, "silent-truncation", "printing a %s delivered %zu of %zu bytes and the stream is good", vname(s.op), d.size(), whole.size());
        SIM_CHECK(!sink.hit, "silent-failure", "a write failed while printing a %s and the stream is good", vname(s.op));
      } else if (!os.good()) {
        SIM_CHECK(sink.hit || ci.fired, "spurious-failure", "printing a %s failed the stream without a fault", vname(s.op));
      }
      fresh("after");
      return ci.out == O_OK && os.good();
    };
    sink.arm(SNK_OK, 0, false);
    if (s.a[3]) {
      quiet([&] {
        auto mask = os.exceptions();
        os.exceptions(std::ios::goodbit);
        os.clear((s.a[3] & 1 ? std::ios::badbit : std::ios::goodbit) | (s.a[3] & 2 ? std::ios::failbit : std::ios::goodbit) | (s.a[3] & 4 ? std::ios::eofbit : std::ios::goodbit));
        try { os.exceptions(mask); } catch (std::ios::failure&) {}
      });
    }
    if (s.fk == F_OOM_SCAN) {
      bool done = false;
      for (int j = 0; j < 200 && !done; j++) {
        Arm a;
        a.kind = F_OOM_ONE;
        a.k = j;
        done = attempt(a);
        if (!os.good()) { if (s.a[1]) os.clear(); else break; }
      }
    } else {
      Arm a;
      if (s.fk == F_STREAM) sink.arm((int)s.fa, s.fb, s.a[2] != 0);
      else if (s.fk) { a.kind = s.fk; a.k = s.fa; }
      attempt(a);
      if (!os.good() && s.a[1]) {
        os.clear();
        attempt(Arm());          // after a reconnection, with the sink as it is
        if (!os.good()) os.clear();
      }
      sink.arm(SNK_OK, 0, false);
    }
    quiet([&] { v.drop(); });
  }
  SIM_CHECK(liveBlocks() == 0, "leak", "%zu blocks survive: %s", liveBlocks(), describeLive().c_str());
}

#ifdef VERIF_PROP_C14
static Property PR = {"C14", gen14, exec14, nullptr};
#else
static Property PR = {"C07", gen7, exec7, nullptr};
#endif
namespace sim { Property* getProperty() { return &PR; } }
