// Reference model of JSON values, independent of the library.
#ifndef VERIF_JMODEL_H
#define VERIF_JMODEL_H
#include "sim.h"
#include "json/Json.h"
namespace jm {
using namespace sim;
enum T { NUL, OBJ, ARR, STR, FLT, INT, BOOL };
struct J {
  int t = NUL;
  std::string s;
  double f = 0;
  int i = 0;
  bool b = false;
  std::vector<J> a;
  std::map<std::string, J> o;
};
inline J jn() { return J(); }
inline J ji(int i) { J j; j.t = INT; j.i = i; return j; }
inline J jf(double f) { J j; j.t = FLT; j.f = f; return j; }
inline J jb(bool b) { J j; j.t = BOOL; j.b = b; return j; }
inline J js(const std::string& s) { J j; j.t = STR; j.s = s; return j; }
inline J jt(int t) { J j; j.t = t; return j; }
inline bool closeTo(double a, double b) { return a == b || std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b)); }
inline bool eq(const J& x, const J& y) {
  if (x.t != y.t) return false;
  switch (x.t) {
    case STR: return x.s == y.s;
    case FLT: return closeTo(x.f, y.f) || (x.f != x.f && y.f != y.f);
    case INT: return x.i == y.i;
    case BOOL: return x.b == y.b;
    case ARR:
      if (x.a.size() != y.a.size()) return false;
      for (size_t k = 0; k < x.a.size(); k++) if (!eq(x.a[k], y.a[k])) return false;
      return true;
    case OBJ: {
      if (x.o.size() != y.o.size()) return false;
      auto p = x.o.begin();
      auto q = y.o.begin();
      for (; p != x.o.end(); ++p, ++q) if (p->first != q->first || !eq(p->second, q->second)) return false;
      return true;
    }
  }
  return true;
}
inline std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    switch (c) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\b': o += "\\b"; break;
      case '\f': o += "\\f"; break;
      case '\n': o += "\\n"; break;
      case '\r': o += "\\r"; break;
      case '\t': o += "\\t"; break;
      default: o += c;
    }
  }
  return o;
}
// compact form for messages and for telling values apart
inline std::string show(const J& x) {
  switch (x.t) {
    case NUL: return "null";
    case STR: return "\"" + esc(x.s) + "\"";
    case FLT: { char b[64]; snprintf(b, sizeof b, "%.12g", x.f); return b; }
    case INT: return std::to_string(x.i);
    case BOOL: return x.b ? "true" : "false";
    case ARR: { std::string r = "["; for (size_t k = 0; k < x.a.size(); k++) r += (k ? "," : "") + show(x.a[k]); return r + "]"; }
    default: { std::string r = "{"; bool f = true; for (auto& p : x.o) { r += (f ? "" : ",") + ("\"" + esc(p.first) + "\":") + show(p.second); f = false; } return r + "}"; }
  }
}
inline std::string cut(const std::string& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
inline size_t weight(const J& x) {
  size_t n = 1;
  for (auto& e : x.a) n += weight(e);
  for (auto& p : x.o) n += weight(p.second);
  return n;
}
// what dump() is documented to print
inline std::string dumpModel(const J& x, int depth, const std::string& tab) {
  std::string pad;
  for (int i = 0; i < depth; i++) pad += tab;
  switch (x.t) {
    case FLT: return std::to_string(x.f);
    case ARR: { std::string r = "["; for (size_t k = 0; k < x.a.size(); k++) r += (k ? ", " : "") + dumpModel(x.a[k], depth + 1, tab); return r + "]"; }
    case OBJ: {
      std::string r = "{\n";
      bool f = true;
      for (auto& p : x.o) { r += (f ? "" : ",\n") + pad + "\"" + esc(p.first) + "\" : " + dumpModel(p.second, depth + 1, tab); f = false; }
      return r + "\n" + pad.erase(0, 2) + "}";
    }
    default: return show(x);
  }
}
inline std::string unescape(const std::string& s) {   // inverse of esc
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\' || i + 1 >= s.size()) { o += s[i]; continue; }
    switch (s[++i]) {
      case 'b': o += '\b'; break;
      case 'f': o += '\f'; break;
      case 'n': o += '\n'; break;
      case 'r': o += '\r'; break;
      case 't': o += '\t'; break;
      default: o += s[i];
    }
  }
  return o;
}
inline int typeOf(const cuhksz::JSONObject& x) {
  typedef cuhksz::JSONObject::Type Ty;
  switch (x.getType()) {
    case Ty::Null: return NUL;
    case Ty::Object: return OBJ;
    case Ty::Array: return ARR;
    case Ty::String: return STR;
    case Ty::Float: return FLT;
    case Ty::Integral: return INT;
    case Ty::Boolean: return BOOL;
  }
  violate("corrupt-value", "a JSON value has an impossible type");
}
// reads a value through its public accessors and cross-checks them
inline J read(cuhksz::JSONObject& x) {
  const cuhksz::JSONObject& c = x;
  J j;
  j.t = typeOf(x);
  SIM_CHECK(c.isNull() == (j.t == NUL), "views-differ", "isNull disagrees with the type");
  SIM_CHECK((int)c.toBool() == (j.t == BOOL ? (int)(bool)c : 0) && c.toInt() == (j.t == INT ? (int)c : 0), "views-differ", "conversions disagree");
  switch (j.t) {
    case STR: j.s = unescape(c.toString()); SIM_CHECK((std::string)c == c.toString(), "views-differ", "the conversion to a string disagrees with toString"); break;
    case FLT: SIM_CHECK(((double)c == c.toDouble() && (float)c == c.toFloat()) || c.toDouble() != c.toDouble(), "views-differ", "the conversion to a number disagrees with toDouble"); j.f = c.toDouble(); SIM_CHECK((float)j.f == c.toFloat() || j.f != j.f, "views-differ", "toFloat disagrees with toDouble"); break;
    case INT: j.i = c.toInt(); break;
    case BOOL: j.b = c.toBool(); break;
    case ARR: {
      for (auto& e : x.ArrayRange()) j.a.push_back(read(e));
      size_t k = 0;
      auto range = c.ArrayRange();
      for (auto it = range.begin(); it != range.end(); ++it, ++k)
        SIM_CHECK(k < j.a.size() && &*it == &c.at((unsigned)k), "views-differ", "array iteration and index access disagree");
      SIM_CHECK(k == j.a.size() && c.length() == (int)k && c.size() == (int)k, "views-differ", "array iteration and length disagree");
      break;
    }
    case OBJ: {
      for (auto& e : x.ObjectRange()) {
        SIM_CHECK(j.o.emplace(e.first, read(e.second)).second, "views-differ", "a key occurs twice");
        SIM_CHECK(c.hasKey(e.first) && &c.at(e.first) == &e.second, "views-differ", "object iteration and lookup disagree");
      }
      SIM_CHECK(c.size() == (int)j.o.size() && c.length() == -1, "views-differ", "object iteration and size disagree");
      break;
    }
    default: break;
  }
  size_t other = 0;
  if (j.t != ARR) { for (auto& e : x.ArrayRange()) (void)e, other++; for (auto& e : c.ArrayRange()) (void)e, other++; }
  if (j.t != OBJ) { for (auto& e : x.ObjectRange()) (void)e, other++; for (auto& e : c.ObjectRange()) (void)e, other++; }
  SIM_CHECK(!other, "views-differ", "a value that is no container has elements to iterate");
  if (j.t != ARR && j.t != OBJ) SIM_CHECK(c.size() == -1 && c.length() == -1 && !c.hasKey("a"), "views-differ", "a plain value pretends to have members");
  return j;
}
}  // namespace jm
#endif
