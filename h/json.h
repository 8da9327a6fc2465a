// reference model of JSON values, and an independent parser
#ifndef H_JSON_H_
#define H_JSON_H_
#include "../mc/seq.h"
#include <cmath>
#include <sstream>
#include <text/json.h>
typedef std::string S;
namespace pj = pfi::text::json;
struct V {
  char t;  // n i f b s a o
  int64_t i; double d; S s; std::vector<V> a; std::vector<std::pair<S, V> > o;
  V() : t('n'), i(0), d(0) {}
  static V I(int64_t x) { V v; v.t = 'i'; v.i = x; return v; }
  static V F(double x) { V v; v.t = 'f'; v.d = x; return v; }
  static V B(bool x) { V v; v.t = 'b'; v.i = x; return v; }
  static V Str(const S &x) { V v; v.t = 's'; v.s = x; return v; }
  static V A(const std::vector<V> &x = std::vector<V>()) { V v; v.t = 'a'; v.a = x; return v; }
  static V O() { V v; v.t = 'o'; return v; }
  V &set(const S &k, const V &x) { for (auto &p : o) if (p.first == k) { p.second = x; return *this; } o.push_back(std::make_pair(k, x)); return *this; }
  const V *find(const S &k) const { for (auto &p : o) if (p.first == k) return &p.second; return 0; }
};
inline bool eq(const V &x, const V &y) {   // exact
  if (x.t != y.t) return false;
  switch (x.t) {
    case 'i': case 'b': return x.i == y.i;
    case 'f': return x.d == y.d;
    case 's': return x.s == y.s;
    case 'a': if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); i++) if (!eq(x.a[i], y.a[i])) return false; return true;
    case 'o': if (x.o.size() != y.o.size()) return false; for (auto &p : x.o) { const V *q = y.find(p.first); if (!q || !eq(p.second, *q)) return false; } return true;
  }
  return true;
}
inline S str(const V &v) {
  char b[64];
  switch (v.t) {
    case 'n': return "null";
    case 'i': snprintf(b, sizeof b, "%lld", (long long)v.i); return b;
    case 'b': return v.i ? "true" : "false";
    case 'f': snprintf(b, sizeof b, "float(%.17g)", v.d); return b;
    case 's': return seq::show(v.s);
    case 'a': { S r = "["; for (auto &x : v.a) r += str(x) + ","; return r + "]"; }
    default: { S r = "{"; for (auto &x : v.o) r += seq::show(x.first) + ":" + str(x.second) + ","; return r + "}"; }
  }
}
inline pj::json to_pfi(const V &v) {
  switch (v.t) {
    case 'n': return pj::json();
    case 'i': return pj::json(new pj::json_integer(v.i));
    case 'f': return pj::json(new pj::json_float(v.d));
    case 'b': return pj::json(new pj::json_bool(v.i));
    case 's': return pj::json(new pj::json_string(v.s));
    case 'a': { pj::json j(new pj::json_array()); for (auto &x : v.a) j.add(to_pfi(x)); return j; }
    default: { pj::json j(new pj::json_object()); for (auto &x : v.o) j.add(x.first, to_pfi(x.second)); return j; }
  }
}
inline V of_pfi(const pj::json &j) {
  switch (j.type()) {
    case pj::json::Null: return V();
    case pj::json::Integer: return V::I(static_cast<pj::json_integer *>(j.get())->get());
    case pj::json::Float: return V::F(static_cast<pj::json_float *>(j.get())->get());
    case pj::json::Bool: return V::B(static_cast<pj::json_bool *>(j.get())->get());
    case pj::json::String: return V::Str(static_cast<pj::json_string *>(j.get())->get());
    case pj::json::Array: { V v = V::A(); for (size_t i = 0; i < j.size(); i++) v.a.push_back(of_pfi(j[i])); return v; }
    case pj::json::Object: { V v = V::O(); for (pj::json::const_iterator it = const_cast<const pj::json &>(j).begin(); it != const_cast<const pj::json &>(j).end(); ++it) v.o.push_back(std::make_pair(it->first, of_pfi(it->second))); return v; }
  }
  return V();
}
inline void put_utf8(S &r, uint32_t c) {
  if (c < 0x80) r += (char)c;
  else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
  else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
}
inline bool valid_utf8(const S &s) {
  for (size_t i = 0; i < s.size();) {
    unsigned c = (unsigned char)s[i]; int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : (c & 0xf0) == 0xe0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if (n < 0 || i + n >= s.size()) return false;
    uint32_t u = n == 0 ? c : c & (0x3f >> n);
    for (int k = 1; k <= n; k++) { unsigned d = (unsigned char)s[i + k]; if ((d & 0xc0) != 0x80) return false; u = u << 6 | (d & 63); }
    if ((n == 2 && (u < 0x800 || (u >= 0xd800 && u < 0xe000))) || (n == 3 && (u < 0x10000 || u > 0x10ffff))) return false;
    i += n + 1;
  }
  return true;
}
// independent parser; throws Bad (not JSON) or Unspec (malformed or out-of-range number: no claim)
struct Bad {}; struct Unspec {};
struct Ref {
  const S &s; size_t p; std::vector<S> *ev;
  explicit Ref(const S &s, std::vector<S> *ev = 0) : s(s), p(0), ev(ev) {}
  int pk() const { return p < s.size() ? (unsigned char)s[p] : -1; }
  void ws() { while (pk() == ' ' || pk() == '\t' || pk() == '\n' || pk() == '\r') p++; }
  bool done() { ws(); return p >= s.size(); }
  void e(const S &x) { if (ev) ev->push_back(x); }
  V val() {
    ws();
    int c = pk();
    if (c == '[') {
      p++; e("["); V r = V::A(); ws();
      if (pk() == ']') { p++; e("]"); return r; }
      for (;;) { r.a.push_back(val()); ws(); if (pk() == ',') { p++; continue; } if (pk() == ']') { p++; e("]"); return r; } throw Bad(); }
    }
    if (c == '{') {
      p++; e("{"); V r = V::O(); ws();
      if (pk() == '}') { p++; e("}"); return r; }
      for (;;) {
        ws(); S k = strg(); e("k" + k); ws(); if (pk() != ':') throw Bad(); p++;
        V x = val(); r.set(k, x); ws();
        if (pk() == ',') { p++; continue; } if (pk() == '}') { p++; e("}"); return r; } throw Bad();
      }
    }
    if (c == '"') { S x = strg(); e("s" + x); return V::Str(x); }
    if (lit("true")) { e("true"); return V::B(true); }
    if (lit("false")) { e("false"); return V::B(false); }
    if (lit("null")) { e("null"); return V(); }
    if (c == '-' || (c >= '0' && c <= '9')) return num();
    throw Bad();
  }
  bool lit(const char *w) { size_t n = strlen(w); if (s.compare(p, n, w) == 0) { p += n; return true; } return false; }
  bool dig() const { return pk() >= '0' && pk() <= '9'; }
  V num() {
    size_t b = p; bool fr = false;
    if (pk() == '-') p++;
    if (!dig()) throw Unspec();
    if (pk() == '0') { p++; if (dig()) throw Unspec(); } else while (dig()) p++;
    if (pk() == '.') { fr = true; p++; if (!dig()) throw Unspec(); while (dig()) p++; }
    if (pk() == 'e' || pk() == 'E') { fr = true; p++; if (pk() == '+' || pk() == '-') p++; if (!dig()) throw Unspec(); while (dig()) p++; }
    S t = s.substr(b, p - b);
    if (pk() == '.' || pk() == 'e' || pk() == 'E' || pk() == '-' || pk() == '+') throw Unspec();
    if (fr) { double d = strtod(t.c_str(), 0); if (!std::isfinite(d) || (std::fabs(d) < 2.3e-308 && t.find_first_of("123456789") < t.find_first_of("eE"))) throw Unspec(); char q[64]; snprintf(q, sizeof q, "f%.17g", d); e(q); return V::F(d); }
    bool neg = t[0] == '-'; __int128 v = 0;
    for (char ch : t) if (ch != '-') { v = v * 10 + (ch - '0'); if (v > ((__int128)1 << 70)) throw Bad(); }
    if (neg) v = -v;
    if (v > INT64_MAX || v < INT64_MIN) throw Bad();   // reported, never wrapped
    e("i" + std::to_string((long long)v));
    return V::I((int64_t)v);
  }
  int hex4() { int r = 0; for (int i = 0; i < 4; i++) { int c = pk(); p++; if (c >= '0' && c <= '9') r = r * 16 + c - '0'; else if (c >= 'a' && c <= 'f') r = r * 16 + c - 'a' + 10; else if (c >= 'A' && c <= 'F') r = r * 16 + c - 'A' + 10; else throw Bad(); } return r; }
  S strg() {
    if (pk() != '"') throw Bad();
    p++; S r;
    for (;;) {
      int c = pk(); if (c < 0 || c < 0x20) throw Bad();
      p++;
      if (c == '"') return r;
      if (c != '\\') { r += (char)c; continue; }
      c = pk(); p++;
      switch (c) {
        case '"': case '\\': case '/': r += (char)c; break;
        case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
        case 'u': { int u = hex4(); if (u >= 0xdc00 && u <= 0xdfff) throw Bad(); if (u >= 0xd800 && u <= 0xdbff) { if (pk() != '\\') throw Bad(); p++; if (pk() != 'u') throw Bad(); p++; int l = hex4(); if (l < 0xdc00 || l > 0xdfff) throw Bad(); put_utf8(r, 0x10000 + (u - 0xd800) * 0x400 + (l - 0xdc00)); } else put_utf8(r, u); break; }
        default: throw Bad();
      }
    }
  }
};
#endif
