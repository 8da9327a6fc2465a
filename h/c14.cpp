// C14: JSON printing: every value, printed in any mode, is JSON text that denotes that value again
#include "json.h"
#include <text/json.h>
static bool near(const V &w, const V &g) {   // what printing may change: floats keep 12 significant digits (and may come back as integers)
  if (w.t == 'f') { double d = g.t == 'i' ? (double)g.i : g.t == 'f' ? g.d : NAN; return d == w.d || std::fabs(d - w.d) <= 5.0001e-12 * std::fabs(w.d); }
  if (w.t != g.t) return false;
  if (w.t == 'a') { if (w.a.size() != g.a.size()) return false; for (size_t i = 0; i < w.a.size(); i++) if (!near(w.a[i], g.a[i])) return false; return true; }
  if (w.t == 'o') { if (w.o.size() != g.o.size()) return false; for (auto &p : w.o) { const V *q = g.find(p.first); if (!q || !near(p.second, *q)) return false; } return true; }
  return eq(w, g);
}
// every character beyond ASCII of the strings and keys occurs as it is
static bool raw(const V &v, const S &t) {
  auto in = [&](const S &x) { for (size_t i = 0; i < x.size();) { if (!(x[i] & 0x80)) { i++; continue; } size_t b = i; while (i < x.size() && (x[i] & 0x80)) i++; if (t.find(x.substr(b, i - b)) == S::npos) return false; } return true; };
  if (v.t == 's') return in(v.s);
  for (auto &x : v.a) if (!raw(x, t)) return false;
  for (auto &p : v.o) if (!in(p.first) || !raw(p.second, t)) return false;
  return true;
}
static void value(const V &v) {
  seq::begin_s(str(v));
  pj::json j = to_pfi(v);
  for (int mode_ = 0; mode_ < 6; mode_++) {
    int mode = mode_ < 4 ? mode_ : 3; if (mode_ == 5) mode = 1;   // 4: the tags in the other order
    std::ostringstream os; os << std::setprecision(4);
    switch (mode_) { case 0: os << j; break; case 1: os << pj::pretty(j); break; case 2: os << pj::without_escape(j); break; case 3: os << pj::without_escape(pj::pretty(j)); break; case 4: os << pj::pretty(pj::without_escape(j)); break; case 5: os << pj::pretty(pj::pretty(j)); break; }
    static const char *const mn[] = {"compact", "pretty", "compact unescaped", "pretty unescaped"};
    S t = os.str(); seq::op();
    SEQ_CHECK(os.good() && os.precision() == 4, "stream", "the output stream's state was changed");
    if (mode < 2) for (unsigned char c : t) SEQ_CHECK(c < 0x80, "ascii", "%s output contains non-ASCII bytes: %s", mn[mode], seq::show(t).c_str());
    else SEQ_CHECK(raw(v, t), "unescaped", "%s output does not contain the characters as they are: %s", mn[mode], seq::show(t).c_str());
    V r; size_t end = 0; bool ok = true;
    { Ref p(t); try { r = p.val(); ok = p.done(); } catch (Bad &) { ok = false; } catch (Unspec &) { ok = false; } }
    SEQ_CHECK(ok, "invalid", "%s output is not JSON: %s", mn[mode], seq::show(t).c_str());
    SEQ_CHECK(near(v, r), "denotes", "%s output %s denotes %s", mn[mode], seq::show(t).c_str(), str(r).c_str());
    std::istringstream is(t); pj::json k;
    try { is >> k; } catch (std::exception &e) { seq::viol("reparse", "%s output %s is rejected by the parser: %s", mn[mode], seq::show(t).c_str(), e.what()); return; }
    SEQ_CHECK(near(v, of_pfi(k)), "roundtrip", "%s output %s is read back as %s", mn[mode], seq::show(t).c_str(), str(of_pfi(k)).c_str());
    if (mode % 2 == 0) { bool in = false; for (size_t i = 0; i < t.size(); i++) { if (t[i] == '"') in = !in; else if (t[i] == '\\') i++; else if (!in) SEQ_CHECK(t[i] != ' ' && t[i] != '\n', "compact", "compact output contains white space"); } }
    seq::observe(t);
    { std::ostringstream o2; if (mode % 2 == 0) j.print(o2, mode < 2); else j.pretty(o2, mode < 2); SEQ_CHECK(o2.str() == t, "print", "print()/pretty() differs from the stream operator"); }
  }
  SEQ_CHECK(eq(of_pfi(j), v), "changed", "printing changed the value");
}
static std::vector<V> atoms(int k) {
  std::vector<V> r = {V(), V::B(true), V::I(0), V::I(-7), V::F(0.5), V::Str(""), V::Str("a\"\\/\n"), V::Str(S("x\0y", 3)), V::A(), V::O(), V::Str("\xc3\xa9\xf0\x9f\x98\x80")};
  r.resize(k); return r;
}
// all trees with at most `depth` levels over the atoms: arrays of <=w elements, objects over 2 keys
static std::vector<V> grow(const std::vector<V> &in, int w, bool obj) {
  std::vector<V> r;
  for (int n = 0; n <= w; n++) seq::tuples(in.size(), n, 0, 1, [&](const std::vector<int> &ix) { V a = V::A(); for (int i : ix) a.a.push_back(in[i]); r.push_back(a); });
  if (obj) { static const S ks[] = {"", "k\n\x01", "\xe3\x81\x82"}; for (int n = 1; n <= w; n++) seq::tuples(in.size(), n, 0, 1, [&](const std::vector<int> &ix) { V a = V::O(); for (size_t i = 0; i < ix.size(); i++) a.set(ks[i], in[ix[i]]); r.push_back(a); }); }
  return r;
}
static void reg() {
  bool th = seq::thorough;
  seq::task("strings", 8, 16, [=](int p, int n) { seq::strings({S(1, 0), "\x01", "\x1f", "\"", "\\", "/", "a", "\x7f", "\xc3\xa9", "\xf0\x9f\x98\x80", "\n", "u"}, 0, th ? 5 : 4, p, n, [](const S &s) { value(V::Str(s)); if (s.size() < 4) { V o = V::O(); o.set(s, V::Str(s)); value(o); } }); });
  seq::task("codepoints", 8, 8, [=](int p, int n) { for (int c = p; c < 0x110000; c += th ? n : n * (c < 0x3000 ? 1 : c % 64 < 3 || c % 64 > 61 ? 1 : 5)) { if (c >= 0xd800 && c < 0xe000) continue; S x; put_utf8(x, c); value(V::Str(x)); if (c < 0x300) { value(V::Str(x + "z")); V o = V::O(); o.set(x, V()); value(o); } } });
  seq::task("integers", 1, 1, [=](int, int) { for (int k = 0; k < 64; k++) for (int d = -1; d <= 1; d++) { value(V::I((int64_t)((1ull << k) + d))); value(V::I((int64_t)(0 - (1ull << k) + d))); } int64_t t = 1; for (int k = 0; k < 18; k++, t *= 10) for (int d = -1; d <= 1; d++) { value(V::I(t + d)); value(V::I(-t + d)); } });
  seq::task("floats", 8, 8, [=](int p, int n) { int q = 0; for (int e = -1020; e <= 1020; e++) for (double m : {1.0, 1.5, -1.25, 1.1, 1.999999999, -1.0000001}) if (q++ % n == p) value(V::F(std::ldexp(m, e))); for (int e = -300; e <= 300; e++) for (double m : {1.0, -2.5, 9.99999999999, 1.23456789012, 5.00000000001}) if (q++ % n == p) value(V::F(m * std::pow(10.0, e))); for (int a = -50; a <= 50; a++) for (double s : {1.0, 0.1, 0.01, 0.125, 1e10, 1e12, 1e13, 1e17}) if (q++ % n == p) value(V::F(a * s)); });
  seq::task("trees1", 8, 8, [=](int p, int n) { std::vector<V> t = grow(atoms(11), 3, true); for (size_t i = p; i < t.size(); i += n) value(t[i]); });
  seq::task("trees2", 8, 16, [=](int p, int n) { std::vector<V> t1 = grow(atoms(th ? 4 : 3), 1, true); auto a = atoms(11); t1.push_back(a[10]); t1.push_back(a[6]); t1.push_back(a[4]); t1.push_back(a[9]); std::vector<V> t2 = grow(t1, 2, true); for (size_t i = p; i < t2.size(); i += n) value(t2[i]); });
  seq::task("trees3", 8, 16, [=](int p, int n) { std::vector<V> t1 = grow({V(), V::I(1)}, 1, true), t2 = grow(t1, 1, true); t2.resize(std::min<size_t>(t2.size(), 14)); std::vector<V> t3 = grow(t2, 3, true), t4; for (size_t i = p; i < t3.size(); i += n) value(t3[i]); });
  seq::task("deep", 1, 1, [=](int, int) { V a = V::I(1), o = V::Str("x"); for (int d = 0; d < 40; d++) { value(a); value(o); V b = V::A(); b.a.push_back(a); b.a.push_back(V()); a = b; V q = V::O(); q.set("k", o); q.set("l", V::B(false)); o = q; } });
  seq::task("not finite", 1, 1, [=](int, int) { for (double d : {(double)INFINITY, -(double)INFINITY, (double)NAN, -(double)NAN}) for (int how = 0; how < 4; how++) { seq::begin("a JSON value from %g, way %d", d, how); seq::op(); bool th = false; S t;
    try { pj::json j; if (how == 0) j = pj::json(new pj::json_float(d)); else if (how == 1) j = pj::to_json(d); else if (how == 2) j = pj::to_json((float)d); else j = pj::to_json(std::vector<double>(1, d)); std::ostringstream os; os << j; t = os.str(); } catch (const std::bad_cast &) { th = true; }
    SEQ_CHECK(th, "notfinite", "a number JSON cannot express was accepted and is printed as %s", t.c_str()); } });
  // several values in one stream, written by the archive
  seq::task("archive", 4, 4, [=](int p, int n) { seq::tuples(5, 3, p, n, [](const std::vector<int> &ix) {
    for (int mode = 0; mode < 4; mode++) { seq::begin("archive %d %d %d mode %d", ix[0], ix[1], ix[2], mode); std::ostringstream os; static const S ss[] = {"", "a b", "\"\n\\", "\xe3\x81\x82", S("\0q", 2)}; static const double ds[] = {0.5, -2.25, 1e30, 3.125, 1e-9}; static const int is_[] = {0, -1, 65536, 2147483647, 12};
      { pfi::data::serialization::json_oarchive oa(os, mode & 1, mode & 2); oa << is_[ix[0]] << ss[ix[1]]; std::vector<double> v(ix[2], ds[ix[0]]); oa << v; std::map<S, int> m; m[ss[ix[1]]] = is_[ix[2]]; oa << m; }
      bool na = false; for (unsigned char c : os.str()) if (c >= 0x80) na = true; SEQ_CHECK(na == (!(mode & 2) && ix[1] == 3), "archive", "escaping differs from what was asked for: %s", seq::show(os.str()).c_str());
      std::istringstream is(os.str()); pfi::data::serialization::json_iarchive ia(is); int a = 77; S b = "?"; std::vector<double> v; std::map<S, int> m;
      try { ia >> a >> b >> v >> m; } catch (std::exception &e) { seq::viol("archive", "reading back %s failed: %s", seq::show(os.str()).c_str(), e.what()); return; }
      SEQ_CHECK(a == is_[ix[0]] && b == ss[ix[1]] && v == std::vector<double>(ix[2], ds[ix[0]]) && m.size() == 1 && m[ss[ix[1]]] == is_[ix[2]], "archive", "read back %d %s from %s", a, seq::show(b).c_str(), seq::show(os.str()).c_str()); seq::op(); } }); });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
