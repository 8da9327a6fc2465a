// C30: URI component encoding, HTML escaping, XHTML rendering: reversible, and nothing escapes
#include "../mc/seq.h"
#include <network/uri.h>
#include <network/cgi/tags.h>
#include <text/xhtml.h>
#include <sstream>
typedef std::string S;
using namespace pfi::text::xhtml;
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static bool unres(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~'; }
static bool refdec(const S &s, S &r) { r.clear(); for (size_t i = 0; i < s.size(); i++) if (s[i] == '%') { if (i + 2 >= s.size() || hv(s[i + 1]) < 0 || hv(s[i + 2]) < 0) return false; r += (char)(hv(s[i + 1]) * 16 + hv(s[i + 2])); i += 2; } else r += s[i] == '+' ? ' ' : s[i]; return true; }
static bool unhtml(const S &s, S &r) {
  static const char *E[][2] = {{"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&#039;", "'"}, {"&#39;", "'"}, {"&apos;", "'"}, {"&#34;", "\""}, {"&#x27;", "'"}};
  r.clear();
  for (size_t i = 0; i < s.size();) {
    if (s[i] == '<' || s[i] == '>' || s[i] == '"' || s[i] == '\'') return false;
    if (s[i] != '&') { r += s[i++]; continue; }
    bool f = false; for (auto &e : E) { size_t n = strlen(e[0]); if (s.compare(i, n, e[0]) == 0) { r += e[1]; i += n; f = true; break; } }
    if (!f) return false;
  }
  return true;
}
static void enc(const S &s) {
  seq::begin_s("encode " + seq::show(s)); seq::op();
  S e = pfi::network::uri_encode(s), r; S w;
  for (size_t i = 0; i < e.size(); i++) { unsigned char c = e[i]; if (!unres(c) && c != '+' && c != '%') { seq::viol("encode", "encoded as %s", seq::show(e).c_str()); return; } }
  SEQ_CHECK(refdec(e, r) && r == s, "encode", "encoded as %s", seq::show(e).c_str());
  size_t n = 0; for (unsigned char c : s) n += unres(c) || c == ' ' ? 1 : 3;
  SEQ_CHECK(e.size() == n, "encode", "unreserved characters are escaped in %s", seq::show(e).c_str());
  S d = pfi::network::uri_decode(e); SEQ_CHECK(d == s, "decode", "%s decoded as %s", seq::show(e).c_str(), seq::show(d).c_str());
  S lowc = e; for (size_t i = 0; i < lowc.size(); i++) if (lowc[i] == '%') for (int k = 1; k < 3; k++) lowc[i + k] = tolower(lowc[i + k]);
  d = pfi::network::uri_decode(lowc); SEQ_CHECK(d == s, "decode", "%s decoded as %s", seq::show(lowc).c_str(), seq::show(d).c_str());
  S h = html_encode(s); SEQ_CHECK(unhtml(h, r) && r == s, "html", "html-encoded as %s", seq::show(h).c_str());
  seq::observe(e);
  if (e != s) seq::nontrivial();
}
static void dec(const S &s) {
  seq::begin_s("decode " + seq::show(s)); seq::op();
  S w; bool ok = refdec(s, w); S d = pfi::network::uri_decode(s);
  if (ok) SEQ_CHECK(d == w, "decode", "decoded as %s, not %s", seq::show(d).c_str(), seq::show(w).c_str());
  else SEQ_CHECK(d.size() <= s.size(), "decode", "decoded as %s", seq::show(d).c_str());
  seq::observe(d);
}
// ---- xhtml trees -------------------------------------------------------------------------------
struct N { int kind; S name, text; std::map<S, S> attr; std::vector<N> ch; };   // 0 tag, 1 text, 2 prim (already markup)
static bool operator==(const N &a, const N &b) { return a.kind == b.kind && a.name == b.name && a.text == b.text && a.attr == b.attr && a.ch == b.ch; }
static S str(const N &n) { if (n.kind) return (n.kind == 1 ? "t" : "p") + seq::show(n.text); S r = "<" + n.name; for (auto &a : n.attr) r += " " + a.first + "=" + seq::show(a.second); r += ">("; for (auto &c : n.ch) r += str(c) + ","; return r + ")"; }
struct P { S s; size_t p; bool ok;
  void ws() { while (p < s.size() && strchr(" \n\t\r", s[p]) && s[p]) p++; }
  S name() { S r; while (p < s.size() && !strchr(" \n\t\r=<>/\"'", s[p])) r += s[p++]; S u; if (!unhtml(r, u)) ok = false; return u; }
  std::vector<N> nodes(bool top) {
    std::vector<N> v;
    while (p < s.size() && ok) {
      if (s[p] != '<') { S t; while (p < s.size() && s[p] != '<') t += s[p++]; N n; n.kind = 1; if (!unhtml(t, n.text)) { ok = false; return v; } v.push_back(n); continue; }
      if (p + 1 < s.size() && s[p + 1] == '/') { if (top) ok = false; return v; }
      p++; N n; n.kind = 0; n.name = name(); if (n.name.empty()) { ok = false; return v; }
      for (;;) {
        size_t q = p; ws(); if (p >= s.size()) { ok = false; return v; }
        if (s[p] == '/' ) { if (p + 1 >= s.size() || s[p + 1] != '>') { ok = false; return v; } p += 2; break; }
        if (s[p] == '>') { p++; n.ch = nodes(false); if (!ok || s.compare(p, 2, "</") != 0) { ok = false; return v; } p += 2; if (name() != n.name) ok = false; ws(); if (p >= s.size() || s[p] != '>') { ok = false; return v; } p++; break; }
        if (q == p) { ok = false; return v; }
        S k = name(), val; if (k.empty() || n.attr.count(k)) { ok = false; return v; }
        if (p < s.size() && s[p] == '=') { p++; if (s[p] != '"') { ok = false; return v; } size_t e = s.find('"', p + 1); if (e == S::npos) { ok = false; return v; } if (!unhtml(s.substr(p + 1, e - p - 1), val)) { ok = false; return v; } p = e + 1; }
        n.attr[k] = val;
      }
      v.push_back(n);
    }
    return v;
  } };
static std::vector<N> merge(const std::vector<N> &v) {   // adjacent text joins, empty text vanishes
  std::vector<N> r;
  for (N n : v) { n.ch = merge(n.ch); if (n.kind) { n.kind = 1; if (n.text.empty()) continue; if (!r.empty() && r.back().kind == 1) { r.back().text += n.text; continue; } } r.push_back(n); }
  return r;
}
static pfi::lang::shared_ptr<html_elem> build(const N &n) {
  if (n.kind == 1) return pfi::lang::shared_ptr<html_elem>(new text_elem(n.text));
  if (n.kind == 2) { return pfi::lang::shared_ptr<html_elem>(new prim_elem(n.text)); }
  pfi::lang::shared_ptr<tag_elem> t(new tag_elem(n.name)); for (auto &a : n.attr) (*t)[a.first] = a.second; for (auto &c : n.ch) t->add_child(build(c)); return t;
}
static void insert(const N &n, pfi::network::cgi::xhtml_builder &builder) {
  if (n.kind == 1) { text__(n.text); return; }
  if (n.kind == 2) { prim__(n.text); return; }
  tag__(n.name) { for (auto &a : n.attr) attr__(a.first) = a.second; for (auto &c : n.ch) insert(c, builder); }
}
static void tree(const N &n) {
  seq::begin_s("render " + str(n)); seq::op(4);
  std::vector<N> want = merge({n});
  for (int how = 0; how < 4; how++) {
    std::ostringstream os;
    if (how < 2) { auto e = build(n); if (how) e->pretty(os); else e->render(os); }
    else { pfi::network::cgi::xhtml_builder b; insert(n, b); auto &v = b.get(); for (auto &e : v) { if (how == 3) e->pretty(os); else e->render(os); } }
    P p = {os.str(), 0, true}; auto have = merge(p.nodes(true)); SEQ_CHECK(p.ok && p.p == p.s.size() && have == want, "render", "rendered (%d) as %s", how, seq::show(os.str()).c_str());
    seq::observe(os.str());
  }
}
static const char *TXT[] = {"", "a", "<b>", "&amp;", "\"'>"};
static void shapes(int n, const std::function<void(std::vector<N>)> &f) {   // all forests of n nodes
  if (n == 0) { f({}); return; }
  for (int k = 1; k <= n; k++)
    shapes(k - 1, [&](std::vector<N> ch) {
      shapes(n - k, [&](std::vector<N> rest) {
        auto put = [&](const N &x) { std::vector<N> v; v.push_back(x); v.insert(v.end(), rest.begin(), rest.end()); f(v); };
        N t; t.kind = 0; t.name = ch.size() == 1 ? "p" : "div"; t.ch = ch;
        put(t); t.attr["k"] = "x\"<"; put(t); t.attr["l"] = ""; put(t);
        if (k == 1) for (const char *x : TXT) { N y; y.kind = 1; y.text = x; put(y); }
        if (k == 1) { N y; y.kind = 2; y.text = "raw"; put(y); }
      });
    });
}
static void reg() {
  seq::task("bytes", 4, 4, [](int p, int np) { S a; std::vector<S> all; for (int i = 0; i < 256; i++) all.push_back(S(1, (char)i)); seq::strings(all, 0, 2, p, np, enc); });
  seq::task("bytes3", 0, 16, [](int p, int np) { std::vector<S> all; for (int i = 0; i < 256; i += 3) all.push_back(S(1, (char)i)); seq::strings(all, 3, 3, p, np, enc); });
  seq::task("mixed", 4, 8, [](int p, int np) { std::vector<S> al = {"a", " ", "+", "%", "&", "\"", "<", ">", "'", ";", S(1, 0), "\xff"}; seq::strings(al, 3, seq::thorough ? 6 : 5, p, np, enc); });
  seq::task("decode", 4, 8, [](int p, int np) { std::vector<S> al = {"a", "+", "%", "0", "f", "F", "2", "%41", "%ff", "%00", "%2B", "%25", "g", "\xff", " "}; seq::strings(al, 0, seq::thorough ? 6 : 5, p, np, dec); });
  seq::task("trees", 4, 8, [](int p, int np) { unsigned long i = 0; for (int n = 1; n <= (seq::thorough ? 5 : 4); n++) shapes(n - 1, [&](std::vector<N> ch) { if ((int)(i++ % np) != p) return; N t; t.kind = 0; t.name = "r"; t.ch = ch; tree(t); }); });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
