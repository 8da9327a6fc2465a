// C23: string utilities against plain definitions, on every small input
#include "../mc/seq.h"
#include <data/string/utility.h>
#include <data/string/ustring.h>
#include <list>
#include <deque>
typedef std::string S; typedef std::vector<S> V;
using namespace pfi::data::string;
static S sv(const V &v) { S r = "["; for (auto &s : v) r += seq::show(s) + " "; return r + "]"; }
static bool at(const S &s, size_t i, const S &x) { if (i + x.size() > s.size()) return false; for (size_t k = 0; k < x.size(); k++) if (s[i + k] != x[k]) return false; return true; }
static V rsplit(const S &s, const S &sep) { V r; if (sep.empty()) return r; S cur; for (size_t i = 0; i < s.size();) if (at(s, i, sep)) { r.push_back(cur); cur = ""; i += sep.size(); } else cur += s[i++]; r.push_back(cur); return r; }
static S rreplace(const S &s, const S &f, const S &t) { if (f.empty()) return s; S r; for (size_t i = 0; i < s.size();) if (at(s, i, f)) { r += t; i += f.size(); } else r += s[i++]; return r; }
static S rjoin(const V &v, const S &sep) { S r; for (size_t i = 0; i < v.size(); i++) { if (i) r += sep; r += v[i]; } return r; }
static ustring U(const S &s) { ustring r; for (unsigned char c : s) r += c == 0xe3 ? 0x3042 : c == 'u' ? 0x10ffff : c; return r; }
static void two(const S &s, const S &x) {
  seq::begin_s(seq::show(s) + " with " + seq::show(x)); seq::op(8);
  V w = rsplit(s, x), g = split(s, x); SEQ_CHECK(g == w, "split", "split: %s", sv(g).c_str());
  { std::list<S> l = split<std::list<S> >(s, x); SEQ_CHECK(V(l.begin(), l.end()) == w, "split", "split into a list: %s", sv(V(l.begin(), l.end())).c_str()); }
  { std::deque<S> d(1, "old"); split(s, x, std::back_inserter(d)); SEQ_CHECK(d.front() == "old" && V(d.begin() + 1, d.end()) == w, "split", "split to an iterator: %s", sv(V(d.begin(), d.end())).c_str()); }
  { std::vector<ustring> u = split(U(s), U(x)); std::vector<ustring> e; for (auto &i : w) e.push_back(U(i)); SEQ_CHECK(u == e, "split", "wide split has %zu parts instead of %zu", u.size(), e.size()); }
  if (x.size() == 1) { char c = x[0]; g = split(s, c); SEQ_CHECK(g == w, "split", "split by character: %s", sv(g).c_str()); std::list<S> l = split<std::list<S> >(s, c); SEQ_CHECK(V(l.begin(), l.end()) == w, "split", "split by character into a list"); V o; split(s, c, std::back_inserter(o)); SEQ_CHECK(o == w, "split", "split by character to an iterator");
    std::vector<ustring> u = split(U(s), U(x)[0]); SEQ_CHECK(u.size() == w.size(), "split", "wide split by character"); for (size_t i = 0; i < w.size(); i++) SEQ_CHECK(u[i] == U(w[i]), "split", "wide split by character: part %zu", i); }
  if (!x.empty()) { S j = join(split(s, x), x); SEQ_CHECK(j == s, "split-join", "joined again: %s", seq::show(j).c_str()); }
  SEQ_CHECK(starts_with(s, x) == at(s, 0, x), "starts_with", "starts_with: %d", starts_with(s, x)); SEQ_CHECK(starts_with(U(s), U(x)) == at(s, 0, x), "starts_with", "wide starts_with");
  bool e = s.size() >= x.size() && at(s, s.size() - x.size(), x); SEQ_CHECK(ends_with(s, x) == e && ends_with(U(s), U(x)) == e, "ends_with", "ends_with: %d", ends_with(s, x));
  static const char *TO[] = {"", "b", "ab", ":", "xyz"};
  std::vector<S> to(TO, TO + 5); to.push_back(x); to.push_back(x + x);
  for (auto &t : to) { S r = rreplace(s, x, t), q = replace(s, x, t); SEQ_CHECK(q == r, "replace", "replaced by %s: %s, expected %s", seq::show(t).c_str(), seq::show(q).c_str(), seq::show(r).c_str()); SEQ_CHECK(replace(U(s), U(x), U(t)) == U(r), "replace", "wide replace"); 
    S a = s; replace(a, x, t, a); SEQ_CHECK(a == r, "alias", "replaced in place: %s", seq::show(a).c_str()); a = x; replace(s, a, t, a); SEQ_CHECK(a == r, "alias", "result in the pattern: %s", seq::show(a).c_str()); a = t; replace(s, x, a, a); SEQ_CHECK(a == r, "alias", "result in the replacement: %s", seq::show(a).c_str()); }
  seq::observe(sv(w)); if (w.size() > 2) seq::nontrivial();
}
static bool sp(unsigned char c) { return c == 32 || (c >= 9 && c <= 13); }
static void one(const S &s) {
  seq::begin_s(seq::show(s)); seq::op(3);
  size_t b = 0, e = s.size(); while (b < s.size() && sp(s[b])) b++; while (e > b && sp(s[e - 1])) e--;
  size_t e2 = s.size(); while (e2 > 0 && sp(s[e2 - 1])) e2--;
  S w = s.substr(b, e - b), l = s.substr(b), r = s.substr(0, e2);
  SEQ_CHECK(strip(s) == w, "strip", "strip: %s", seq::show(strip(s)).c_str()); SEQ_CHECK(lstrip(s) == l, "lstrip", "lstrip: %s", seq::show(lstrip(s)).c_str()); SEQ_CHECK(rstrip(s) == r, "rstrip", "rstrip: %s", seq::show(rstrip(s)).c_str());
  SEQ_CHECK(strip(U(s)) == U(w) && lstrip(U(s)) == U(l) && rstrip(U(s)) == U(r), "wide-strip", "stripping the wide string gives something else");
  S a = s; strip(a, a); S c = s; lstrip(c, c); S d = s; rstrip(d, d); SEQ_CHECK(a == w && c == l && d == r, "alias", "stripped in place: %s %s %s", seq::show(a).c_str(), seq::show(c).c_str(), seq::show(d).c_str());
  seq::observe(w); if (w != s) seq::nontrivial();
}
static void reg() {
  seq::task("pairs", 8, 8, [](int p, int np) {
    std::vector<S> pats; seq::strings(seq::chars("ab:"), 0, 3, 0, 1, [&](const S &x) { pats.push_back(x); }); pats.push_back("abab"); pats.push_back("aaaa"); pats.push_back("abaab");
    seq::strings(seq::chars("ab:"), 0, seq::thorough ? 9 : 7, p, np, [&](const S &s) { for (auto &x : pats) two(s, x); });
    std::vector<S> al = {"a", S(1, '\0'), "\xff", "\xe3", "u"}, q; seq::strings(al, 0, 2, 0, 1, [&](const S &x) { q.push_back(x); });
    seq::strings(al, 0, seq::thorough ? 6 : 5, p, np, [&](const S &s) { for (auto &x : q) two(s, x); });
  });
  seq::task("strip", 4, 8, [](int p, int np) {
    std::vector<S> al = {" ", "\t", "\n", "a", "\xa0", "\xe3", "u", S(1, '\0')}; seq::strings(al, 0, seq::thorough ? 7 : 6, p, np, one);
    std::vector<S> all; for (int i = 0; i < 256; i++) all.push_back(S(1, (char)i)); seq::strings(all, 1, 2, p, np, one);
    for (uint32_t c = p; c <= 0x110000; c += np) { if (c < 128) continue; seq::begin("wide strip of U+%04X", c); seq::op(); ustring u; u += ' '; u += c; u += 'x'; u += c; u += '\n'; SEQ_CHECK(strip(u) == u.substr(1, 3) && lstrip(u) == u.substr(1) && rstrip(u) == u.substr(0, 4), "wide-strip", "the character is taken for a space"); }
  });
  seq::task("join", 2, 4, [](int p, int np) {
    std::vector<S> part = {"", "a", ":", "bc", "a:"}, seps = {"", ":", "ab", ", "};
    for (int n = 0; n <= (seq::thorough ? 6 : 5); n++) seq::tuples(part.size(), n, p, np, [&](const std::vector<int> &d) {
      V v; for (int i : d) v.push_back(part[i]);
      for (auto &s : seps) { seq::begin_s("join " + sv(v) + " with " + seq::show(s)); seq::op(); S w = rjoin(v, s); std::list<S> l(v.begin(), v.end());
        SEQ_CHECK(join(v, s) == w && join(l, s) == w && join(l.begin(), l.end(), s) == w, "join", "joined: %s", seq::show(join(v, s)).c_str());
        S a = "old"; join(v, s, a); S b = s; join(v, b, b); SEQ_CHECK(a == w && b == w, "join", "joined into a string: %s %s", seq::show(a).c_str(), seq::show(b).c_str());
        V c = v; if (!c.empty()) { join(c.begin(), c.end(), s, c[0]); SEQ_CHECK(c[0] == w, "alias", "joined into the first part: %s", seq::show(c[0]).c_str()); }
        std::vector<ustring> u; for (auto &i : v) u.push_back(U(i)); SEQ_CHECK(join(u, U(s)) == U(w), "join", "wide join"); seq::observe(w); }
    });
  });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
