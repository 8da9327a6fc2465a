// C24: string searching and sequence algorithms against their definitions
#include "../mc/seq.h"
#include <data/string/kmp.h>
#include <data/string/algorithm.h>
#include <data/string/aho_corasick.h>
#include <data/string/ustring.h>
#include <algorithm>
#include <climits>
typedef std::string S; typedef std::vector<S> V;
using namespace pfi::data::string;
static S sv(const V &v) { S r = "["; for (auto &s : v) r += seq::show(s) + " "; return r + "]"; }
static bool at(const S &s, size_t i, const S &x) { if (i + x.size() > s.size()) return false; for (size_t k = 0; k < x.size(); k++) if (s[i + k] != x[k]) return false; return true; }
static void ac(const V &words, const std::vector<S> &texts) {
  aho_corasick a(words);
  for (auto &t : texts) {
    seq::begin_s(sv(words) + " in " + seq::show(t)); seq::op();
    std::vector<std::pair<int, int> > w, g;
    for (size_t i = 0; i < words.size(); i++) if (!words[i].empty()) for (size_t k = 0; k < t.size(); k++) if (at(t, k, words[i])) w.push_back(std::make_pair((int)i, (int)(k + words[i].size())));
    a.search(t, g); std::sort(w.begin(), w.end()); std::sort(g.begin(), g.end());
    SEQ_CHECK(g == w, "aho", "%zu occurrences reported, there are %zu", g.size(), w.size());
    seq::observe(&w[0], w.size() * sizeof w[0]); if (w.size() > 1) seq::nontrivial();
  }
}
template <class A> static int lis_ref(const A &a) { int m = 0; std::vector<int> d(a.size()); for (size_t i = 0; i < a.size(); i++) { d[i] = 1; for (size_t j = 0; j < i; j++) if (a[j] < a[i]) d[i] = std::max(d[i], d[j] + 1); m = std::max(m, d[i]); } return m; }
template <class T> static void lis(const std::vector<T> &vals, int n, int p, int np) {
  seq::tuples(vals.size(), n, p, np, [&](const std::vector<int> &d) { std::vector<T> a; S t; for (int i : d) { a.push_back(vals[i]); t += std::to_string(vals[i]) + " "; } seq::begin_s("LIS of " + t); seq::op(); int g = longest_increasing_subsequence(a), w = lis_ref(a); SEQ_CHECK(g == w, "lis", "LIS %d, expected %d", g, w); seq::observe_u(w); });
}
static int ed(const S &a, size_t i, const S &b, size_t j, std::vector<int> &m) { if (i == a.size()) return b.size() - j; if (j == b.size()) return a.size() - i; int &r = m[i * 16 + j]; if (r >= 0) return r; if (a[i] == b[j]) return r = ed(a, i + 1, b, j + 1, m); return r = 1 + std::min(ed(a, i + 1, b, j + 1, m), std::min(ed(a, i + 1, b, j, m), ed(a, i, b, j + 1, m))); }
static int lcs(const S &a, const S &b) { int best = 0; for (unsigned x = 0; x < 1u << a.size(); x++) { size_t j = 0; int n = 0; bool ok = true; for (size_t i = 0; i < a.size() && ok; i++) if (x >> i & 1) { while (j < b.size() && b[j] != a[i]) j++; if (j == b.size()) ok = false; else j++, n++; } if (ok && n > best) best = n; } return best; }
static void reg() {
  seq::task("kmp", 8, 8, [](int p, int np) {
    std::vector<S> texts; seq::strings(seq::chars("ab"), 0, seq::thorough ? 10 : 8, 0, 1, [&](const S &t) { texts.push_back(t); });
    auto run = [&](const S &q) {
      seq::begin_s("kmp " + seq::show(q)); kmp<S> k(q); kmp<std::vector<int> > kv(std::vector<int>(q.begin(), q.end()));
      for (auto &t : texts) { seq::begin_s("kmp " + seq::show(q) + " in " + seq::show(t)); std::vector<int> tv(t.begin(), t.end());
        for (int off = 0; off <= (int)t.size() + 1; off++) { seq::op(); size_t w = S::npos; for (size_t i = off; i + q.size() <= t.size(); i++) if (at(t, i, q)) { w = i; break; }
          size_t g = k.find(t, off); SEQ_CHECK(g == w, "kmp", "from %d: found at %ld, expected %ld", off, (long)g, (long)w); g = kv.find(tv, off); SEQ_CHECK(g == w, "kmp", "vector, from %d: found at %ld, expected %ld", off, (long)g, (long)w); if (off == 0) SEQ_CHECK(k.find(t) == w, "kmp", "find without offset"); }
        seq::observe(t + "/" + q); }
    };
    seq::strings(seq::chars("ab"), 0, 7, p, np, run);
  });
  seq::task("kmp-border", 8, 16, [](int p, int np) {   // longer patterns in texts made of their own prefixes and suffixes
    auto run = [](const S &q) {
      if (q.size() < 5) return; kmp<S> k(q); kmp<S> kc(k); int n = q.size();
      for (int i = 1; i <= n; i++) { for (int j = 0; j < n; j++) { S t = q.substr(0, i) + q.substr(j); if (j == 0) seq::begin_s("kmp " + seq::show(q) + " in " + seq::show(t) + "..."); seq::op(); size_t w = t.find(q), g = k.find(t); SEQ_CHECK(g == w, "kmp", "in %s: found at %ld, expected %ld", t.c_str(), (long)g, (long)w); }
        for (int j = 0; j < n; j++) { S t = q.substr(j) + q.substr(0, i) + q; int off = (i + j) % 3; size_t w = t.find(q, off), g = kc.find(t, off); SEQ_CHECK(g == w, "kmp", "in %s from %d: found at %ld, expected %ld", t.c_str(), off, (long)g, (long)w); } }
      seq::observe(q);
    };
    seq::strings(seq::chars("ab"), 5, seq::thorough ? 15 : 11, p, np, run); seq::strings(seq::chars("abc"), 5, seq::thorough ? 10 : 8, p, np, run);
    if (p == 0) for (int n : {100, 127, 128, 129, 255, 256, 257, 300}) { S q; for (int i = 0; i < n; i++) q += i % 7 == 3 ? 'b' : 'a'; seq::begin("kmp with a pattern of %d", n); kmp<S> k(q); for (int c = 1; c < n; c += 3) { S t = q.substr(0, c) + q; size_t w = t.find(q), g = k.find(t); SEQ_CHECK(g == w, "kmp", "found at %ld, expected %ld", (long)g, (long)w); t = q.substr(c) + "c" + q; SEQ_CHECK(k.find(t) == t.find(q), "kmp", "wrong"); } }
  });
  seq::task("aho-chains", 8, 16, [](int p, int np) {   // long chains of suffix links: longer words, texts made of their prefixes and suffixes
    std::vector<S> bin; seq::strings(seq::chars("ab"), 1, seq::thorough ? 7 : 6, 0, 1, [&](const S &x) { bin.push_back(x); });
    auto run = [](const V &w) { std::vector<S> t; for (auto &x : w) for (auto &y : w) for (size_t i = 1; i <= x.size(); i += x.size() > 4 ? 2 : 1) t.push_back(x.substr(0, i) + y.substr(y.size() > 1 ? 1 : 0) + x); ac(w, t); };
    int n = bin.size(), c = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (c++ % np == p) run(V{bin[j], bin[i]});
    // each word with all its suffixes of at least k letters left out or in
    seq::strings(seq::chars("abc"), 3, seq::thorough ? 8 : 7, p, np, [&](const S &x) { for (size_t a = 1; a < x.size(); a++) for (size_t b = a + 1; b <= x.size(); b += 2) { V w = {x, x.substr(a)}; if (b < x.size()) { w.push_back(x.substr(b)); w.push_back(x.substr(a, b - a)); } std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); std::reverse(w.begin(), w.end()); ac(w, {x, x + x, x.substr(a) + x, x.substr(0, b) + x.substr(a)}); } });
  });
  seq::task("aho", 8, 16, [](int p, int np) {   // every dictionary of up to 4 of these words
    V all; seq::strings(seq::chars("ab"), 1, 3, 0, 1, [&](const S &x) { all.push_back(x); }); all.push_back("abab"); all.push_back("c"); all.push_back("bc"); all.push_back("");
    std::vector<S> texts; seq::strings(seq::chars("abc"), 0, 5, 0, 1, [&](const S &t) { texts.push_back(t); }); texts.push_back("abababbabaab"); texts.push_back("aabbaabbcabcab");
    int n = 0, N = all.size();
    for (int m = 0; m < 1 << N; m++) { if (__builtin_popcount(m) > (seq::thorough ? 5 : 3)) continue; if (n++ % np != p) continue; V w; for (int i = 0; i < N; i++) if (m >> i & 1) w.push_back(all[(i * 7) % N]); ac(w, texts); }
  });
  seq::task("aho-bytes", 8, 8, [](int p, int np) {   // bytes at the ends of the range, and big dictionaries
    std::vector<S> al = {S(1, '\0'), "\x01", "\xff", "\x80", "a"}; V all; seq::strings(al, 1, 2, 0, 1, [&](const S &x) { all.push_back(x); });
    std::vector<S> texts; seq::strings(al, 0, 4, 0, 1, [&](const S &t) { texts.push_back(t); });
    seq::tuples(all.size(), 2, p, np, [&](const std::vector<int> &d) { if (d[0] != d[1]) ac(V{all[d[0]], all[d[1]]}, texts); });
    if (p == 0) { V w; for (int i = 0; i < 256; i++) w.push_back(S(1, (char)i)); ac(w, texts); for (int i = 0; i < 256; i += 5) for (int j = 0; j < 256; j += 3) w.push_back(S(1, (char)i) + S(1, (char)j)); ac(w, texts); }
    if (p == 1 % np) { V w; seq::strings(seq::chars("abcdefghij"), 3, 3, 0, 1, [&](const S &x) { w.push_back(x); }); V t; for (auto &i : w) t.push_back(i + w[(t.size() * 37 + 11) % w.size()]); t.resize(100); ac(w, t); }
    if (p == 2 % np) for (int n = 1; n <= 300; n += 7) { V w; for (int i = 0; i < n; i++) { S x; for (int k = 0; k < 3; k++) x += (char)((i * 251 + k * 97) % 256); x += (char)i; x += (char)(i / 256 + 1); w.push_back(x); } V t; for (int i = 0; i < n; i += 3) t.push_back(w[i] + w[n - 1 - i] + w[i]); ac(w, t); }
  });
  seq::task("distance", 8, 8, [](int p, int np) {
    std::vector<S> v; seq::strings(seq::chars("ab"), 0, seq::thorough ? 8 : 6, 0, 1, [&](const S &t) { v.push_back(t); }); seq::strings(seq::chars("abc"), 0, seq::thorough ? 5 : 4, 0, 1, [&](const S &t) { v.push_back(t); });
    for (size_t i = p; i < v.size(); i += np) for (auto &b : v) { const S &a = v[i]; seq::begin_s(seq::show(a) + " and " + seq::show(b)); seq::op(2); std::vector<int> m(256, -1);
      int w = ed(a, 0, b, 0, m), g = edit_distance(a, b); SEQ_CHECK(g == w, "edit", "edit distance %d, expected %d", g, w); int w2 = lcs(a, b); g = longest_common_subsequence(a, b); SEQ_CHECK(g == w2, "lcs", "LCS %d, expected %d", g, w2);
      SEQ_CHECK(edit_distance(std::vector<int>(a.begin(), a.end()), std::vector<int>(b.begin(), b.end())) == w && longest_common_subsequence(string_to_ustring(a), string_to_ustring(b)) == w2, "generic", "another sequence type gives another result"); seq::observe_u(w * 16 + w2); }
  });
  seq::task("lis", 4, 8, [](int p, int np) {
    for (int n = 0; n <= (seq::thorough ? 7 : 6); n++) { lis<int>({INT_MIN, -1, 0, 7, INT_MAX}, n, p, np); lis<unsigned>({0u, 1u, 0x7fffffffu, 0x80000000u, ~0u}, n, p, np); }
    for (int n = 0; n <= 5; n++) { lis<double>({-0.5, 0.1, 0.2, 0.25, 3e10}, n, p, np); lis<long long>({-5000000000LL, 0, 4294967296LL, 4294967297LL, LLONG_MAX}, n, p, np); lis<unsigned char>({0, 1, 127, 128, 255}, n, p, np); }
    if (p == 0) { std::vector<S> al; seq::strings(seq::chars("abz\xff"), 0, 5, 0, 1, [](const S &s) { seq::begin_s("LIS of " + seq::show(s)); SEQ_CHECK(longest_increasing_subsequence(s) == lis_ref(s), "lis", "LIS %d", longest_increasing_subsequence(s)); }); }
  });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
