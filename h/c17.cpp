// C17: CSV: rows and fields exactly as written, safe on any input
#include "../mc/seq.h"
#include <text/csv.h>
#include <sstream>
#include <iostream>
#include <memory>
typedef std::string S;
typedef std::vector<std::vector<S>> T;
using namespace pfi::text;
static S show(const T &t) { S r; for (auto &x : t) { r += "["; for (auto &y : x) r += seq::show(y) + ","; r += "] "; } return r.substr(0, 1500); }
// RFC 4180 reader; false: not well-formed
static bool ref(const S &s, T &t) {
  t.clear(); size_t p = 0, n = s.size();
  while (p < n) {
    t.push_back({});
    for (;;) {
      S f;
      if (p < n && s[p] == '"') {
        p++;
        for (;;) { if (p >= n) return false; if (s[p] == '"') { if (p + 1 < n && s[p + 1] == '"') { f += '"'; p += 2; continue; } p++; break; } f += s[p++]; }
        if (p < n && s[p] != ',' && s[p] != '\n' && !(s[p] == '\r' && p + 1 < n && s[p + 1] == '\n')) return false;
      } else while (p < n && s[p] != ',' && s[p] != '\n') { if (s[p] == '"') return false; if (s[p] == '\r') { if (p + 1 < n && s[p + 1] == '\n') break; return false; } f += s[p++]; }
      t.back().push_back(f);
      if (p >= n) break;
      if (s[p] == ',') { p++; continue; }
      if (s[p] == '\r') p++;
      p++; break;
    }
  }
  return true;
}
static std::vector<S> row(const std::vector<const char *> &r) { return std::vector<S>(r.begin(), r.end()); }
static T read(const S &s, int how) {
  T t;
  if (how == 0) parse_csv(s, t);
  else if (how == 1) { std::istringstream is(s); csv_parser c(is); while (c.next()) t.push_back(row(c.get())); if (!c.end()) t.push_back({"not at the end"}); }
  else if (how == 2) { std::unique_ptr<char[]> b(new char[s.size()]); memcpy(b.get(), s.data(), s.size()); csv_parser c((const char *)b.get(), (const char *)b.get() + s.size()); for (csv_iterator i(c), e; i != e; ++i) t.push_back(row(*i)); }
  else if (how == 3) { csv_parser c(s); csv_iterator i(c), e; while (!(i == e)) { csv_iterator o = i++; t.push_back(row(*o)); } }
  else if (how == 5) {   // a copied or assigned iterator goes on reading
    csv_parser c(s); csv_iterator i(c), e; while (i != e) { csv_iterator j(i); t.push_back(row(*j)); ++j; i = j; if (i != e) { t.push_back(std::vector<S>(i->begin(), i->end())); csv_iterator k; k = i; k++; i = k; } }
  }
  else {   // every row is kept in a copy of the iterator and looked at when the parser is long done
    csv_parser c(s); csv_iterator i(c), e; std::vector<csv_iterator> keep; csv_iterator as;
    while (i != e) { as = i++; keep.push_back(as); csv_iterator cp(as); as = cp; keep.back() = as; }
    for (auto &k : keep) t.push_back(std::vector<S>(k->begin(), k->end()));
  }
  return t;
}
static void one(const S &s, int hows = 6) {
  seq::begin_s(seq::show(s)); T w; bool ok = ref(s, w), first = true; T a;
  for (int how = 0; how < hows; how++) {
    seq::op(); T t = read(s, how);
    if (ok) SEQ_CHECK(t == w, "rows", "(%d) read as %s, expected %s", how, show(t).c_str(), show(w).c_str());
    if (first) { a = t; first = false; } else SEQ_CHECK(t == a, "differ", "(%d) read as %s, by another interface as %s", how, show(t).c_str(), show(a).c_str());
  }
  if (ok) seq::nontrivial();
  seq::observe(show(a));
}
static S quote(const S &s, int style) { if (style == 0 && s.find_first_of(",\"\r\n") == S::npos) return s; S r = "\""; for (char c : s) { if (c == '"') r += '"'; r += c; } return r + "\""; }
static void reg() {
  seq::task("strings", 8, 16, [](int p, int np) { std::vector<S> al = {"a", ",", "\"", "\n", "\r\n", "\r", " "}; seq::strings(al, 0, seq::thorough ? 7 : 6, p, np, [](const S &s) { one(s); }); });
  seq::task("fields", 4, 8, [](int p, int np) { std::vector<S> al = {"ab", ",", "\n", "\r\n", "\"\"", "\"x\"", "\"y,z\"", "\"\"\"\"", "\"\n\"", "\xff\x80", "\"a\"\"b\"", "\"\r\n\""}; seq::strings(al, 0, seq::thorough ? 6 : 5, p, np, [](const S &s) { one(s); }); });
  seq::task("bytes", 1, 1, [](int, int) { for (int c = 1; c < 256; c++) { S b(1, (char)c); one(b); one("a" + b + "b,c\n"); one("\"" + b + "\",\"" + b + b + "\"\r\nx"); one("x\n" + b); } });
  seq::task("tables", 4, 8, [](int p, int np) {
    static const char *C[] = {"", "a", ",", "\"", "\n", "\r\n", "a\"b", " ", "\"\"", ",\n"};
    seq::tuples(10, 4, p, np, [](const std::vector<int> &d) {
      for (int k = 0; k < 8; k++) { T w = {{C[d[0]], C[d[1]]}, {C[d[2]], C[d[3]]}}; S eol = k & 1 ? "\r\n" : "\n"; int st = k >> 1 & 1; S s = quote(w[0][0], st) + "," + quote(w[0][1], st) + eol + quote(w[1][0], st) + "," + quote(w[1][1], st) + (k & 4 ? eol : "");
        seq::begin_s(seq::show(s)); seq::op(); T t = read(s, k % 6); SEQ_CHECK(t == w, "rows", "read as %s", show(t).c_str()); seq::observe(s); } });
  });
  seq::task("long", 4, 8, [](int p, int np) {
    std::vector<int> L; for (int b : {1024, 2048, 4096}) for (int d = -3; d <= 3; d++) L.push_back(b + d); int i = 0;
    for (int n : L) for (int q = 0; q < 2; q++) for (int pos = 0; pos < 4; pos++) for (int tail = 0; tail < 3; tail++) {
      if (i++ % np != p) continue;
      S f(n, 'x'); f[n / 2] = 'y'; S s = pos == 0 ? S() : pos == 1 ? S("a,") : pos == 2 ? S(1000, 'p') + "," : S("first,row\nb,"); s += quote(f, q) + (tail == 0 ? "" : tail == 1 ? ",after\nnext" : "\r\n" + S(1030, 'z') + ",w\n");
      one(s);
    }
    for (int k : {511, 512, 513, 1023, 1024, 1025, 3000}) { if (k % np != p) continue; S s; for (int j = 0; j < k; j++) s += j ? ",a" : "a"; one(s); one(s + "\n" + s); s = S(k, ','); one(s); }
  });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
