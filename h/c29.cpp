// C29: URI references (RFC 3986): accepted exactly, split exactly, printed so that they parse back
#include "../mc/seq.h"
#include <network/uri.h>
#include <sstream>
typedef std::string S;
using pfi::network::uri;
struct R { bool ok; S scheme, user, host, port, path, query, frag; };
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static bool hx(char c) { return dg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool un(char c) { return al(c) || dg(c) || (c && strchr("-._~", c)); }
static bool sd(char c) { return c && strchr("!$&'()*+,;=", c); }
static bool all(const S &s, const char *extra) {   // unreserved, sub-delims, pct-encoded and extra
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%') { if (i + 2 >= s.size() || !hx(s[i + 1]) || !hx(s[i + 2])) return false; i += 2; }
    else if (!un(s[i]) && !sd(s[i]) && !(s[i] && strchr(extra, s[i]))) return false;
  }
  return true;
}
static std::vector<S> split(const S &s, char c) { std::vector<S> r(1); for (char x : s) if (x == c) r.push_back(""); else r.back() += x; return r; }
static bool v4(const S &s) { auto v = split(s, '.'); if (v.size() != 4) return false; for (auto &x : v) { if (x.empty() || x.size() > 3) return false; for (char c : x) if (!dg(c)) return false; if (x.size() > 1 && x[0] == '0') return false; if (atoi(x.c_str()) > 255) return false; } return true; }
static int groups(const S &s, bool last) {   // number of 16-bit groups, -1: not a list of groups
  if (s.empty()) return 0;
  auto v = split(s, ':'); int n = 0;
  for (size_t i = 0; i < v.size(); i++) {
    if (last && i + 1 == v.size() && v[i].find('.') != S::npos) { if (!v4(v[i])) return -1; n += 2; continue; }
    if (v[i].empty() || v[i].size() > 4) return -1; for (char c : v[i]) if (!hx(c)) return -1; n++;
  }
  return n;
}
static bool v6(const S &s) {
  size_t k = s.find("::");
  if (k == S::npos) return groups(s, true) == 8;
  if (s.find("::", k + 1) != S::npos) return false;
  int a = groups(s.substr(0, k), false), b = groups(s.substr(k + 2), true);
  return a >= 0 && b >= 0 && a + b <= 7;
}
static bool vf(const S &s) { if (s.empty() || s[0] != 'v') return false; size_t k = s.find('.'); if (k == S::npos || k < 2 || k + 1 >= s.size()) return false; for (size_t i = 1; i < k; i++) if (!hx(s[i])) return false; for (size_t i = k + 1; i < s.size(); i++) if (!un(s[i]) && !sd(s[i]) && s[i] != ':') return false; return true; }
static R ref(const S &s) {
  R r; r.ok = false; S t = s; size_t k;
  if ((k = t.find('#')) != S::npos) { r.frag = t.substr(k + 1); t = t.substr(0, k); }
  if ((k = t.find('?')) != S::npos) { r.query = t.substr(k + 1); t = t.substr(0, k); }
  k = t.find_first_of(":/");
  if (k != S::npos && t[k] == ':') { r.scheme = t.substr(0, k); t = t.substr(k + 1); if (r.scheme.empty() || !al(r.scheme[0])) return r; for (char c : r.scheme) if (!al(c) && !dg(c) && c != '+' && c != '-' && c != '.') return r; }
  if (t.compare(0, 2, "//") == 0) {
    k = t.find('/', 2); S a = t.substr(2, k == S::npos ? S::npos : k - 2); t = k == S::npos ? "" : t.substr(k);
    if ((k = a.find('@')) != S::npos) { r.user = a.substr(0, k); a = a.substr(k + 1); if (!all(r.user, ":")) return r; }
    if (!a.empty() && a[0] == '[') { k = a.find(']'); if (k == S::npos) return r; S l = a.substr(1, k - 1); if (!v6(l) && !vf(l)) return r; r.host = a.substr(0, k + 1); a = a.substr(k + 1); if (!a.empty() && a[0] != ':') return r; }
    else { k = a.find(':'); r.host = a.substr(0, k); a = k == S::npos ? "" : a.substr(k); if (!all(r.host, "")) return r; }
    if (!a.empty()) { r.port = a.substr(1); for (char c : r.port) if (!dg(c)) return r; }
  }
  r.path = t;
  if (!all(r.path, ":@/") || !all(r.query, ":@/?") || !all(r.frag, ":@/?")) return r;
  r.ok = true; return r;
}
static S comp(const uri &u) { return u.scheme() + "|" + u.userinfo() + "|" + u.host() + "|" + u.port() + "|" + u.path() + "|" + u.query() + "|" + u.fragment(); }
static void one(const S &s) {
  seq::begin_s(seq::show(s)); seq::op();
  R r = ref(s); if (!r.ok) r = R();
  S heap(s); heap.reserve(40); heap = S(heap.begin(), heap.end());
  uri u(heap);
  SEQ_CHECK(u.scheme() == r.scheme && u.userinfo() == r.user && u.host() == r.host && u.port() == r.port && u.path() == r.path && u.query() == r.query && u.fragment() == r.frag, "split",
            "parsed as %s, expected %s", comp(u).c_str(), (r.scheme + "|" + r.user + "|" + r.host + "|" + r.port + "|" + r.path + "|" + r.query + "|" + r.frag).c_str());
  S au = (r.user.empty() ? "" : r.user + "@") + r.host + (r.port.empty() ? "" : ":" + r.port);
  SEQ_CHECK(u.authority() == au, "authority", "authority is %s", u.authority().c_str());
  std::ostringstream os; os << u; S p = os.str(); uri w(p);
  S path = r.path.empty() ? "/" : r.path;
  SEQ_CHECK(w.scheme() == r.scheme && w.userinfo() == r.user && w.host() == r.host && w.port() == r.port && w.path() == path && w.query() == r.query && w.fragment() == r.frag, "print", "printed as %s, which parses as %s", seq::show(p).c_str(), comp(w).c_str());
  seq::observe(comp(u)); if (r.ok) seq::nontrivial();
}
static void reg() {
  static const std::vector<S> A = seq::chars("a:/?#@[]%4.v ");
  seq::task("refs", 16, 32, [=](int p, int n) { seq::strings(A, 0, seq::thorough ? 6 : 5, p, n, one); });
  static const std::vector<S> B = seq::chars("aF:/@[]%41.?#-~\xe9");
  seq::task("authority", 16, 32, [=](int p, int n) { seq::strings(B, 0, seq::thorough ? 5 : 4, p, n, [](const S &s) { one("x+1.y://" + s); one("//" + s); if (s.size() < 5) { one("h://u@" + s); one("h://" + s + "/p"); one("s:" + s); } }); });
  // every byte in every component
  seq::task("bytes", 1, 1, [](int, int) { for (int c = 1; c < 256; c++) for (int k = 0; k < 12; k++) { S x(1, (char)c); static const char *pre[] = {"", "h://", "h://u", "h://u@g", "h://u@g:", "h://g/", "h://g/p", "/", "g", "h:", "/?", "/#"}; for (const char *post : {"", "z", "zz/y"}) { one(S(pre[k]) + x + post); one(S(pre[k]) + "%" + x + "1" + post); one(S(pre[k]) + "%a" + x + post); } } });
  static const std::vector<S> I = {"1", "abcd", "12345", "::", ":", "1.2.3.4", "v1.a", "0F", "v", "."};
  seq::task("literals", 8, 16, [=](int p, int n) { seq::strings(I, 0, seq::thorough ? 7 : 6, p, n, [](const S &s) { one("h://[" + s + "]"); if (s.size() < 8) { one("//u:p@[" + s + "]:80/x"); one("//[" + s); } }); });
  // group structures: a groups, optional ::, b groups, optional IPv4 tail
  seq::task("ipv6", 8, 8, [](int p, int n) {
    int idx = 0;
    for (int a = 0; a <= 9; a++) for (int g = 0; g < 2; g++) for (int b = 0; b <= 9; b++) for (int v = 0; v < 4; v++) for (int w = 1; w <= 5; w++) {
      if (idx++ % n != p) continue;
      S t, grp = S("12aF0").substr(0, w); for (int i = 0; i < a; i++) t += (i ? ":" : "") + grp; if (g) t += "::"; for (int i = 0; i < b; i++) t += (i || (!g && a) ? ":" : "") + grp;
      static const char *tail[] = {"", "1.2.3.4", "255.0.10.199", "256.1.1.1"}; if (v) t += (b || (!g && a) ? S(":") : S("")) + tail[v];
      one("h://[" + t + "]/p"); one("h://[" + t + "]:8"); one("//u@[" + t + "]?q"); one("//[:" + t + "]"); one("//[" + t + ":]");
    }
  });
  static const std::vector<S> H = {"1", "25", "256", ".", "199", "a", "0", "01", "%2e"};
  seq::task("ipv4-like", 4, 8, [=](int p, int n) { seq::strings(H, 0, seq::thorough ? 7 : 5, p, n, [](const S &s) { one("h://" + s + "/"); if (s.size() < 9) one("//" + s + ":1"); }); one("h://1.2.3.4.com/"); one("//255.255.255.255"); one("h://1.2.3.4567"); for (const char *l : {"v1.", "v.a", "v1", "vF.:", "va1.~!", "V1.x", "vg.x", "v1.%41", "v1.x@"}) { one(S("h://[") + l + "]"); one(S("//u@[") + l + "]:1/x"); } });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
