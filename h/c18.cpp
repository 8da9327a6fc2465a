// C18: base64
#include "../mc/seq.h"
#include <data/encoding/base64.h>
#include <stdexcept>
typedef std::string S;
using namespace pfi::data::encoding;
static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static S rfc(const S &s) { S r; unsigned acc = 0; int n = 0; for (unsigned char c : s) { acc = acc << 8 | c; n += 8; while (n >= 6) { r += T[acc >> (n - 6) & 63]; n -= 6; } } if (n) r += T[acc << (6 - n) & 63]; while (r.size() % 4) r += '='; return r; }
static int val(char c) { const char *p = c ? strchr(T, c) : 0; return p ? p - T : -1; }
static void enc(const S &s) {
  seq::begin_s(seq::show(s)); seq::op(); S e = base64_encode(s), w = rfc(s);
  SEQ_CHECK(e == w, "encode", "encoded as %s, expected %s", seq::show(e).c_str(), seq::show(w).c_str());
  S d; try { d = base64_decode(e); } catch (std::exception &x) { seq::viol("decode", "%s was refused: %s", e.c_str(), x.what()); return; }
  SEQ_CHECK(d == s, "decode", "%s decoded as %s", e.c_str(), seq::show(d).c_str()); seq::observe(e);
}
// 1: canonical, decodes to out; 0: must be refused; 2: non-zero trailing bits that some decoders tolerate (out: what precedes them, if decoded)
static int judge(const S &s, S &out) {
  out.clear(); if (s.size() % 4) return 0; S body; size_t p = s.find('='); if (p == S::npos) p = s.size();
  for (size_t i = 0; i < p; i++) if (val(s[i]) < 0) return 0;
  if (p % 4 == 0 && p < s.size()) return 0; if (p % 4 == 1) return 0;
  unsigned acc = 0; int n = 0; for (size_t i = 0; i < p; i++) { acc = acc << 6 | val(s[i]); n += 6; if (n >= 8) { out += (char)(acc >> (n - 8)); n -= 8; } }
  if (p < s.size() && (s.find_first_not_of('=', p) != S::npos || s.size() - p > 2)) return 0;
  return rfc(out) == s ? 1 : 2;
}
static void dec(const S &s) {
  seq::begin_s("decode " + seq::show(s)); seq::op(); S w, d; int j = judge(s, w); bool threw = false; S heap(s.data(), s.size());
  try { d = base64_decode(heap); } catch (std::invalid_argument &) { threw = true; }
  if (j == 1) SEQ_CHECK(!threw && d == w, "decode", "%s, expected %s", threw ? "refused" : seq::show(d).c_str(), seq::show(w).c_str());
  if (j == 0) SEQ_CHECK(threw, "accept", "invalid base64 was decoded as %s", seq::show(d).c_str());
  if (j == 2) SEQ_CHECK(threw || d == w, "decode", "decoded as %s", seq::show(d).c_str());
  if (j == 1) seq::nontrivial(); seq::observe(threw ? S("!") : d);
}
static void reg() {
  seq::task("bytes", 4, 4, [](int p, int np) { std::vector<S> all; for (int i = 0; i < 256; i++) all.push_back(S(1, (char)i)); seq::strings(all, 0, 2, p, np, enc); });
  seq::task("bytes3", 8, 16, [](int p, int np) { std::vector<S> al; int st = seq::thorough ? 1 : 5; for (int i = 0; i < 256; i += st) al.push_back(S(1, (char)i)); if (st > 1) for (int i : {63, 64, 127, 128, 192, 191, 254, 252, 248, 3, 4, 1, 2}) al.push_back(S(1, (char)i)); seq::strings(al, 3, 3, p, np, enc); });
  seq::task("long", 1, 1, [](int, int) { for (int n = 0; n < 400; n++) for (int k = 0; k < 4; k++) { S s; for (int i = 0; i < n; i++) s += (char)(i * (k == 0 ? 0 : k == 1 ? 7 : k == 2 ? 101 : 0) + (k == 3 ? 255 : k)); enc(s); } for (int n : {1000, 4095, 4096, 4097, 65536, 65537}) enc(S(n, '\xfe')); });
  seq::task("decode4", 8, 8, [](int p, int np) { std::vector<S> al; for (const char *c = "AZaz09+/=BQgw8/-_ \n*@"; *c; c++) al.push_back(S(1, *c)); al.push_back(S(1, 0)); al.push_back("\xff"); al.push_back("\x80"); seq::strings(al, 0, 4, p, np, dec); });
  seq::task("decode8", 4, 8, [](int p, int np) { std::vector<S> al = {"A", "Q", "w", "/", "=", "-"}; seq::strings(al, 5, seq::thorough ? 9 : 8, p, np, dec); });
  seq::task("decode.byte", 1, 1, [](int, int) { for (int c = 0; c < 256; c++) for (int i = 0; i < 8; i++) { S s = "TWFuTWFu"; s[i] = (char)c; dec(s); s = "TWFuTQ=="; s[i] = (char)c; dec(s); } });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
