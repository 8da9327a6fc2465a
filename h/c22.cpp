// C22: UTF-8: every code point and every byte sequence against an independent decoder
#include "../mc/seq.h"
#include <data/string/ustring.h>
#include <list>
#include <sstream>
typedef std::string S; typedef uint32_t U;
using namespace pfi::data::string;
static S enc(U c) {
  S r;
  if (c < 0x80) r += (char)c;
  else if (c < 0x800) { r += (char)(192 + c / 64); r += (char)(128 + c % 64); }
  else if (c < 0x10000) { r += (char)(224 + c / 4096); r += (char)(128 + c / 64 % 64); r += (char)(128 + c % 64); }
  else { r += (char)(240 + c / 262144); r += (char)(128 + c / 4096 % 64); r += (char)(128 + c / 64 % 64); r += (char)(128 + c % 64); }
  return r;
}
static bool scalar(U c) { return c < 0xd800 || (c > 0xdfff && c <= 0x10ffff); }
// one item of the input: a well-formed character, or a malformed sequence (stray byte, or a lead
// byte with the continuation bytes after it, up to its announced length)
struct Item { S bytes; bool ok; U c; };
static std::vector<Item> decode(const S &s) {
  std::vector<Item> r;
  for (size_t i = 0; i < s.size();) {
    unsigned char b = s[i]; int n = b < 0x80 ? 1 : b < 0xc0 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf8 ? 4 : b < 0xfc ? 5 : b < 0xfe ? 6 : 1;
    size_t j = i + 1; while (j < s.size() && j < i + n && ((unsigned char)s[j] >> 6) == 2) j++;
    Item it; it.bytes = s.substr(i, j - i); it.ok = false; it.c = 0;
    if (b < 0x80) it.ok = true, it.c = b;
    else if (j - i == (size_t)n && n >= 2 && n <= 4) { U c = b & (0xff >> (n + 1)); for (size_t k = i + 1; k < j; k++) c = c * 64 + (s[k] & 63); if (scalar(c) && enc(c) == it.bytes) it.ok = true, it.c = c; }
    r.push_back(it); i = j;
  }
  return r;
}
static S us(const ustring &u) { S r; char b[16]; for (size_t i = 0; i < u.size(); i++) { snprintf(b, sizeof b, "%sU+%04X", i ? " " : "", u[i]); r += b; } return "<" + r + ">"; }
struct Rec : fallback_base { std::vector<S> got; U fallback(const S &b, const char *h) { got.push_back(b); if (!h) abort(); return 0x2603; } };
static void bytes(const S &s, bool full) {
  seq::begin_s(seq::show(s)); seq::op();
  std::vector<Item> v = decode(s); ustring w; bool valid = true; S san;
  for (auto &i : v) { w += i.ok ? i.c : 0xfffd; valid &= i.ok; if (i.ok && i.c >= 0x20 && i.c != 0xfffe && i.c != 0xffff) san += i.bytes; }
  ustring g = string_to_ustring(s);
  SEQ_CHECK(g == w, "decode", "decoded as %s, expected %s", us(g).c_str(), us(w).c_str());
  SEQ_CHECK(check_utf8(s) == valid, "check", "check_utf8 says %d", !valid);
  S t = sanitize_utf8(s); SEQ_CHECK(t == san, "sanitize", "sanitized to %s, expected %s", seq::show(t).c_str(), seq::show(san).c_str());
  if (valid) { S e = ustring_to_string(g); SEQ_CHECK(e == s, "roundtrip", "encoded back as %s", seq::show(e).c_str()); }
  seq::observe(us(w)); if (!valid) seq::nontrivial();
  if (!full) return;
  { char *p = (char *)malloc(s.size()); memcpy(p, s.data(), s.size()); ustring x = string_to_ustring((const char *)p, s.size()); free(p); SEQ_CHECK(x == w, "decode", "from a pointer and length: %s, expected %s", us(x).c_str(), us(w).c_str()); }
  { ustring x = string_to_ustring(s.c_str()); size_t z = s.find('\0'); ustring y; for (auto &i : decode(s.substr(0, z))) y += i.ok ? i.c : 0xfffd; SEQ_CHECK(x == y, "decode", "from a C string: %s, expected %s", us(x).c_str(), us(y).c_str());
    std::vector<char> c(s.c_str(), s.c_str() + s.size() + 1); U f = string_to_uchar(&c[0]), e = y.empty() ? 0 : y[0]; SEQ_CHECK(f == e, "first", "first character of the C string: U+%04X, expected U+%04X", f, e); }
  { U f = string_to_uchar(s), e = w.empty() ? 0 : w[0]; SEQ_CHECK(f == e, "first", "first character: U+%04X, expected U+%04X", f, e); }
  { std::list<char> l(s.begin(), s.end()); std::list<char>::iterator it = l.begin(); Rec fb; size_t n = 0, m = 0;
    while (it != l.end()) { U c = chars_to_uchar(it, l.end(), fb); SEQ_CHECK(n < v.size(), "resync", "more characters than expected"); const Item &i = v[n++]; m += i.bytes.size();
      SEQ_CHECK(c == (i.ok ? i.c : 0x2603), "fallback", "item %zu: U+%04X", n, c); SEQ_CHECK((size_t)std::distance(l.begin(), it) == m, "resync", "item %zu: at byte %zu instead of %zu", n, (size_t)std::distance(l.begin(), it), m); }
    size_t k = 0; for (auto &i : v) if (!i.ok) { SEQ_CHECK(k < fb.got.size() && fb.got[k] == i.bytes, "fallback", "malformed bytes %s reported wrong", seq::show(i.bytes).c_str()); k++; }
    SEQ_CHECK(k == fb.got.size(), "fallback", "%zu malformed sequences reported instead of %zu", fb.got.size(), k); }
  for (U r : {(U)'?', (U)0x1f600}) { replacement_fallback fb(r); S::const_iterator it = s.begin(); ustring x, y; while (it != s.end()) x += chars_to_uchar(it, s.end(), fb); for (auto &i : v) y += i.ok ? i.c : r; SEQ_CHECK(x == y, "replacement", "decoding with replacement U+%04X gives %s, expected %s", r, us(x).c_str(), us(y).c_str()); }
  { exception_fallback fb; S::const_iterator it = s.begin(); bool thrown = false; size_t n = 0; ustring x; try { while (it != s.end()) { x += chars_to_uchar(it, s.end(), fb); n++; } } catch (const std::invalid_argument &) { thrown = true; }
    ustring y; for (auto &i : v) { if (!i.ok) break; y += i.c; } SEQ_CHECK(thrown == !valid && x == y, "exception", "decoding with exceptions: %s after %s", thrown ? "thrown" : "not thrown", us(x).c_str()); }
}
static void quick(const S &s) {
  if (s[2] == (char)0x80 || s[2] == 0x70) seq::begin_s(seq::show(s) + "..."); seq::op();
  std::vector<Item> v = decode(s); ustring w; bool valid = true; S san; for (auto &i : v) { w += i.ok ? i.c : 0xfffd; valid &= i.ok; if (i.ok && i.c >= 0x20 && i.c != 0xfffe && i.c != 0xffff) san += i.bytes; }
  SEQ_CHECK(string_to_ustring(s) == w, "decode", "%s decoded as %s, expected %s", seq::show(s).c_str(), us(string_to_ustring(s)).c_str(), us(w).c_str());
  SEQ_CHECK(check_utf8(s) == valid, "check", "%s: check_utf8 says %d", seq::show(s).c_str(), !valid); SEQ_CHECK(sanitize_utf8(s) == san, "sanitize", "%s sanitized to %s, expected %s", seq::show(s).c_str(), seq::show(sanitize_utf8(s)).c_str(), seq::show(san).c_str());
}
static U zen(U c) {   // full-width form of half-width katakana and punctuation U+FF61..U+FF9F
  static const U T[] = {0x3002,0x300c,0x300d,0x3001,0x30fb,0x30f2,0x30a1,0x30a3,0x30a5,0x30a7,0x30a9,0x30e3,0x30e5,0x30e7,0x30c3,0x30fc,0x30a2,0x30a4,0x30a6,0x30a8,0x30aa,0x30ab,0x30ad,0x30af,0x30b1,0x30b3,0x30b5,0x30b7,0x30b9,0x30bb,0x30bd,0x30bf,0x30c1,0x30c4,0x30c6,0x30c8,0x30ca,0x30cb,0x30cc,0x30cd,0x30ce,0x30cf,0x30d2,0x30d5,0x30d8,0x30db,0x30de,0x30df,0x30e0,0x30e1,0x30e2,0x30e4,0x30e6,0x30e8,0x30e9,0x30ea,0x30eb,0x30ec,0x30ed,0x30ef,0x30f3,0x3099,0x309a};
  return c >= 0xff61 && c <= 0xff9f ? T[c - 0xff61] : c;
}
static U voiced(U c) { static std::map<U, U> m; if (m.empty()) { for (U x : {0x30abu,0x30adu,0x30afu,0x30b1u,0x30b3u,0x30b5u,0x30b7u,0x30b9u,0x30bbu,0x30bdu,0x30bfu,0x30c1u,0x30c4u,0x30c6u,0x30c8u,0x30cfu,0x30d2u,0x30d5u,0x30d8u,0x30dbu}) m[x] = x + 1; m[0x30a6] = 0x30f4; m[0x30f2] = 0x30fa; } return m.count(c) ? m[c] : 0; }
static U semi(U c) { return c == 0x30cf || c == 0x30d2 || c == 0x30d5 || c == 0x30d8 || c == 0x30db ? c + 2 : 0; }
static void width(const ustring &u) {
  seq::begin_s(us(u)); seq::op();
  ustring w;
  for (U c : u) {
    U b = w.empty() ? 0 : w[w.size() - 1];
    if (c == 0xff9e && voiced(b)) w[w.size() - 1] = voiced(b);
    else if (c == 0xff9f && semi(b)) w[w.size() - 1] = semi(b);
    else if (c == '-' && b > 0x7f) w += 0x30fc;
    else w += zen(c);
  }
  ustring g = hankaku_to_zenkaku(u); bool wa = false; for (U c : w) wa |= c == 0x30ef;
  if (!wa) SEQ_CHECK(g == w, "zenkaku", "full width: %s, expected %s", us(g).c_str(), us(w).c_str());
  ustring a, b; for (U c : u) { a += c >= 0xff01 && c <= 0xff5e ? c - 0xfee0 : c == 0x3000 ? ' ' : c; b += c > 0x20 && c < 0x7f ? c + 0xfee0 : c == ' ' ? 0x3000 : c; }
  g = zenkaku_latin_to_basic_latin(u); SEQ_CHECK(g == a, "latin", "basic latin: %s, expected %s", us(g).c_str(), us(a).c_str());
  g = basic_latin_to_zenkaku_latin(u); SEQ_CHECK(g == b, "latin", "zenkaku latin: %s, expected %s", us(g).c_str(), us(b).c_str());
  { std::ostringstream os; os << u << '|'; S e; for (U c : u) e += enc(c); SEQ_CHECK(os.str() == e + "|", "print", "printed as %s", seq::show(os.str()).c_str()); }
  seq::observe(us(w));
}
static const unsigned char REP[] = {0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xfc, 0xfe, 0xff, 0x00, 0x1f, 0x20, 0x7f, 0x81, 0xbb, 0xbd, 0xbe, 0xc3, 0xec, 0xee, 0xf3, 0xf7, 0xfb, 0xfd};
static std::vector<S> reps(int n) { std::vector<S> r; for (int i = 0; i < n; i++) r.push_back(S(1, (char)REP[i])); return r; }
static void reg() {
  seq::task("codepoints", 8, 8, [](int p, int np) {
    for (U c = p; c <= 0x110010; c += np) {
      seq::begin("U+%04X", c); seq::op();
      bool sp = c == 0x20 || (c >= 9 && c <= 13);
      SEQ_CHECK(is_basic_latin(c) == (c < 128) && is_alnum(c) == ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) && is_hiragana(c) == (c >= 0x3040 && c <= 0x309f) && is_katakana(c) == (c >= 0x30a0 && c <= 0x30ff) && is_kanji(c) == (c >= 0x4e00 && c <= 0x9fff), "class", "wrongly classified");
      if (c >= 0xff61 && c <= 0xff9f) SEQ_CHECK(is_hankaku(c), "class", "wrongly classified"); else if (c != 0xff60) SEQ_CHECK(!is_hankaku(c), "class", "wrongly classified");
      U a = c >= 0xff01 && c <= 0xff5e ? c - 0xfee0 : c == 0x3000 ? ' ' : c, b = c > 0x20 && c < 0x7f ? c + 0xfee0 : c == ' ' ? 0x3000 : c;
      SEQ_CHECK(zenkaku_latin_to_basic_latin(c) == a && basic_latin_to_zenkaku_latin(c) == b, "latin", "converted to U+%04X and U+%04X", zenkaku_latin_to_basic_latin(c), basic_latin_to_zenkaku_latin(c));
      if (!scalar(c)) { S r = uchar_to_string(c); if (c > 0x10ffff) SEQ_CHECK(r.empty(), "encode", "not a code point, encoded as %s", seq::show(r).c_str()); continue; }
      S e = enc(c), g = uchar_to_string(c); SEQ_CHECK(g == e, "encode", "encoded as %s", seq::show(g).c_str());
      std::vector<char> l; std::back_insert_iterator<std::vector<char>> ins(l); uchar_to_chars(c, ins); SEQ_CHECK(S(l.begin(), l.end()) == e, "encode", "encoded as %s", seq::show(S(l.begin(), l.end())).c_str());
      SEQ_CHECK(string_to_uchar(e) == c, "decode", "decoded as U+%04X", string_to_uchar(e));
      if (c % 16 < 2 || c < 0x3100) { bytes(e, true); bytes("a" + e + e + "z", true); for (size_t k = 1; k < e.size(); k++) bytes(e.substr(0, k) + "b" + e.substr(k), c < 0x900); width(ustring(1, c)); if (c && !sp) { std::istringstream is(" " + e + "x " + e); ustring x, y; is >> x >> y; SEQ_CHECK(x == ustring(1, c) + ustring(1, 'x') && y == ustring(1, c), "read", "read as %s %s", us(x).c_str(), us(y).c_str()); } }
    }
  });
  seq::task("bytes", 8, 16, [](int p, int np) {
    std::vector<S> all; for (int i = 0; i < 256; i++) all.push_back(S(1, (char)i));
    seq::strings(all, 0, seq::thorough ? 3 : 2, p, np, [](const S &s) { bytes(s, s.size() < 3); });
    seq::strings(reps(38), 3, seq::thorough ? 4 : 3, p, np, [](const S &s) { bytes(s, s.size() < 4); });
    seq::strings(reps(23), 4, seq::thorough ? 5 : 4, p, np, [](const S &s) { bytes(s, false); });
    for (int lead : {0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xc2, 0xfb, 0xfd}) seq::strings(reps(7), 2, 6, p, np, [lead](const S &s) { bytes(S(1, (char)lead) + s, s.size() < 5); });
  });
  seq::task("sequences", 8, 8, [](int p, int np) {   // every lead byte with every combination of following bytes (3 bytes), of continuation bytes (4 bytes)
    for (int l = 0xe0 + p; l < 0xf0; l += np) for (int a = 0x70; a < 0xd0; a++) for (int b = 0x70; b < 0xd0; b++) quick(S({(char)l, (char)a, (char)b}));
    for (int l = 0xf0; l < 0xf8; l++) for (int a = 0x80 + p; a < 0xc0; a += np) for (int b = 0x80; b < 0xc0; b++) for (int c = 0x80; c < 0xc0; c++) quick(S({(char)l, (char)a, (char)b, (char)c}));
  });
  seq::task("width", 4, 8, [](int p, int np) {
    std::vector<U> a = {'a', '-', 0x30fc, 0x3042}; for (U c = 0xff5f; c <= 0xffa1; c++) a.push_back(c); for (U c = 0x30a0; c <= 0x30ff; c++) a.push_back(c);
    seq::tuples(a.size(), 2, p, np, [&](const std::vector<int> &d) { ustring u; for (int i : d) u += a[i]; width(u); });
    std::vector<U> b = {'a', '-', 0x3042, 0xff66, 0xff73, 0xff76, 0xff77, 0xff8a, 0xff8e, 0xff9c, 0xff9d, 0xff9e, 0xff9f, 0x30cf, 0x30ac, 0x3000, ' '};
    for (int n = 3; n <= (seq::thorough ? 5 : 4); n++) seq::tuples(b.size(), n, p, np, [&](const std::vector<int> &d) { ustring u; for (int i : d) u += b[i]; width(u); });
  });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
