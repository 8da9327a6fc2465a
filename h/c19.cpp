// C19: MD5 digests
#include "../mc/seq.h"
#include <data/digest/md5.h>
#include <sstream>
#include <list>
#include <iomanip>
typedef std::string S;
using pfi::data::digest::md5sum;
static const uint32_t K[64] = {
0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
static const int R[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
static S ref(const S &s, uint32_t *h) {
  h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476;
  S m = s; m += '\x80'; while (m.size() % 64 != 56) m += '\0'; uint64_t n = (uint64_t)s.size() * 8; for (int i = 0; i < 8; i++) m += (char)(n >> 8 * i);
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[16]; for (int i = 0; i < 16; i++) w[i] = (uint8_t)m[o + 4 * i] | (uint8_t)m[o + 4 * i + 1] << 8 | (uint8_t)m[o + 4 * i + 2] << 16 | (uint32_t)(uint8_t)m[o + 4 * i + 3] << 24;
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; i++) { uint32_t f; int g; if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = 7 * i % 16; }
      f += a + K[i] + w[g]; a = d; d = c; c = b; b += f << R[i] | f >> (32 - R[i]); }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  S r; char t[4]; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) { snprintf(t, 4, "%02x", h[i] >> 8 * k & 255); r += t; } return r;
}
static S str(const md5sum &m, int fl) {   // fl: base 0-3, case 4, showbase 8, adjustment 16*(0-3), fill 64, width 128
  std::ostringstream os; static const std::ios::fmtflags B[] = {std::ios::dec, std::ios::hex, std::ios::oct, std::ios::fmtflags(0)}, A[] = {std::ios::fmtflags(0), std::ios::left, std::ios::right, std::ios::internal};
  os.setf(B[fl & 3], std::ios::basefield); if (fl & 4) os.setf(std::ios::uppercase); if (fl & 8) os.setf(std::ios::showbase | std::ios::showpos | std::ios::boolalpha); os.setf(A[fl >> 4 & 3], std::ios::adjustfield); if (fl & 64) os.fill('*'); if (fl & 128) os.width(3);
  auto f = os.flags(); char c = os.fill(); os << m; if (os.flags() != f || os.fill() != c) return "stream state changed"; return os.str(); }
static void one(const S &s) {
  seq::begin_s(seq::show(s)); seq::op(); uint32_t h[4]; S w = ref(s, h);
  md5sum a(s); SEQ_CHECK(a.a == h[0] && a.b == h[1] && a.c == h[2] && a.d == h[3] && str(a, 0) == w, "digest", "digest %s, expected %s", str(a, 0).c_str(), w.c_str());
  std::istringstream is(s); md5sum b(is); SEQ_CHECK(str(b, 0) == w, "digest", "from a stream: %s, expected %s", str(b, 0).c_str(), w.c_str());
  if (s.size() < 200) { std::list<char> l(s.begin(), s.end()); md5sum c(l.begin(), l.end()); SEQ_CHECK(str(c, 0) == w, "digest", "from iterators: %s, expected %s", str(c, 0).c_str(), w.c_str()); }
  seq::observe(w);
}
static void reg() {
  seq::task("bytes", 4, 8, [](int p, int np) { std::vector<S> all; for (int i = 0; i < 256; i++) all.push_back(S(1, (char)i)); seq::strings(all, 0, 2, p, np, one); });
  seq::task("lengths", 2, 4, [](int p, int np) { for (int n = p; n < (seq::thorough ? 3000 : 600); n += np) for (int k = 0; k < 4; k++) { S s; unsigned x = k * 77; for (int i = 0; i < n; i++) { x = x * 1103515245u + 12345u; s += k == 0 ? '\0' : k == 1 ? '\xff' : (char)(x >> 16); } one(s); } });
  seq::task("big", 1, 1, [](int, int) { for (int n : {65535, 65536, 100000, 1 << 20}) one(S(n, 'q')); if (seq::thorough) one(S((size_t)1 << 29, 'z')); });
  seq::task("huge", 1, 1, [](int, int) {   // the bit count exceeds 32 bits: 2^29 + 3 bytes 'z' from an iterator (digest by md5sum(1))
    struct It { typedef std::input_iterator_tag iterator_category; typedef char value_type; typedef ptrdiff_t difference_type; typedef const char *pointer; typedef char reference; size_t n; char operator*() const { if (!(n & 0xffffff)) seq::op(); return 'z'; } It &operator++() { n++; return *this; } It operator++(int) { It o = *this; n++; return o; } bool operator==(const It &o) const { return n == o.n; } bool operator!=(const It &o) const { return n != o.n; } };
    seq::begin("2^29+3 bytes"); md5sum m(It{0}, It{((size_t)1 << 29) + 3}); S w = "91d084db30ab06c7ad8970d2f960a461"; SEQ_CHECK(str(m, 0) == w, "digest", "digest %s, expected %s", str(m, 0).c_str(), w.c_str()); seq::observe(w); });
  seq::task("bit", 2, 4, [](int p, int np) { for (int n : {55, 56, 63, 64, 65, 119, 120, 128}) for (int b = p; b < n * 8; b += np) { S s(n, '\0'); s[b / 8] = (char)(1 << b % 8); one(s); } });
  seq::task("order", 1, 1, [](int, int) {
    static const uint32_t V[] = {0, 1, 0x80000000u, ~0u}; std::vector<md5sum> m; for (uint32_t a : V) for (uint32_t b : V) for (uint32_t c : V) for (uint32_t d : V) m.push_back(md5sum(a, b, c, d));
    for (auto &x : m) for (auto &y : m) { seq::begin("order"); seq::op(); bool w = std::make_pair(std::make_pair(x.a, x.b), std::make_pair(x.c, x.d)) < std::make_pair(std::make_pair(y.a, y.b), std::make_pair(y.c, y.d)); bool l = x < y, g = y < x, eq = x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d; (void)w; SEQ_CHECK(l + g + eq == 1, "order", "%s and %s: less %d greater %d equal %d", str(x, 0).c_str(), str(y, 0).c_str(), l, g, eq); }
    for (auto &x : m) for (auto &y : m) for (size_t k = 0; k < m.size(); k += 5) { auto &z = m[k]; SEQ_CHECK(!(x < y && y < z) || x < z, "order", "not transitive"); }
    for (auto &x : m) { seq::begin("print"); seq::op(); S w; char t[4]; for (uint32_t v : {x.a, x.b, x.c, x.d}) for (int k = 0; k < 4; k++) { snprintf(t, 4, "%02x", v >> 8 * k & 255); w += t; } for (int fl = 0; fl < 256; fl++) { seq::op(); SEQ_CHECK(str(x, fl) == w, "print", "printed as %s, expected %s (stream state %d)", str(x, fl).c_str(), w.c_str(), fl); } }
  });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
