// C20: bit codes: what the encoder wrote is what the decoder reads, in any mixture of codes
#include "../mc/seq.h"
#include <data/code/code.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
typedef std::string S; typedef unsigned int U;
using namespace pfi::data::code;
struct Item { int kind; U v, k; };   // 0 byte 1 word 2 gamma 3 delta 4 rice 5 prefix
static const char *KN[] = {"byte", "word", "gamma", "delta", "rice", "prefix"};
static S str(const std::vector<Item> &v) { S r; char b[64]; for (auto &i : v) { snprintf(b, sizeof b, "%s(%u,%u) ", KN[i.kind], i.v, i.k); r += b; } return r; }
static void put(encoder &e, const Item &i) { switch (i.kind) { case 0: e.byte(i.v); break; case 1: e.word_with_length(i.v, i.k); break; case 2: e.gamma(i.v); break; case 3: e.delta(i.v); break; case 4: e.rice(i.v, i.k); break; default: e.prefix_code(i.v); } }
static U get(decoder &d, const Item &i) { switch (i.kind) { case 0: return d.byte(); case 1: return d.word_with_length(i.k); case 2: return d.gamma(); case 3: return d.delta(); case 4: return d.rice(i.k); default: return d.prefix_code(); } }
static U want(const Item &i) { return i.kind == 0 ? i.v & 255 : i.kind == 1 && i.k < 32 ? i.v & ((1u << i.k) - 1) : i.v; }
// reference bit stream: least significant bit first
struct Ref { std::vector<bool> b; void bits(U v, U n) { for (U i = 0; i < n; i++) b.push_back(v >> i & 1); } void align() { while (b.size() % 8) b.push_back(0); }
  static U len(U v) { U l = 0; while (v) { l++; v >>= 1; } return l; }
  void gamma(U v) { U l = len(v) - 1; bits(0, l); bits(1, 1); bits(v, l); } void delta(U v) { U l = len(v) - 1; gamma(l + 1); bits(v, l); }
  void put(const Item &i) { switch (i.kind) { case 0: align(); bits(i.v, 8); break; case 1: bits(i.v, i.k); break; case 2: gamma(i.v); break; case 3: delta(i.v); break; case 4: delta((i.v >> i.k) + 1); bits(i.v, i.k); break; default: align(); { U v = i.v; while (v >= 128) { bits(v & 127, 8); v >>= 7; } bits(v + 128, 8); } } }
  S str() { align(); S r(b.size() / 8, 0); for (size_t i = 0; i < b.size(); i++) if (b[i]) r[i / 8] |= 1 << i % 8; return r; } };
static S dir;
static void run(const std::vector<Item> &v, bool file = false) {
  seq::begin_s(str(v)); seq::op(v.size());
  encoder e; Ref r; for (auto &i : v) { put(e, i); r.put(i); }
  S w = r.str(), g(e.get_bytes().begin(), e.get_bytes().end());
  SEQ_CHECK(g == w, "bits", "encoded as %s, expected %s", seq::show(g).c_str(), seq::show(w).c_str());
  std::vector<unsigned char> pad(g.begin(), g.end()); pad.resize(pad.size() + 8);
  { decoder d; d.attach(&pad[0]); int n = 0; for (auto &i : v) { U x = get(d, i); n++; SEQ_CHECK(x == want(i), "decode", "item %d decoded as %u instead of %u", n, x, want(i)); } }
  { std::ostringstream os; int res = e.flush(os); SEQ_CHECK(res >= 0 && os.str() == w && e.get_bytes().empty(), "flush", "flushed %s", seq::show(os.str()).c_str());
    std::istringstream is(os.str() + "tail"); decoder d; SEQ_CHECK(!d.is_open() && d.attach(is, os.str().size()) == 0 && d.is_open(), "attach", "attach failed"); int n = 0; for (auto &i : v) { U x = get(d, i); n++; SEQ_CHECK(x == want(i), "decode", "from a stream: item %d decoded as %u instead of %u", n, x, want(i)); }
    d.seek(0); if (!v.empty()) SEQ_CHECK(get(d, v[0]) == want(v[0]), "seek", "after seek(0): the first item is different"); d.detach(); SEQ_CHECK(!d.is_open(), "detach", "still open"); }
  // the decoder can be re-attached at any time, whatever was read before
  { decoder d; std::vector<unsigned char> junk(16, 0x5a); for (int how = 0; how < 6; how++) {
      if (how & 1) d.attach(&junk[0]); else { std::istringstream is(S(16, '\x35')); d.attach(is, 16); } d.word_with_length(3 + how); if (how >= 4) d.detach();
      if (how & 2) d.attach(&pad[0]); else { std::istringstream is(w); d.attach(is, w.size()); }
      int n = 0; for (auto &i : v) { U x = get(d, i); n++; SEQ_CHECK(x == want(i), "reattach", "attached again: item %d decoded as %u instead of %u", n, x, want(i)); } } }
  // the encoder starts afresh after flush
  for (auto &i : v) put(e, i);
  g = S(e.get_bytes().begin(), e.get_bytes().end()); SEQ_CHECK(g == w, "reuse", "after flush: encoded as %s, expected %s", seq::show(g).c_str(), seq::show(w).c_str());
  if (file) { S fn = dir + "/f" + std::to_string(getpid()); { std::ofstream o(fn.c_str()); o << "old content that is longer than anything written below............................"; } e.flush(fn); std::ifstream f(fn.c_str()); S c((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); SEQ_CHECK(c == w, "file", "file contains %s", seq::show(c).c_str()); decoder d; SEQ_CHECK(d.attach(fn) == 0, "file", "attach failed"); int n = 0; for (auto &i : v) { U x = get(d, i); n++; SEQ_CHECK(x == want(i), "file", "item %d decoded as %u instead of %u", n, x, want(i)); } unlink(fn.c_str()); }
  seq::observe(w); if (v.size() > 1) seq::nontrivial();
}
static std::vector<U> bounds() { std::vector<U> r; for (int k = 0; k < 32; k++) for (int d = -1; d <= 1; d++) { U x = (1u << k) + d; if (x) r.push_back(x); } r.push_back(~0u); r.push_back(~0u - 1); return r; }
static void reg() {
  const char *t = getenv("TMPDIR"); dir = t ? t : "/tmp";
  seq::task("single", 4, 8, [](int p, int np) {
    std::vector<U> v = bounds(); U lim = seq::thorough ? 1 << 17 : 5000; for (U i = 0; i <= lim; i++) v.push_back(i);
    for (size_t n = p; n < v.size(); n += np) { U x = v[n]; run({{5, x, 0}}); if (x) { run({{2, x, 0}}); run({{3, x, 0}}); } for (U k : {0u, 1u, 2u, 5u, 8u, 16u, 30u}) if (!(k == 0 && x == ~0u)) run({{4, x, k}}); }
    for (U k = p; k <= 32; k += np) for (U x : bounds()) run({{1, x, k}});
    if (p == 0) for (U x = 0; x < 256; x++) run({{0, x, 0}});
  });
  seq::task("offset", 4, 8, [](int p, int np) {   // every code at every bit offset, followed by something
    std::vector<U> v = bounds(); int n = 0;
    for (U off = 0; off < 16; off++) for (U x : v) { if (n++ % np != p) continue; std::vector<std::vector<Item>> m = {{{0, x, 0}}, {{2, x, 0}}, {{3, x, 0}}, {{5, x, 0}}, {{4, x, 3}}, {{4, x, 17}}}; for (U l : {1u, 3u, 7u, 8u, 9u, 15u, 16u, 17u, 24u, 25u, 31u, 32u}) m.push_back({{1, x, l}});
      for (auto &i : m) for (U pre : {0u, ~0u}) { std::vector<Item> s = {{1, pre, off}}; s.insert(s.end(), i.begin(), i.end()); s.push_back({2, 5, 0}); s.push_back({0, 0xa5, 0}); run(s); } }
  });
  seq::task("mixed", 8, 16, [](int p, int np) {
    static const Item A[] = {{0, 0xff, 0}, {0, 0, 0}, {1, 1, 1}, {1, 5, 3}, {1, 0, 7}, {1, ~0u, 32}, {1, 0x12345678, 29}, {1, 9, 0}, {2, 1, 0}, {2, 7, 0}, {2, 0x80000000u, 0}, {3, 1, 0}, {3, 1000, 0}, {3, ~0u, 0}, {4, 0, 0}, {4, 77, 3}, {4, ~0u, 5}, {5, 0, 0}, {5, 128, 0}, {5, ~0u, 0}};
    seq::tuples(20, seq::thorough ? 5 : 4, p, np, [](const std::vector<int> &d) { std::vector<Item> v; for (int i : d) v.push_back(A[i]); run(v); });
    if (p == 0) seq::tuples(20, 2, 0, 1, [](const std::vector<int> &d) { std::vector<Item> v; for (int i : d) v.push_back(A[i]); run(v, true); });
  });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
