// C25: LRU cache, interning table and Fenwick tree against plain reference models, over all operation sequences
#include "../mc/seq.h"
#include <data/lru.h>
#include <data/intern.h>
#include <data/fenwick_tree.h>
#include <data/serialization.h>
#include <cctype>
#include <sstream>
#include <list>
using namespace std;
typedef string S;
static S tos(long v) { char b[24]; snprintf(b, sizeof b, "%ld", v); return b; }

// ---- LRU ------------------------------------------------------------------------------------
struct Val { int v; Val() : v(0) {} Val(int v) : v(v) {} bool operator==(const Val &o) const { return v == o.v; } };
template <class K> struct Lru {
  typedef pfi::data::lru<K, Val> L; typedef list<pair<K, int> > M;   // most recent first
  int cap; vector<K> keys; int depth; vector<S> names; int part, nparts; unsigned long top;
  static typename M::iterator at(M &m, const K &k) { typename M::iterator i = m.begin(); while (i != m.end() && !(i->first == k)) ++i; return i; }
  static void front(M &m, typename M::iterator i) { m.splice(m.begin(), m, i); }
  void put(M &m, const K &k, int v) { typename M::iterator i = at(m, k); if (i != m.end()) { i->second = v; front(m, i); return; } while ((int)m.size() >= cap) m.pop_back(); m.push_front(make_pair(k, v)); }
  // everything observable, on copies
  bool audit(const L &l, const M &m0, const S &path) {
    M m = m0;
    for (auto &k : keys) if (l.has(k) != (at(m, k) != m.end())) { seq::viol("lru-has", "%s: has(key) is %d", path.c_str(), l.has(k)); return false; }
    for (auto &k : keys) { L c(l); typename M::iterator i = at(m, k); bool threw = false; int v = -1;
      try { v = c.get(k).v; } catch (const exception &) { threw = true; }
      if (threw != (i == m.end()) || (!threw && v != i->second)) { seq::viol("lru-get", "%s: get gives %s%d", path.c_str(), threw ? "an error, not " : "", v); return false; } }
    L c(1); c = l; M n = m0;   // eviction order: push unrelated keys
    for (int i = 0; i <= cap; i++) { K x = keys[0]; other(x, i); c.set(x, Val(900 + i)); put(n, x, 900 + i);
      for (auto &k : keys) if (c.has(k) != (at(n, k) != n.end())) { seq::viol("lru-evict", "%s: after %d more insertions, has(key) is %d", path.c_str(), i + 1, c.has(k)); return false; } }
    return true;
  }
  static void other(int &x, int i) { x = 1000 + i; }
  static void other(S &x, int i) { x = "other" + tos(i); }
  void dfs(const L &l, const M &m, int d, const S &path) {
    S st; for (auto &e : m) st += tos(e.second) + ","; seq::observe(st + tos(cap));
    if (d == depth) return;
    int nk = keys.size();
    for (int op = 0; op < 6 * nk + 1; op++) {
      if (d == 1 && (int)(top++ % nparts) != part) continue;
      L c(l); M n = m; S p = path; int v = 10 + d; const K &k = keys[op % nk];
      static const char *NM[] = {"set", "get", "touch", "remove", "[]=", "[]", "clear"}; int o = op / nk;
      p += S(NM[o]) + (o < 6 ? tos(op % nk) : S()) + " ";
      seq::begin_s("LRU of size " + tos(cap) + ": " + p); seq::op();
      typename M::iterator i = at(n, k); bool threw = false, want = false; int got = v, exp = v;
      switch (o) {
        case 0: c.set(k, Val(v)); put(n, k, v); break;
        case 1: try { got = c.get(k).v; } catch (const exception &) { threw = true; } want = i == n.end(); if (!want) { exp = i->second; front(n, i); } break;
        case 2: c.touch(k); if (i != n.end()) front(n, i); break;
        case 3: c.remove(k); if (i != n.end()) n.erase(i); break;
        case 4: c[k] = Val(v); put(n, k, v); break;
        case 5: got = c[k].v; if (i != n.end()) { exp = i->second; front(n, i); } else { exp = 0; put(n, k, 0); } break;
        case 6: c.clear(); n.clear(); break;
      }
      if (threw != want || (!threw && got != exp)) { seq::viol("lru-result", "%s: got %s%d, expected %s%d", p.c_str(), threw ? "error " : "", got, want ? "error " : "", exp); continue; }
      if ((int)n.size() == cap) seq::nontrivial();
      if (!audit(c, n, p)) continue;
      dfs(c, n, d + 1, p);
    }
    M m2 = m; if (d > 0 && !audit(l, m2, path + "(after working on copies)")) return;
  }
};
template <class K> static void lrut(const char *n, const vector<K> &keys, int cap, int depth, int depth_t) {
  if (!depth) { if (!seq::thorough) return; }
  int d = seq::thorough ? depth_t : depth;
  seq::task("lru " + S(n) + " " + tos(cap), 6, 16, [=](int p, int np) { Lru<K> t; t.cap = cap; t.keys = keys; t.depth = d; t.part = p; t.nparts = np; t.top = 0; pfi::data::lru<K, Val> l(cap); t.dfs(l, typename Lru<K>::M(), 0, ""); });
}

// ---- intern ---------------------------------------------------------------------------------
struct CiHash { size_t operator()(const S &s) const { size_t h = 5; for (char c : s) h = h * 3 + tolower((unsigned char)c); return h; } };
struct CiEq { bool operator()(const S &a, const S &b) const { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (tolower((unsigned char)a[i]) != tolower((unsigned char)b[i])) return false; return true; } };
struct BadHash { size_t operator()(const S &) const { return 7; } };
template <class T> static S ser(T &t) { ostringstream os; { pfi::data::serialization::binary_oarchive oa(os); oa << t; } return os.str(); }
template <class I, class E> struct Int {
  vector<S> keys; int depth, part, nparts; unsigned long top; E eq;
  typedef vector<S> M;
  int find(const M &m, const S &k) { for (size_t i = 0; i < m.size(); i++) if (eq(m[i], k)) return i; return -1; }
  bool audit(const I &t, const M &m, const S &p) {
    if (t.size() != m.size() || t.empty() != m.empty()) { seq::viol("intern-size", "%s: size %zu instead of %zu", p.c_str(), t.size(), m.size()); return false; }
    for (auto &k : keys) { int w = find(m, k), g = t.key2id_nogen(k); I c(t); int g2 = c.key2id(k, false);
      if (g != w || g2 != w || t.exist_key(k) != (w >= 0)) { seq::viol("intern-id", "%s: %s has id %d/%d instead of %d", p.c_str(), seq::show(k).c_str(), g, g2, w); return false; }
      if (c.size() != m.size()) { seq::viol("intern-nogen", "%s: asking without generating added a key", p.c_str()); return false; } }
    for (int i = -2; i < (int)m.size() + 3; i++) { bool w = i >= 0 && i < (int)m.size(); if (t.exist_id(i) != w) { seq::viol("intern-exist", "%s: exist_id(%d) is %d", p.c_str(), i, t.exist_id(i)); return false; } if (w && t.id2key(i) != m[i]) { seq::viol("intern-key", "%s: id %d is %s instead of %s", p.c_str(), i, seq::show(t.id2key(i)).c_str(), seq::show(m[i]).c_str()); return false; } }
    return true;
  }
  void dfs(I a, I b, M ma, M mb, int d, const S &path) {
    S st; for (auto &e : ma) st += e + ","; st += "/"; for (auto &e : mb) st += e + ","; seq::observe(st);
    if (d == depth) return;
    int nk = keys.size();
    for (int op = 0; op < nk + 8; op++) {
      if (d == 1 && (int)(top++ % nparts) != part) continue;
      I x(a), y(b); M n = ma, q = mb; S p = path; seq::op(); bool good = true;
      if (op < nk) { p += "id" + tos(op) + " "; seq::begin_s("intern: " + p); int g = x.key2id(keys[op]), w = find(n, keys[op]); if (w < 0) { w = n.size(); n.push_back(keys[op]); } if (g != w) { seq::viol("intern-gen", "%s gave id %d instead of %d", p.c_str(), g, w); continue; } if (n.size() > 2) seq::nontrivial(); }
      else switch (op - nk) {
        case 0: p += "clear "; seq::begin_s("intern: " + p); x.clear(); n.clear(); break;
        case 1: p += "swap "; seq::begin_s("intern: " + p); x.swap(y); n.swap(q); break;
        case 2: p += "std-swap "; seq::begin_s("intern: " + p); { using std::swap; swap(x, y); } n.swap(q); break;
        case 3: p += "assign "; seq::begin_s("intern: " + p); y = x; q = n; break;
        case 4: p += "write-read "; seq::begin_s("intern: " + p); { S s = ser(x); I z; istringstream is(s); pfi::data::serialization::binary_iarchive ia(is); ia >> z; if (!ia) { seq::viol("intern-read", "reading back failed"); good = false; break; } x = z; } break;
        case 5: p += "write-read-into-other "; seq::begin_s("intern: " + p); { S s = ser(x); istringstream is(s); pfi::data::serialization::binary_iarchive ia(is); ia >> y; if (!ia) { seq::viol("intern-read", "reading back failed"); good = false; break; } q = n; } break;
        case 6: p += "read-cut "; seq::begin_s("intern: " + p); { S s = ser(x); for (size_t k = 0; k < s.size() && good; k++) { I z(y); istringstream is(s.substr(0, k)); pfi::data::serialization::binary_iarchive ia(is); bool ok; try { ia >> z; ok = (bool)ia; } catch (const exception &) { ok = false; } if (ok) { seq::viol("intern-cut", "%s: %zu of %zu bytes were read without an error", p.c_str(), k, s.size()); good = false; }
              for (size_t i = 0; i < z.size(); i++) if (z.exist_id(i) && z.key2id_nogen(z.id2key(i)) != (int)i) { seq::viol("intern-cut", "%s: reading %zu of %zu bytes left a table in which key and id disagree", p.c_str(), k, s.size()); good = false; break; } } } break;
        case 7: p += "copy "; seq::begin_s("intern: " + p); { I z(x); z.key2id("temporary"); z.clear(); } break;
      }
      if (!good || !audit(x, n, p) || !audit(y, q, p + "(the other)")) continue;
      if (op - nk == 6 || op - nk == 7) continue;   // no state change
      dfs(x, y, n, q, d + 1, p);
    }
  }
};
template <class I, class E> static void internt(const char *n, const vector<S> &keys, int d, int dt) {
  seq::task("intern " + S(n), 4, 8, [=](int p, int np) { Int<I, E> t; t.keys = keys; t.depth = seq::thorough ? dt : d; t.part = p; t.nparts = np; t.top = 0; t.dfs(I(), I(), vector<S>(), vector<S>(), 0, ""); });
}
static void damaged() {   // any byte of a serialized table replaced: no memory error, lookups stay possible
  typedef pfi::data::intern<S> I; vector<S> keys = {"", "a", "bc", "def"};
  for (int n = 1; n <= 4; n++) { I t; for (int i = 0; i < n; i++) t.key2id(keys[i]); S s = ser(t);
    for (size_t o = 0; o < s.size(); o++) for (int v : {0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xff}) for (int w = 1; w <= 4; w += 3) { S b = s; for (int k = 0; k < w && o + k < b.size(); k++) b[o + k] = v;
      seq::begin("intern of %d keys, %d bytes at %zu set to %d", n, w, o, v); seq::op(); I z; z.key2id("old"); istringstream is(b); bool ok; try { pfi::data::serialization::binary_iarchive ia(is); ia >> z; ok = (bool)ia; } catch (const exception &) { ok = false; }
      S r; for (int i = -2; i < 8; i++) if (z.exist_id(i)) r += z.id2key(i) + ","; for (auto &k : keys) r += tos(z.key2id_nogen(k)); z.key2id("new"); seq::observe(r + tos(ok)); } }
}

// ---- Fenwick tree ---------------------------------------------------------------------------
template <class T> static void fenwick(int n, int len, const vector<T> &amounts, int part, int np) {
  int na = amounts.size();
  seq::tuples(n * na, len, part, np, [&](const vector<int> &ix) {
    S nm; for (int i : ix) nm += "[" + tos(i / na) + "]+=" + tos((long)amounts[i % na]) + " ";
    seq::begin_s("Fenwick tree of " + tos(n) + ": " + nm); if (len > 1) seq::nontrivial();
    pfi::data::fenwick_tree<T> f(n); vector<T> ref(n); 
    for (int i : ix) { f.increase(i / na, amounts[i % na]); ref[i / na] += amounts[i % na]; seq::op(); }
    T s = 0; S st; for (int a = 0; a < n; a++) { s += ref[a]; T g = f.query(a); SEQ_CHECK(g == s, "fenwick-prefix", "sum of 0..%d is %ld instead of %ld", a, (long)g, (long)s); st += tos((long)g) + ","; 
      T r = 0; SEQ_CHECK(f.query(a, a - 1) == 0, "fenwick-empty", "the empty range at %d sums to %ld", a, (long)f.query(a, a - 1));
      for (int b = a; b < n; b++) { r += ref[b]; T q = f.query(a, b); SEQ_CHECK(q == r, "fenwick-range", "sum of %d..%d is %ld instead of %ld", a, b, (long)q, (long)r); } }
    SEQ_CHECK(f.query(-1) == 0, "fenwick-empty", "the sum of nothing is %ld", (long)f.query(-1));
    seq::observe(st);
  });
}
template <class T> static void fent(const char *n, const vector<T> &am, int maxn, int len) {
  seq::task("fenwick " + S(n), 2, 4, [=](int p, int np) { for (int k = 0; k <= maxn; k++) for (int l = 0; l <= (k ? len : 0); l++) fenwick<T>(k, l, am, p, np); });
}
static void reg() {
  bool t = seq::thorough;
  vector<int> ik = {3, -1, 0, 7}; vector<S> sk = {"", "a", "b"};
  lrut<int>("int", ik, 1, 3, 4); lrut<int>("int", ik, 2, 3, 4); lrut<int>("int", ik, 3, 3, 4);
  vector<int> i3 = {1, 2, 3}; lrut<int>("int3", i3, 1, 4, 5); lrut<int>("int3", i3, 2, 4, 5);
  lrut<S>("string", sk, 2, 4, 5);
  vector<int> i2 = {1, 2}; lrut<int>("int2", i2, 1, 5, 6); lrut<int>("int2", i2, 2, 5, 6);
  typedef pfi::data::intern<S> I0; typedef pfi::data::intern<S, CiHash, CiEq> I1; typedef pfi::data::intern<S, BadHash> I2;
  internt<I0, equal_to<S> >("string", {"", "a", "b", S("\0x", 2)}, 4, 5); internt<I1, CiEq>("ignoring case", {"x", "X", "xy", "Xy"}, 4, 5); internt<I2, equal_to<S> >("colliding", {"p", "q", "r"}, 4, 5);
  seq::task("lru long", 6, 6, [](int p, int) {   // long histories: every operation in turn, compared after each
    int cap = p + 1, nk = p + 3; typedef pfi::data::lru<int, Val> L; L l(cap); list<pair<int, int> > m; unsigned x = 12345 + p; seq::begin("LRU of size %d, long history", cap);
    auto find = [&](int k) { auto i = m.begin(); while (i != m.end() && i->first != k) ++i; return i; };
    for (long n = 0; n < (seq::thorough ? 3000000 : 150000); n++) { x = x * 1103515245u + 12345u; int k = (x >> 16) % nk, o = (x >> 24) % 8; auto i = find(k); bool in = i != m.end(); seq::op();
      if (o < 3) { l.set(k, Val(n)); if (in) { i->second = n; m.splice(m.begin(), m, i); } else { if ((int)m.size() >= cap) m.pop_back(); m.push_front(make_pair(k, (int)n)); } }
      else if (o < 5) { int g = -1; bool threw = false; try { g = l.get(k).v; } catch (const exception &) { threw = true; } SEQ_CHECK(threw == !in && (threw || g == i->second), "lru-long", "operation %ld: get gives %s%d", n, threw ? "an error, not " : "", g); if (in) m.splice(m.begin(), m, i); }
      else if (o == 5) { l.touch(k); if (in) m.splice(m.begin(), m, i); }
      else if (o == 6 && x % 5 == 0) { l.remove(k); if (in) m.erase(i); }
      else if (x % 1001 == 0) { l.clear(); m.clear(); }
      for (int j = 0; j < nk; j++) SEQ_CHECK(l.has(j) == (find(j) != m.end()), "lru-long", "operation %ld: has(%d) is %d", n, j, l.has(j)); }
  });
  seq::task("intern big", 2, 2, [](int p, int) {
    pfi::data::intern<S> t; pfi::data::intern<int> u; int N = 70000; seq::begin("%d keys", N);
    for (int i = 0; i < N; i++) { seq::op(); int a = p ? t.key2id("k" + tos(i * 7)) : u.key2id(i * 7 - 300); SEQ_CHECK(a == i, "intern-big", "key %d got id %d", i, a); if (i % 1000 == 0) { int b = p ? t.key2id("k" + tos(i / 2 * 7)) : u.key2id(i / 2 * 7 - 300); SEQ_CHECK(b == i / 2, "intern-big", "key %d has id %d", i / 2, b); } }
    if (p) { S s = ser(t); istringstream is(s); pfi::data::intern<S> z; z.key2id("old"); pfi::data::serialization::binary_iarchive ia(is); ia >> z; SEQ_CHECK((bool)ia && z.size() == (size_t)N, "intern-big", "reading back failed"); t.swap(z); }
    for (int i = 0; i < N; i++) { bool ok = p ? t.key2id_nogen("k" + tos(i * 7)) == i && t.id2key(i) == "k" + tos(i * 7) && t.exist_id(i) : u.key2id_nogen(i * 7 - 300) == i && u.id2key(i) == i * 7 - 300 && u.exist_id(i); SEQ_CHECK(ok, "intern-big", "key %d and its id disagree", i); }
    SEQ_CHECK(!(p ? t.exist_id(N) : u.exist_id(N)), "intern-big", "id %d exists", N);
  });
  seq::task("intern damaged", 1, 1, [](int, int) { damaged(); });
  fent<int>("int", {1, -2, 1000}, t ? 9 : 8, 3); fent<long long>("long long", {(long long)1 << 40, -7}, t ? 17 : 9, 3); fent<double>("double", {0.5, -256.0}, t ? 16 : 9, 3); fent<unsigned>("unsigned", {1u, ~0u}, 33, 2);
  seq::task("fenwick big", 2, 2, [](int p, int np) { for (int n : {63, 64, 65, 100, 127, 128, 129, 257}) fenwick<int>(n, 1, {5, -1}, p, np); });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
