// C13: binary serialization: exact round trip, fixed format, every truncation and every full sink is reported
#include "../mc/seq.h"
#include <sstream>
#include <fstream>
#include <unistd.h>
#include <limits>
#include <data/serialization.h>
#include <data/unordered_map.h>
#include <data/unordered_set.h>
#include <data/serialization/unordered_map.h>
#include <data/serialization/unordered_set.h>
#include <data/serialization/iostream.h>
#include <lang/shared_ptr.h>
using namespace std;
using namespace pfi::data::serialization;
typedef string S;

// ---- reference encoding ---------------------------------------------------------------------
template <class T> typename enable_if<is_arithmetic<T>::value, S>::type enc(T v) { S r((const char *)&v, sizeof v); return r; }  // this machine is little-endian
S enc(const S &s);
template <class T> S enc(const vector<T> &);
template <class T> S enc(const deque<T> &);
template <class T> S enc(const list<T> &);
template <class T> S enc(const set<T> &);
template <class K, class V> S enc(const map<K, V> &);
template <class K, class V> S enc(const pair<K, V> &);
struct User; S enc(const User &);
struct Named; S enc(const Named &);
struct Ptr; S enc(const Ptr &);
template <class I> S encr(I b, I e) { S r; uint32_t n = 0; for (; b != e; ++b, ++n) r += enc(*b); return enc(n) + r; }
S enc(const S &s) { return enc((uint32_t)s.size()) + s; }
template <class T> S enc(const vector<T> &v) { return encr(v.begin(), v.end()); }
template <class T> S enc(const deque<T> &v) { return encr(v.begin(), v.end()); }
template <class T> S enc(const list<T> &v) { return encr(v.begin(), v.end()); }
template <class T> S enc(const set<T> &v) { return encr(v.begin(), v.end()); }
template <class K, class V> S enc(const map<K, V> &v) { return encr(v.begin(), v.end()); }
template <class K, class V> S enc(const pair<K, V> &v) { return enc(v.first) + enc(v.second); }
template <class T, class E> void enc(const pfi::data::unordered_map<T, E> &);   // order not fixed
struct User { int a; S b; vector<S> c; User() : a(0) {} User(int a, const S &b, const vector<S> &c) : a(a), b(b), c(c) {}
  bool operator==(const User &o) const { return a == o.a && b == o.b && c == o.c; } bool operator<(const User &o) const { return a < o.a; }
 private: friend class pfi::data::serialization::access; template <class A> void serialize(A &ar) { ar & a & b & c; } };
S enc(const User &u) { return enc(u.a) + enc(u.b) + enc(u.c); }
struct Named { short x; map<S, User> m; double d; Named() : x(0), d(0) {}
  bool operator==(const Named &o) const { return x == o.x && m == o.m && d == o.d; }
  template <class A> void serialize(A &ar) { ar & NAME(Named) & MEMBER(x) & NAMED_MEMBER("emm", m) & MEMBER(d); } };
S enc(const Named &u) { return enc(u.x) + enc(u.m) + enc(u.d); }
struct Ptr { pfi::lang::shared_ptr<int> p; Ptr() : p(new int(0)) {} explicit Ptr(int v) : p(new int(v)) {} bool operator==(const Ptr &o) const { return *p == *o.p; } template <class A> void serialize(A &ar) { ar & *p; } };
S enc(const Ptr &u) { return enc(*u.p); }

template <class T> T clone(const T &v) { return v; }
template <> Ptr clone(const Ptr &v) { return Ptr(*v.p); }
template <> vector<Ptr> clone(const vector<Ptr> &v) { vector<Ptr> r; for (auto &x : v) r.push_back(Ptr(*x.p)); return r; }
template <> list<Ptr> clone(const list<Ptr> &v) { list<Ptr> r; for (auto &x : v) r.push_back(Ptr(*x.p)); return r; }
template <> deque<Ptr> clone(const deque<Ptr> &v) { deque<Ptr> r; for (auto &x : v) r.push_back(Ptr(*x.p)); return r; }
template <class T> bool same(const T &a, const T &b) { return a == b; }
template <> bool same(const double &a, const double &b) { return !memcmp(&a, &b, sizeof a); }
template <> bool same(const float &a, const float &b) { return !memcmp(&a, &b, sizeof a); }
template <> bool same(const long double &a, const long double &b) { return !memcmp(&a, &b, 10); }

struct Sink : streambuf { S s; size_t cap; explicit Sink(size_t c) : cap(c) {}
  int overflow(int c) { if (c == EOF) return 0; if (s.size() >= cap) return EOF; s += (char)c; return (unsigned char)c; }
  streamsize xsputn(const char *p, streamsize n) { streamsize k = min<size_t>(n, cap - s.size()); s.append(p, k); return k; } };
struct Drip : streambuf { S s; size_t p; char c; explicit Drip(const S &s) : s(s), p(0) {}   // one byte at a time
  int underflow() { if (p >= s.size()) return EOF; c = s[p++]; setg(&c, &c, &c + 1); return (unsigned char)c; } };

template <class T> struct Counted { static const bool v = false; };   // begins with a count
template <> struct Counted<S> { static const bool v = true; };
template <class T> struct Counted<vector<T> > { static const bool v = true; };
template <class T> struct Counted<deque<T> > { static const bool v = true; };
template <class T> struct Counted<list<T> > { static const bool v = true; };
template <class T> struct Counted<set<T> > { static const bool v = true; };
template <class K, class V> struct Counted<map<K, V> > { static const bool v = true; };
template <class K, class V> struct Counted<pfi::data::unordered_map<K, V> > { static const bool v = true; };
template <class K> struct Counted<pfi::data::unordered_set<K> > { static const bool v = true; };
template <class T> struct Enc { static const bool exact = true; static S of(const T &v) { return enc(v); } };
template <class K, class V> struct Enc<pfi::data::unordered_map<K, V> > { static const bool exact = false; static S of(const pfi::data::unordered_map<K, V> &v) { return encr(v.begin(), v.end()); } };
template <class K> struct Enc<pfi::data::unordered_set<K> > { static const bool exact = false; static S of(const pfi::data::unordered_set<K> &v) { return encr(v.begin(), v.end()); } };
template <> struct Enc<long double> { static const bool exact = false; static S of(const long double &v) { return S(sizeof v, 0); } };

template <class T> static void one(const char *name, const vector<T> &dom, size_t i) {
  T v = clone(dom[i]);
  seq::begin("%s value #%zu", name, i);
  S want = Enc<T>::of(v), got;
  { ostringstream os; binary_oarchive oa(os); oa << v; SEQ_CHECK((bool)oa, "write", "writing to a good stream failed"); got = os.str(); }
  SEQ_CHECK(same(v, dom[i]), "changed", "serializing changed the value");
  SEQ_CHECK(got.size() == want.size() && (!Enc<T>::exact || got == want), "format", "encoded as %s instead of %s", seq::show(got).c_str(), seq::show(want).c_str());
  seq::op(2); seq::observe(got);
  for (size_t j = 0; j < dom.size(); j++) {   // whatever the target held before
    seq::begin("%s value #%zu read over #%zu", name, i, j);
    T w = clone(dom[j]); 
    istringstream is(got + "xyz"); binary_iarchive ia(is); ia >> w;
    SEQ_CHECK((bool)ia, "read", "reading back failed");
    SEQ_CHECK(same(w, v), "roundtrip", "read back a different value; bytes %s", seq::show(got).c_str());
    SEQ_CHECK((size_t)is.tellg() == got.size(), "consumed", "%ld bytes consumed instead of %zu", (long)is.tellg(), got.size());
    seq::op();
  }
  { T w = clone(dom.front()); Drip d(got); istream is(&d); binary_iarchive ia(is); ia >> w; SEQ_CHECK((bool)ia && same(w, v), "drip", "reading byte by byte failed"); }
  for (size_t n = 0; n < got.size(); n++) {
    seq::begin("%s value #%zu cut to %zu of %zu bytes", name, i, n, got.size());
    for (size_t j : {(size_t)0, dom.size() - 1}) {
      T w = clone(dom[j]); istringstream is(got.substr(0, n)); binary_iarchive ia(is); ia >> w;
      SEQ_CHECK(!ia, "truncation", "a truncated archive (%zu of %zu bytes) was read without an error", n, got.size());
      seq::op();
    }
    Sink k(n); ostream os(&k); binary_oarchive oa(os); oa << v;
    SEQ_CHECK(!oa, "fullsink", "only %zu of %zu bytes could be written but no error is reported", n, got.size());
    SEQ_CHECK(!Enc<T>::exact || k.s == got.substr(0, n), "fullsink", "wrong bytes before the failure");
  }
}
// damaged data: any 4 bytes (a count, say) replaced; reading must end soon, without huge allocations
static size_t biggest;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void on_malloc(const volatile void *, size_t n) { if (n > biggest) biggest = n; }
static void on_free(const volatile void *) {}
template <class T> static void damaged(const char *name, const vector<T> &dom, size_t i) {
  T v = clone(dom[i]); ostringstream os; { binary_oarchive oa(os); oa << v; } S got = os.str();
  if (got.size() < 4 || got.size() > 120) return;
  for (size_t o = 0; o + 4 <= got.size(); o++) for (uint32_t c : {~0u, 0x7fffffffu, 0x40000000u, 100000000u}) for (size_t j : {(size_t)0, dom.size() - 1}) {
    seq::begin("%s value #%zu with %08x at offset %zu", name, i, c, o); seq::op();
    S b = got; memcpy(&b[o], &c, 4); T w = clone(dom[j]); istringstream is(b); biggest = 0;
    bool ok; try { binary_iarchive ia(is); ia >> w; ok = (bool)ia; } catch (const std::exception &) { ok = false; }
    SEQ_CHECK(biggest < 16u << 20, "allocation", "a buffer of %zu bytes was allocated for %zu bytes of data", biggest, b.size());
    if (o == 0 && Counted<T>::v) SEQ_CHECK(!ok, "count", "an impossible count was read without an error");
    seq::observe_u(ok);
  }
}
// two values in one archive
template <class T, class U> static void two(const char *name, const vector<T> &a, const vector<U> &b) {
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) {
    seq::begin("%s #%zu then #%zu", name, i, j);
    stringstream ss; { binary_oarchive oa(ss); T x = clone(a[i]); U y = clone(b[j]); oa << x << y; }
    T x = clone(a[0]); U y = clone(b[0]); binary_iarchive ia(ss); ia >> x >> y;
    SEQ_CHECK(ia && same(x, a[i]) && same(y, b[j]), "sequence", "values written one after the other are not read back");
    seq::op();
  }
}
template <class T> static void reg1(const string &name, const vector<T> &dom) {
  vector<T> *d = new vector<T>; for (auto &x : dom) d->push_back(clone(x));
  seq::task(name, 1, 1, [=](int, int) { static bool once = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); (void)once; for (size_t i = 0; i < d->size(); i++) { one(name.c_str(), *d, i); damaged(name.c_str(), *d, i); } });
}
template <class T> static vector<T> ints() {
  vector<T> r; typedef numeric_limits<T> L;
  for (T v : {(T)0, (T)1, (T)-1, L::min(), L::max(), (T)(L::max() - 1), (T)10, (T)13, (T)26, (T)127, (T)128, (T)255}) r.push_back(v);
  for (size_t i = 0; i < sizeof(T) * 8; i++) { r.push_back((T)((unsigned long long)1 << i)); if (i % 8 == 0) r.push_back((T)((unsigned long long)0xa7 << i)); }
  return r;
}
template <class T> static vector<T> flts() { typedef numeric_limits<T> L; return {T(0), -T(0), T(1), T(-1.5), L::min(), L::max(), L::denorm_min(), L::epsilon(), L::infinity(), -L::infinity(), L::quiet_NaN(), T(3.14159265358979323846L), T(1e-5), T(1) / 3}; }
static vector<S> strs(int maxlen) {
  vector<S> r; vector<S> al = {S(1, '\0'), "a", "\xff", "\n"};
  seq::strings(al, 0, maxlen, 0, 1, [&](const S &s) { r.push_back(s); });
  return r;
}
// all sequences of length 0..n over dom
template <class C, class T> static vector<C> seqs(const vector<T> &dom, int n) {
  vector<C> r;
  for (int l = 0; l <= n; l++) seq::tuples(dom.size(), l, 0, 1, [&](const vector<int> &ix) { C c; for (int i : ix) c.insert(c.end(), clone(dom[i])); r.push_back(c); });
  return r;
}
template <class C, class T> static vector<C> subsets(const vector<T> &dom) { vector<C> r; for (unsigned m = 0; m < 1u << dom.size(); m++) { C c; for (size_t i = 0; i < dom.size(); i++) if (m >> i & 1) c.insert(dom[i]); r.push_back(c); } return r; }
template <class C, class K, class V> static vector<C> maps(const vector<K> &ks, const vector<V> &vs) {
  vector<C> r; 
  seq::tuples(vs.size() + 1, ks.size(), 0, 1, [&](const vector<int> &ix) { C c; for (size_t i = 0; i < ks.size(); i++) if (ix[i]) c.insert(make_pair(ks[i], vs[ix[i] - 1])); r.push_back(c); });
  return r;
}
// many elements: the count takes more than one or two of its bytes
template <class C, class F> static void large(const char *name, F make) {
  for (size_t n : {255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000, 131073}) {
    seq::begin("%s of %zu elements", name, n); C v = make(n); stringstream ss; { binary_oarchive oa(ss); oa << v; SEQ_CHECK((bool)oa, "write", "writing failed"); }
    S got = ss.str(), want = Enc<C>::of(v); SEQ_CHECK(got.size() == want.size() && (!Enc<C>::exact || got == want), "format", "%zu bytes instead of %zu, or other bytes", got.size(), want.size());
    for (size_t k : {(size_t)0, (size_t)3, n + 5}) { C w = make(k); istringstream is(got + "x"); binary_iarchive ia(is); ia >> w; SEQ_CHECK(ia && w == v && (size_t)is.tellg() == got.size(), "roundtrip", "read back %zu elements over %zu", w.size(), k); seq::op(); }
    for (size_t cut : {got.size() - 1, got.size() / 2, (size_t)5}) { C w; istringstream is(got.substr(0, cut)); binary_iarchive ia(is); ia >> w; SEQ_CHECK(!ia, "truncation", "cut to %zu of %zu bytes without an error", cut, got.size()); seq::op(); }
  }
}
// a stream that has failed before: nothing is reported as read or written
template <class T> static void unusable(const char *name, T v) {
  for (int st = 1; st < 8; st++) {
    ios::iostate b = (st & 1 ? ios::failbit : ios::goodbit) | (st & 2 ? ios::badbit : ios::goodbit) | (st & 4 ? ios::eofbit : ios::goodbit);
    seq::begin("%s on a stream in state %d", name, st); seq::op(2); ostringstream os; os.setstate(b); binary_oarchive oa(os); oa << v;
    SEQ_CHECK(!oa, "unusable", "writing to a failed stream is reported as successful");
    ostringstream o2; { binary_oarchive a2(o2); a2 << v; } istringstream is(o2.str() + o2.str()); is.setstate(b); T w = T(); binary_iarchive ia(is); ia >> w;
    SEQ_CHECK(!ia, "unusable", "reading from a failed stream is reported as successful");
  }
  seq::begin("%s to a file that is not open", name); ofstream nof; binary_oarchive oa(nof); oa << v; SEQ_CHECK(!oa, "unusable", "writing to a closed file is reported as successful");
  ifstream nif; binary_iarchive ia(nif); T w = T(); ia >> w; SEQ_CHECK(!ia, "unusable", "reading from a closed file is reported as successful");
}
// a sink that holds bytes back until it is synchronised
struct Holding : streambuf { S held, out; bool fail; Holding(bool f) : fail(f) {}
  int overflow(int c) { if (c == EOF) return 0; held += (char)c; return (unsigned char)c; }
  int sync() { if (fail) return -1; out += held; held.clear(); return 0; } };
static S tmpdir() { const char *b = getenv("TMPDIR"); return b ? b : "/tmp"; }
struct InTmp { const char *operator()() const { static S d = tmpdir(); return d.c_str(); } };
static void reg() {
  bool t = seq::thorough;
  seq::task("boolean", 1, 1, [](int, int) { for (bool b : {false, true}) { seq::begin("bool %d", b); stringstream ss; { binary_oarchive oa(ss); oa << b; } SEQ_CHECK(ss.str() == S(1, b), "format", "bool"); for (bool c : {false, true}) { stringstream s2(ss.str()); bool x = c; binary_iarchive ia(s2); ia >> x; SEQ_CHECK(ia && x == b, "roundtrip", "bool"); seq::op(); } } });
  reg1("char", ints<char>()); reg1("schar", ints<signed char>()); reg1("uchar", ints<unsigned char>()); reg1("short", ints<short>()); reg1("ushort", ints<unsigned short>());
  reg1("int", ints<int>()); reg1("uint", ints<unsigned>()); reg1("long", ints<long>()); reg1("ulong", ints<unsigned long>()); reg1("llong", ints<long long>()); reg1("ullong", ints<unsigned long long>());
  reg1("float", flts<float>()); reg1("double", flts<double>()); reg1("ldouble", flts<long double>());
  reg1("string", strs(t ? 4 : 3));
  reg1("longstring", vector<S>{S(255, 'x'), S(256, '\xff'), S(257, 'y'), S(300, '\0'), ""});
  vector<int> di = {0, -1, 0x01020304}; vector<S> dsv = {"", "a", S("\0b", 2)};
  reg1("vector<int>", seqs<vector<int> >(di, t ? 4 : 3)); reg1("deque<int>", seqs<deque<int> >(di, 3)); reg1("list<int>", seqs<list<int> >(di, 3));
  reg1("vector<string>", seqs<vector<S> >(dsv, 3)); reg1("list<string>", seqs<list<S> >(dsv, 3)); reg1("deque<string>", seqs<deque<S> >(dsv, 3));
  reg1("vector<char>", seqs<vector<char> >(vector<char>{0, (char)0xff}, 4));
  reg1("vector<vector<short>>", seqs<vector<vector<short> > >(seqs<vector<short> >(vector<short>{1, -2}, 1), 3));
  reg1("vector<Ptr>", seqs<vector<Ptr> >(vector<Ptr>{Ptr(1), Ptr(2)}, 3)); reg1("list<Ptr>", seqs<list<Ptr> >(vector<Ptr>{Ptr(1), Ptr(2)}, 3)); reg1("deque<Ptr>", seqs<deque<Ptr> >(vector<Ptr>{Ptr(1), Ptr(2)}, 3));
  reg1("set<string>", subsets<set<S> >(vector<S>{"", "a", "b", S("\0", 1)})); reg1("set<int>", subsets<set<int> >(vector<int>{-1, 0, 1, 256}));
  reg1("map<int,string>", maps<map<int, S> >(vector<int>{-1, 0, 7}, vector<S>{"", "x"})); reg1("map<string,vector<int>>", maps<map<S, vector<int> > >(vector<S>{"", "k"}, vector<vector<int> >{{}, {5}, {1, 2}}));
  reg1("umap<string,int>", maps<pfi::data::unordered_map<S, int> >(vector<S>{"", "k", "kk"}, vector<int>{0, -5})); reg1("uset<int>", subsets<pfi::data::unordered_set<int> >(vector<int>{-1, 0, 1, 256, 77}));
  reg1("uset<string>", subsets<pfi::data::unordered_set<S> >(vector<S>{"", "p", "qq"}));
  vector<pair<int, S> > pr; for (int a : di) for (auto &b : dsv) pr.push_back(make_pair(a, b)); reg1("pair<int,string>", pr);
  reg1("vector<pair>", seqs<vector<pair<int, S> > >(vector<pair<int, S> >(pr.begin(), pr.begin() + 3), 2));
  vector<User> us; for (int a : {0, -9}) for (auto &b : dsv) for (auto &c : seqs<vector<S> >(dsv, 1)) us.push_back(User(a, b, c)); reg1("User", us);
  vector<Named> ns; for (short x : {(short)0, (short)-3}) for (int k = 0; k < 3; k++) for (double d : {0.0, -2.5}) { Named n; n.x = x; n.d = d; for (int i = 0; i < k; i++) n.m[S(i, 'k')] = us[i * 5 + 1]; ns.push_back(n); } reg1("Named", ns);
  seq::task("array", 1, 1, [](int, int) { seq::tuples(3, 3, 0, 1, [](const vector<int> &ix) {
    static const int d[] = {0, -1, 0x11223344}; int a[3], b[3] = {9, 9, 9}; for (int i = 0; i < 3; i++) a[i] = d[ix[i]];
    seq::begin("int[3] {%d,%d,%d}", a[0], a[1], a[2]); stringstream ss; { binary_oarchive oa(ss); oa << a; } S e = enc(a[0]) + enc(a[1]) + enc(a[2]); SEQ_CHECK(ss.str() == e, "format", "array format");
    { binary_iarchive ia(ss); ia >> b; SEQ_CHECK(ia && !memcmp(a, b, sizeof a), "roundtrip", "array"); }
    for (size_t n = 0; n < e.size(); n++) { istringstream is(e.substr(0, n)); binary_iarchive ia(is); ia >> b; SEQ_CHECK(!ia, "truncation", "cut array"); seq::op(); } }); });
  // streams
  seq::task("stream", 4, 8, [=](int p, int np) { seq::strings({S(1, '\0'), "a", "\xff"}, 0, t ? 6 : 5, p, np, [](const S &s) {
    seq::begin("stream contents %s", seq::show(s).c_str()); stringstream src(s), ss; S bytes;
    { binary_oarchive oa(ss); stream<> st(src); oa << st; SEQ_CHECK((bool)oa, "write", "stream"); } bytes = ss.str(); seq::observe(bytes);
    { stringstream dst; binary_iarchive ia(ss); stream<> st(dst); ia >> st; SEQ_CHECK((bool)ia, "read", "reading a stream back failed"); SEQ_CHECK(dst.str() == s, "roundtrip", "stream read back as %s", seq::show(dst.str()).c_str()); S all((istreambuf_iterator<char>(dst)), istreambuf_iterator<char>()); SEQ_CHECK(all == s, "roundtrip", "the stream is not positioned at its beginning"); }
    { stringstream s2(bytes + "q"), dst; binary_iarchive ia(s2); stream<> st(dst); ia >> st; char c = 0; ia >> c; SEQ_CHECK(ia && c == 'q', "consumed", "wrong number of bytes consumed"); }
    for (size_t n = 0; n < bytes.size(); n++) { seq::begin("stream %s cut to %zu of %zu bytes", seq::show(s).c_str(), n, bytes.size()); stringstream is(bytes.substr(0, n)), dst; binary_iarchive ia(is); stream<> st(dst); ia >> st; SEQ_CHECK(!ia, "truncation", "a truncated stream was read without an error"); seq::op(); } }); });
  // streams kept in files: one position for reading and writing
  seq::task("file stream", 2, 2, [=](int p, int np) { seq::strings({S(1, '\0'), "a", "\xff"}, 0, 4, p, np, [](const S &s) {
    seq::begin("file stream contents %s", seq::show(s).c_str()); stringstream ss; S name;
    { stream<InTmp> st; name = st.name(); st.get() << s << flush; st.get().seekg(0); binary_oarchive oa(ss); oa << st; SEQ_CHECK((bool)oa, "write", "file stream"); }
    SEQ_CHECK(::access(name.c_str(), F_OK) != 0, "left", "the temporary file of a stream is left behind");
    { stream<InTmp> st; binary_iarchive ia(ss); ia >> st; SEQ_CHECK((bool)ia, "read", "reading a file stream back failed"); S all((istreambuf_iterator<char>(st.get())), istreambuf_iterator<char>()); SEQ_CHECK(all == s, "roundtrip", "a file stream reads back as %s", seq::show(all).c_str()); seq::op(2); } }); });
  seq::task("large", 1, 1, [](int, int) {
    large<S>("string", [](size_t n) { S r; for (size_t i = 0; i < n; i++) r += (char)(i * 7 + i / 256); return r; }); large<vector<char> >("vector<char>", [](size_t n) { vector<char> r; for (size_t i = 0; i < n; i++) r.push_back((char)(i * 5)); return r; });
    large<vector<int> >("vector<int>", [](size_t n) { vector<int> r; for (size_t i = 0; i < n; i++) r.push_back(i); return r; }); large<deque<short> >("deque<short>", [](size_t n) { deque<short> r; for (size_t i = 0; i < n; i++) r.push_back(i); return r; });
    large<list<int> >("list<int>", [](size_t n) { list<int> r; for (size_t i = 0; i < n; i++) r.push_back(i); return r; }); });
  seq::task("large sets", 1, 1, [](int, int) {
    large<set<int> >("set<int>", [](size_t n) { set<int> r; for (size_t i = 0; i < n; i++) r.insert(i * 3); return r; }); large<map<int, int> >("map<int,int>", [](size_t n) { map<int, int> r; for (size_t i = 0; i < n; i++) r[i] = -(int)i; return r; });
    large<pfi::data::unordered_set<int> >("uset<int>", [](size_t n) { pfi::data::unordered_set<int> r; for (size_t i = 0; i < n; i++) r.insert(i * 3); return r; }); large<pfi::data::unordered_map<int, int> >("umap<int,int>", [](size_t n) { pfi::data::unordered_map<int, int> r; for (size_t i = 0; i < n; i++) r[i] = -(int)i; return r; }); });
  seq::task("failed streams", 1, 1, [=](int, int) { unusable("int", 5); unusable("char", 'x'); unusable("double", 2.5); unusable("string", S("ab")); unusable("empty string", S()); unusable("vector", vector<int>(2, 3)); unusable("map", map<int, S>{{1, "x"}}); unusable("set", set<int>{4}); unusable("list", list<S>(1, "q")); unusable("User", User(1, "b", {}));
    for (int f = 0; f < 2; f++) { seq::begin("flush, the sink %s", f ? "fails" : "works"); seq::op(); Holding h(f); ostream os(&h); binary_oarchive oa(os); S abc("abc"); oa << abc; oa.flush(); if (!f) SEQ_CHECK(oa && h.out == enc(S("abc")), "flush", "flushing leaves bytes behind"); else SEQ_CHECK(!oa, "flush", "a failed flush is not reported"); } });
  vector<S> s2 = strs(2); vector<vector<int> > vi = seqs<vector<int> >(di, 2);
  seq::task("sequences", 1, 1, [=](int, int) { two("string,vector", s2, vi); two("vector,string", vi, s2); two("int,string", ints<int>(), s2); two("set,double", subsets<set<int> >(vector<int>{1, 2, 3}), flts<double>()); });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
