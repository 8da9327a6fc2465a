// C16: JSON <-> C++ conversions and operations on JSON values
#include "json.h"
#include <data/optional.h>
using pfi::data::optional; using pfi::data::unordered_map;
struct Bad_ {};
struct In { int x; S s; template <class A> void serialize(A &ar) { ar & MEMBER(x) & NAMED_MEMBER("str", s); } In() : x(-1), s("d") {} bool operator==(const In &o) const { return x == o.x && s == o.s; } };
struct Out { std::vector<In> v; optional<int> o; std::map<S, double> m; Out() { m["q"] = 2; } template <class A> void serialize(A &ar) { ar & MEMBER(v) & MEMBER(o) & MEMBER(m); } bool operator==(const Out &p) const { return v == p.v && (bool)o == (bool)p.o && (!o || *o == *p.o) && m == p.m; } };

// ---- reference conversions ------------------------------------------------------------------
template <class T> struct C;
template <> struct C<long> { static long get(const V &v) { if (v.t != 'i') throw Bad_(); return v.i; } static void def(const V &v, long &d) { if (v.t == 'i') d = v.i; } static V put(long x) { return V::I(x); } };
template <> struct C<long long> { static long long get(const V &v) { return C<long>::get(v); } static void def(const V &v, long long &d) { if (v.t == 'i') d = v.i; } static V put(long long x) { return V::I(x); } };
template <> struct C<int> { static int get(const V &v) { long n = C<long>::get(v); if (n != (int)n) throw Bad_(); return (int)n; } static void def(const V &v, int &d) { if (v.t == 'i' && v.i == (int)v.i) d = (int)v.i; } static V put(int x) { return V::I(x); } };
template <> struct C<double> { static double get(const V &v) { if (v.t == 'f') return v.d; if (v.t == 'i') return v.i; throw Bad_(); } static void def(const V &v, double &d) { if (v.t == 'f' || v.t == 'i') d = get(v); } static V put(double x) { return V::F(x); } };
template <> struct C<float> { static float get(const V &v) { return (float)C<double>::get(v); } static void def(const V &v, float &d) { if (v.t == 'f' || v.t == 'i') d = get(v); } static V put(float x) { return V::F(x); } };
template <> struct C<S> { static S get(const V &v) { if (v.t != 's') throw Bad_(); return v.s; } static void def(const V &v, S &d) { if (v.t == 's') d = v.s; } static V put(const S &x) { return V::Str(x); } };
template <> struct C<bool> { static bool get(const V &v) { if (v.t != 'b') throw Bad_(); return v.i; } static void def(const V &v, bool &d) { if (v.t == 'b') d = v.i; } static V put(bool x) { return V::B(x); } };
template <class T> struct C<std::vector<T> > {
  static std::vector<T> get(const V &v) { if (v.t != 'a') throw Bad_(); std::vector<T> r; for (auto &x : v.a) r.push_back(C<T>::get(x)); return r; }
  static void def(const V &v, std::vector<T> &d) { if (v.t != 'a') return; if (d.size() < v.a.size()) d.resize(v.a.size()); for (size_t i = 0; i < v.a.size(); i++) { T t = d[i]; C<T>::def(v.a[i], t); d[i] = t; } }
  static V put(const std::vector<T> &x) { V r = V::A(); for (auto &e : x) r.a.push_back(C<T>::put(e)); return r; } };
template <class M, class T> struct CM {
  static M get(const V &v) { if (v.t != 'o') throw Bad_(); M r; for (auto &x : v.o) r[x.first] = C<T>::get(x.second); return r; }
  static void def(const V &v, M &d) { if (v.t != 'o') return; for (auto &x : v.o) C<T>::def(x.second, d[x.first]); }
  static V put(const M &x) { V r = V::O(); for (auto &e : x) r.set(e.first, C<T>::put(e.second)); return r; } };
template <class T> struct C<std::map<S, T> > : CM<std::map<S, T>, T> {};
template <class T> struct C<unordered_map<S, T> > : CM<unordered_map<S, T>, T> {};
template <class T> struct C<optional<T> > { static optional<T> get(const V &v) { if (v.t == 'n') return optional<T>(); return optional<T>(C<T>::get(v)); } static V put(const optional<T> &x) { return x ? C<T>::put(*x) : V(); }
  static void def(const V &v, optional<T> &d) { if (v.t == 'n') d = optional<T>(); else { T t = d ? *d : T(); C<T>::def(v, t); d = optional<T>(t); } } };
template <> struct C<In> {
  static In get(const V &v) { if (v.t != 'o') throw Bad_(); In r; const V *a = v.find("x"); if (!a) throw Bad_(); r.x = C<int>::get(*a); a = v.find("str"); if (!a) throw Bad_(); r.s = C<S>::get(*a); return r; }
  static void def(const V &v, In &d) { if (v.t != 'o') return; if (const V *a = v.find("x")) C<int>::def(*a, d.x); if (const V *a = v.find("str")) C<S>::def(*a, d.s); }
  static V put(const In &x) { V r = V::O(); r.set("x", V::I(x.x)); r.set("str", V::Str(x.s)); return r; } };
template <> struct C<Out> {
  static Out get(const V &v) { if (v.t != 'o') throw Bad_(); Out r; const V *a = v.find("v"); if (!a) throw Bad_(); r.v = C<std::vector<In> >::get(*a); a = v.find("o"); r.o = a ? C<optional<int> >::get(*a) : optional<int>(); a = v.find("m"); if (!a) throw Bad_(); r.m = C<std::map<S, double> >::get(*a); return r; }
  static void def(const V &v, Out &d) { if (v.t != 'o') return; if (const V *a = v.find("v")) C<std::vector<In> >::def(*a, d.v); if (const V *a = v.find("o")) C<optional<int> >::def(*a, d.o); if (const V *a = v.find("m")) C<std::map<S, double> >::def(*a, d.m); }
  static V put(const Out &x) { V r = V::O(); r.set("v", C<std::vector<In> >::put(x.v)); r.set("o", C<optional<int> >::put(x.o)); r.set("m", C<std::map<S, double> >::put(x.m)); return r; } };
template <class T> struct strong { static const bool v = false; };
template <class T> struct strong<std::vector<T> > { static const bool v = true; };
template <class T> struct strong<std::map<S, T> > { static const bool v = true; };
template <class T> bool same(const T &a, const T &b) { return a == b; }
template <class T> bool same(const optional<T> &a, const optional<T> &b) { return (bool)a == (bool)b && (!a || *a == *b); }
template <class T> bool same(const std::vector<optional<T> > &a, const std::vector<optional<T> > &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
template <class T> bool same(const std::map<S, optional<T> > &a, const std::map<S, optional<T> > &b) { if (a.size() != b.size()) return false; for (auto &p : a) { auto i = b.find(p.first); if (i == b.end() || !same(p.second, i->second)) return false; } return true; }

// the text form of a float with an integral value is that of an integer
static bool text_neutral(const V &v) { if (v.t == 'f') return v.d != (double)(long)v.d; for (auto &x : v.a) if (!text_neutral(x)) return false; for (auto &x : v.o) if (!text_neutral(x.second)) return false; return true; }
template <class T> static void cast(const char *tn, const V &v, const std::vector<T> &defs) {
  seq::begin("%s to %s", str(v).c_str(), tn);
  pj::json j = to_pfi(v); T want = T(); bool bad = false;
  try { want = C<T>::get(v); } catch (Bad_ &) { bad = true; }
  bool thrown = false; T got = T();
  try { got = pj::json_cast<T>(j); } catch (const std::bad_cast &) { thrown = true; }
  SEQ_CHECK(thrown == bad, "cast", thrown ? "the conversion was refused" : "a value of another type was converted");
  if (!bad) SEQ_CHECK(same(got, want), "value", "converted to a wrong value");
  seq::op();
  for (const T &d : defs) {
    T t = d; bool th = false;
    try { pj::from_json(j, t); } catch (const std::bad_cast &) { th = true; }
    SEQ_CHECK(th == bad && (bad || same(t, want)), "from_json", "from_json into an existing value is wrong");
    if (bad && strong<T>::v) SEQ_CHECK(same(t, d), "partial", "a failed conversion changed the target");
    T w = d; C<T>::def(v, w);
    T g = pj::json_cast_with_default<T>(j, d);
    SEQ_CHECK(same(g, w), "default", "conversion with default values is wrong");
    T g2 = d; pj::from_json_with_default(j, g2); SEQ_CHECK(same(g2, w), "default", "from_json_with_default is wrong");
    seq::op();
  }
  if (text_neutral(v)) { std::ostringstream os; os << j; std::istringstream is(os.str()); T t = T(); bool th = false; try { is >> pj::via_json(t); } catch (const std::bad_cast &) { th = true; } SEQ_CHECK(th == bad && (bad || same(t, want)), "via_json", "reading through the text form is wrong"); }
  SEQ_CHECK(eq(of_pfi(j), v), "changed", "converting changed the JSON value");
}
template <class T> static void put(const char *tn, const T &x) {
  V w = C<T>::put(x); seq::begin("to_json of %s %s", tn, str(w).c_str());
  pj::json j = pj::to_json(x); SEQ_CHECK(eq(of_pfi(j), w), "to_json", "converted to %s", str(of_pfi(j)).c_str());
  T back = pj::json_cast<T>(j); SEQ_CHECK(same(back, x), "roundtrip", "converting there and back changed the value"); seq::op(2);
}
static std::vector<V> values() {
  std::vector<V> a = {V(), V::B(true), V::B(false), V::I(0), V::I(-3), V::I(2000000000), V::F(0.5), V::F(-2), V::Str(""), V::Str("t")};
  std::vector<V> r = a;
  for (int n = 0; n <= 2; n++) seq::tuples(a.size(), n, 0, 1, [&](const std::vector<int> &ix) { V x = V::A(); for (int i : ix) x.a.push_back(a[i]); r.push_back(x); V o = V::O(); static const S ks[] = {"x", "str"}; for (size_t i = 0; i < ix.size(); i++) o.set(ks[i], a[ix[i]]); r.push_back(o); });
  for (long n : {2147483647L, -2147483648L, 2147483648L, -2147483649L, 1L << 32, -(1L << 32), LONG_MAX, LONG_MIN}) { V x = V::A(), o = V::O(), p = V::O(); x.a.push_back(V::I(n)); o.set("x", V::I(n)); o.set("str", V::Str("t")); p.set("v", V::A()); p.set("o", V::I(n)); p.set("m", V::O()); for (const V &y : {V::I(n), x, o, p}) r.push_back(y); }
  std::vector<V> ins; { for (int k = 0; k < 6; k++) { V i = V::O(); if (k != 1) i.set("x", k == 2 ? V::Str("no") : V::I(k)); if (k != 3) i.set("str", k == 4 ? V() : V::Str("s" + std::to_string(k))); if (k == 5) i.set("extra", V::A()); ins.push_back(i); } }
  std::vector<V> lists; for (int n = 0; n <= 2; n++) seq::tuples(ins.size(), n, 0, 1, [&](const std::vector<int> &ix) { V x = V::A(); for (int i : ix) x.a.push_back(ins[i]); lists.push_back(x); });
  lists.push_back(V::I(3)); 
  std::vector<V> os = {V(), V::I(9), V::Str("z")}, ms; { V m = V::O(); ms.push_back(m); m.set("q", V::F(1.5)); ms.push_back(m); m.set("r", V::I(4)); ms.push_back(m); m.set("w", V::Str("n")); ms.push_back(m); ms.push_back(V()); }
  for (auto &l : lists) r.push_back(l);
  for (size_t l = 0; l <= lists.size(); l++) for (size_t o = 0; o <= os.size(); o++) for (size_t m = 0; m <= ms.size(); m++) { V x = V::O(); if (l < lists.size()) x.set("v", lists[l]); if (o < os.size()) x.set("o", os[o]); if (m < ms.size()) x.set("m", ms[m]); r.push_back(x); }
  return r;
}
static bool eqn(const V &x, const V &y) {   // numbers compare by value
  if ((x.t == 'i' || x.t == 'f') && (y.t == 'i' || y.t == 'f') && x.t != y.t) return (x.t == 'i' ? (double)x.i : x.d) == (y.t == 'i' ? (double)y.i : y.d);
  if (x.t != y.t) return false;
  if (x.t == 'a') { if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); i++) if (!eqn(x.a[i], y.a[i])) return false; return true; }
  if (x.t == 'o') { if (x.o.size() != y.o.size()) return false; for (auto &p : x.o) { const V *q = y.find(p.first); if (!q || !eqn(p.second, *q)) return false; } return true; }
  return eq(x, y);
}
static std::vector<V> small() {
  std::vector<V> a = {V(), V::B(true), V::B(false), V::I(0), V::I(1), V::F(1), V::F(0.5), V::F(0), V::Str(""), V::Str("1"), V::A(), V::O()}, r = a;
  for (int n = 1; n <= 2; n++) seq::tuples(n == 1 ? a.size() : 6, n, 0, 1, [&](const std::vector<int> &ix) { V x = V::A(); for (int i : ix) x.a.push_back(a[i + (n == 2 ? 3 : 0)]); r.push_back(x); });
  for (int m = 1; m < 27; m++) { V o = V::O(); int k = m; for (const char *n : {"a", "b", "c"}) { if (k % 3) o.set(n, k % 3 == 1 ? V::I(m % 4) : V::F(1)); k /= 3; } r.push_back(o); V w = V::A(); w.a.push_back(o); r.push_back(w); V q = V::O(); q.set("a", o); r.push_back(q); }
  for (auto &x : a) { V o = V::O(); o.set("a", x); r.push_back(o); o.set("b", V()); r.push_back(o); }
  { V l = V::A(); l.a.push_back(V::I(1)); V o = V::O(); o.set("a", l); r.push_back(o); V ll = V::A(); ll.a.push_back(l); ll.a.push_back(o); r.push_back(ll); V oo = V::O(); oo.set("b", ll); oo.set("a", V::A()); r.push_back(oo); }
  return r;
}
// change every container inside
static void mutate(pj::json &j) {
  if (pj::is<pj::json_array>(j)) { for (size_t i = 0; i < j.size(); i++) mutate(j[i]); j.add(pj::json(new pj::json_integer(77))); if (j.size() > 1) j[(size_t)0] = pj::json(new pj::json_integer(78)); }
  if (pj::is<pj::json_object>(j)) { for (pj::json::iterator i = j.begin(); i != j.end(); ++i) mutate(i->second); j["mutated"] = pj::json(); }
}
struct Pair { pj::json operator()(const pj::json &a, const pj::json &b) const { pj::json r(new pj::json_array()); r.add(a); r.add(b); return r; } };
template <class F> static bool refused(F f) { try { f(); } catch (const std::bad_cast &) { return true; } return false; }
static void ops(const V &x, const V &y) {
  seq::begin("%s and %s", str(x).c_str(), str(y).c_str());
  pj::json a = to_pfi(x), b = to_pfi(y);
  SEQ_CHECK((a == b) == eqn(x, y) && (a != b) == !eqn(x, y), "equals", "comparison is wrong");
  SEQ_CHECK(pj::equals(a, b, false) == eq(x, y) && pj::equals(a, b, true) == eqn(x, y), "equals", "strict comparison is wrong");
  if (x.t == 'o' && y.t == 'o') {
    V w = x; for (auto &p : y.o) w.set(p.first, p.second);
    SEQ_CHECK(eq(of_pfi(pj::merge(a, b)), w), "merge", "merged to %s", str(of_pfi(pj::merge(a, b))).c_str());
    SEQ_CHECK(eq(of_pfi(a.merge(b)), w), "merge", "merge");
    for (int how = 0; how < 3; how++) { pj::json d = how == 0 ? pj::merge(a, b) : how == 1 ? a.merge(b) : pj::merge_with(a, b, Pair()); d.add("zz", pj::json()); for (const char *k : {"a", "b", "c"}) d[k] = pj::json(new pj::json_string("changed")); SEQ_CHECK(eq(of_pfi(a), x) && eq(of_pfi(b), y), "merge", "a change of the merged object reached an operand"); }
    V w2 = x; for (auto &p : y.o) { const V *q = x.find(p.first); if (q) { V l = V::A(); l.a.push_back(*q); l.a.push_back(p.second); w2.set(p.first, l); } else w2.set(p.first, p.second); }
    SEQ_CHECK(eq(of_pfi(pj::merge_with(a, b, Pair())), w2), "merge_with", "merged to %s", str(of_pfi(pj::merge_with(a, b, Pair()))).c_str());
  } else SEQ_CHECK(refused([&]() { pj::merge(a, b); }) && refused([&]() { a.merge(b); }) && refused([&]() { pj::merge_with(a, b, Pair()); }), "merge", "values that are not both objects were merged");
  SEQ_CHECK(eq(of_pfi(a), x) && eq(of_pfi(b), y), "changed", "an operand was changed");
  // add / [] / count / size / clone
  pj::json c = a.clone(); SEQ_CHECK(eq(of_pfi(c), x), "clone", "clone differs"); { pj::json d = a.clone(); mutate(d); SEQ_CHECK(eq(of_pfi(a), x), "clone", "changes inside a clone reached the original"); }
  const pj::json &ca = a;
  if (x.t == 'a') {
    SEQ_CHECK(a.size() == x.a.size(), "size", "size"); c.add(b); V w = x; w.a.push_back(y); SEQ_CHECK(eq(of_pfi(c), w) && eq(of_pfi(a), x), "add", "adding to a clone");
    for (size_t i = 0; i < x.a.size(); i++) { SEQ_CHECK(eq(of_pfi(ca[i]), x.a[i]), "index", "element"); pj::json d = a.clone(); d[i] = b; V z = x; z.a[i] = y; SEQ_CHECK(eq(of_pfi(d), z) && eq(of_pfi(a), x), "clone", "assigning an element of a clone");
      if (x.a[i].t == 'o') { pj::json e = a.clone(); e[i]["new"] = b; SEQ_CHECK(eq(of_pfi(a), x), "clone", "a nested change of a clone reached the original"); } }
  } else SEQ_CHECK(refused([&]() { c.add(b); }) && refused([&]() { ca[(size_t)0]; }), "type", "used as an array");
  if (x.t == 'o') {
    SEQ_CHECK(a.size() == x.o.size(), "size", "size");
    for (const char *k : {"a", "b", "zz"}) {
      const V *q = x.find(k); SEQ_CHECK(ca.count(k) == (q ? 1u : 0u), "count", "count"); bool oor = false; try { SEQ_CHECK(eq(of_pfi(ca[k]), *q), "index", "member"); } catch (const std::out_of_range &) { oor = true; } SEQ_CHECK(oor == !q, "index", "missing member");
      pj::json d = a.clone(); d.add(k, b); V z = x; z.set(k, y); SEQ_CHECK(eq(of_pfi(d), z) && eq(of_pfi(a), x), "add", "adding a member to a clone");
      pj::json e = a.clone(); e[k] = b; SEQ_CHECK(eq(of_pfi(e), z) && eq(of_pfi(a), x), "assign", "assigning a member of a clone");
      if (q && q->t == 'o') { pj::json f = a.clone(); f[k]["new"] = b; SEQ_CHECK(eq(of_pfi(a), x), "clone", "a nested change of a clone reached the original"); }
      pj::json g = a.clone(); SEQ_CHECK(eq(of_pfi(g[k]), q ? *q : V()), "index", "a new member is null"); }
  } else SEQ_CHECK(refused([&]() { c.add("k", b); }) && refused([&]() { ca["k"]; }) && refused([&]() { a["k"]; }) && refused([&]() { ca.count("k"); }) && refused([&]() { a.begin(); }) && refused([&]() { ca.end(); }), "type", "used as an object");
  if (x.t != 'a' && x.t != 'o') SEQ_CHECK(refused([&]() { ca.size(); }), "type", "size of an atom");
  SEQ_CHECK(pj::is<pj::json_null>(a) == (x.t == 'n') && pj::is<pj::json_integer>(a) == (x.t == 'i') && pj::is<pj::json_float>(a) == (x.t == 'f') && pj::is<pj::json_number>(a) == (x.t == 'i' || x.t == 'f') && pj::is<pj::json_bool>(a) == (x.t == 'b') && pj::is<pj::json_string>(a) == (x.t == 's') && pj::is<pj::json_array>(a) == (x.t == 'a') && pj::is<pj::json_object>(a) == (x.t == 'o'), "is", "type test");
  seq::op(10); seq::observe(str(x) + str(y));
}
template <class T> static void reg1(const char *tn, const std::vector<T> &defs) {
  seq::task(S("to.") + tn, 2, 4, [=](int p, int n) { auto vs = values(); for (size_t i = p; i < vs.size(); i += n) cast<T>(tn, vs[i], defs); if (p == 0) for (T d : defs) put<T>(tn, d); });
}
static void reg() {
  reg1<int>("int", {0, 5, -2147483647}); reg1<long>("long", {0, 5, INT64_MIN, INT64_MAX}); reg1<long long>("longlong", {0, INT64_MIN}); reg1<double>("double", {0, 2.5, 1e300}); reg1<float>("float", {0, 2.5f}); reg1<S>("string", {"", "dflt", S("\0", 1)});
  reg1<bool>("bool", {true, false}); reg1<std::vector<int> >("vector<int>", {{}, {7}, {1, 2, 3}}); reg1<std::vector<S> >("vector<string>", {{}, {"a", "b", "c"}}); reg1<std::vector<std::vector<double> > >("vector<vector<double>>", {{}, {{1}, {}}});
  reg1<std::map<S, int> >("map<int>", {{}, {{"x", 9}, {"y", 8}}}); reg1<std::map<S, S> >("map<string>", {{}, {{"x", "9"}}}); reg1<unordered_map<S, double> >("umap<double>", {unordered_map<S, double>()});
  reg1<optional<int> >("optional<int>", {optional<int>(), optional<int>(4)}); reg1<optional<S> >("optional<string>", {optional<S>(), optional<S>("q")}); reg1<std::vector<optional<double> > >("vector<optional<double>>", {{}});
  reg1<In>("struct", {In()}); Out o; o.v.resize(2); o.v[1].x = 6; o.o = 3; reg1<Out>("nested struct", {Out(), o}); reg1<std::map<S, std::vector<int> > >("map<vector<int>>", {{}, {{"x", {1}}}});
  seq::task("ops", 8, 8, [=](int p, int n) { auto vs = small(); for (size_t i = p; i < vs.size(); i += n) for (auto &y : vs) ops(vs[i], y); });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
