// C26: value holders and smart pointers: every operation sequence, with a copy failing at every point
#include "../mc/seq.h"
#include <data/optional.h>
#include <lang/any.h>
#include <lang/cast.h>
#include <lang/exception.h>
#include <lang/scoped_ptr.h>
#include <lang/shared_ptr.h>
#include <lang/weak_ptr.h>
#include <lang/enable_shared_from_this.h>
#include <algorithm>
#include <cfloat>
#include <climits>
#include <limits>
using namespace std;
typedef string S;
static S tos(long v) { char b[24]; snprintf(b, sizeof b, "%ld", v); return b; }
struct Boom : runtime_error { Boom() : runtime_error("copy failed") {} };
// a value whose copies are counted and can be made to fail
static int boom, lives; static set<const void *> live;
struct X {
  int v;
  static void tick() { if (boom && !--boom) throw Boom(); }
  void born() { lives++; if (!live.insert(this).second) seq::viol("lifetime", "an object was built over a living one"); }
  X(int v = 0) : v(v) { born(); }
  X(const X &o) : v((tick(), o.v)) { if (!live.count(&o)) seq::viol("lifetime", "a dead object was copied"); born(); }
  X &operator=(const X &o) { if (!live.count(this) || !live.count(&o)) seq::viol("lifetime", "a dead object was assigned"); tick(); v = o.v; return *this; }
  ~X() { lives--; if (!live.erase(this)) seq::viol("lifetime", "an object was destroyed twice"); }
  bool operator==(const X &o) const { return v == o.v; } bool operator<(const X &o) const { return v < o.v; }
};
typedef pfi::data::optional<X> O;
static const int N = -1;   // "no value" in the models
static int val(const O &o) { return o ? o->v : N; }

// ---- optional ------------------------------------------------------------------------------
static const char *ON[] = {"a=X1", "a=X2", "b=X1", "a=b", "b=a", "a=a", "swap", "a=none", "b=none", "a=optional(X3)", "a=optional<short>", "a=optional<short>()", "*a=X4", "a=*b", "a=*a", "copy", "convert"};
static const int NON = 17;
static void ostep(int op, O &a, O &b) {
  switch (op) {
    case 0: { a = X(1); } break; case 1: { a = X(2); } break; case 2: { b = X(1); } break;
    case 3: a = b; break; case 4: b = a; break; case 5: { O &r = a; a = r; } break; case 6: a.swap(b); break;
    case 7: a = O(); break; case 8: b = O(); break; case 9: { X t(3); a = O(t); } break;
    case 10: a = pfi::data::optional<short>((short)9); break; case 11: a = pfi::data::optional<short>(); break;
    case 12: if (a) { X t(4); *a = t; } break; case 13: if (b) a = *b; break; case 14: if (a) a = *a; break;
    case 15: { O t(a); if (t) t->v = 99; t = b; } break; case 16: { pfi::data::optional<short> s(5); O t(s); b = t; } break;
  }
}
static void omodel(int op, int &a, int &b) {
  switch (op) { case 0: a = 1; break; case 1: a = 2; break; case 2: b = 1; break; case 3: a = b; break; case 4: b = a; break; case 6: swap(a, b); break; case 7: a = N; break; case 8: b = N; break; case 9: a = 3; break; case 10: a = 9; break; case 11: a = N; break; case 12: if (a != N) a = 4; break; case 13: if (b != N) a = b; break; case 16: b = 5; break; }
}
static void optionals(int len, int part, int np) {
  seq::tuples(NON, len, part, np, [&](const vector<int> &ix) {
    for (int k = 0; k <= 2; k++) {   // the k-th copy made by the last operation fails
      S p; for (int i : ix) p += S(ON[i]) + "; "; if (k) p += "copy " + tos(k) + " of the last step fails"; seq::begin_s("optional: " + p);
      boom = 0; int base = lives;
      { O a, b; int ma = N, mb = N;
        for (int s = 0; s < len; s++) {
          bool last = s == len - 1, threw = false; int wa = ma, wb = mb; omodel(ix[s], wa, wb); seq::op();
          boom = last ? k : 0; try { ostep(ix[s], a, b); } catch (const Boom &) { threw = true; } boom = 0;
          if (threw) seq::nontrivial(); else { ma = wa; mb = wb; }
          SEQ_CHECK(val(a) == ma && val(b) == mb, threw ? "optional-fault" : "optional-value", "%s%s: holds (%d,%d) instead of (%d,%d)", p.c_str(), threw ? " (copy failed)" : "", val(a), val(b), ma, mb);
          SEQ_CHECK((bool)a == (ma != N) && (a.get() != 0) == (ma != N) && !a == (ma == N), "optional-bool", "bool/get disagree");
          SEQ_CHECK(!a || !b || a.get() != b.get(), "optional-alias", "both share one value");
          SEQ_CHECK(lives - base == (ma != N) + (mb != N), "optional-leak", "%s: %d objects alive instead of %d", p.c_str(), lives - base, (ma != N) + (mb != N));
          SEQ_CHECK((a == b) == (ma == mb) && (a != b) == (ma != mb) && (a < b) == (ma < mb) && (a > b) == (ma > mb) && (a <= b) == (ma <= mb) && (a >= b) == (ma >= mb), "optional-compare", "comparison of %d and %d (-1: none): == %d != %d < %d > %d <= %d >= %d", ma, mb, a == b, a != b, a < b, a > b, a <= b, a >= b);
        }
        seq::observe(tos(ma) + "," + tos(mb));
      }
      SEQ_CHECK(lives == base, "optional-leak", "%s: %d objects left", p.c_str(), lives - base);
    }
  });
}
// ---- any -------------------------------------------------------------------------------------
typedef pfi::lang::any A; using pfi::lang::any_cast;
struct B1 { virtual ~B1() {} int q; }; struct D1 : B1 {};
struct AM { int t, v; };   // type: 0 none, 1 X, 2 int, 3 string, 4 long, 5 D1
static S am(const AM &m) { return tos(m.t) + ":" + tos(m.v); }
template <class T> static bool holds(const A &a) { try { any_cast<T>(a); return true; } catch (const pfi::lang::bad_any_cast &e) { const bad_cast &b = e; (void)b; return false; } }
static S acheck(const A &a, const AM &m) {
  static const type_info *ti[] = {&typeid(void), &typeid(X), &typeid(int), &typeid(S), &typeid(long), &typeid(D1)};
  if (a.type() != *ti[m.t]) return S("type() is ") + a.type().name();
  if (holds<X>(a) != (m.t == 1) || holds<int>(a) != (m.t == 2) || holds<S>(a) != (m.t == 3) || holds<long>(a) != (m.t == 4) || holds<D1>(a) != (m.t == 5) || holds<B1>(a) || holds<unsigned>(a) || holds<const char *>(a) || holds<A>(a)) return "casts succeed for the wrong types";
  if (m.t == 1 && any_cast<X>(a).v != m.v) return "X has value " + tos(any_cast<X>(a).v);
  if (m.t == 2 && any_cast<int>(a) != m.v) return "int has value " + tos(any_cast<int>(a));
  if (m.t == 3 && any_cast<S>(a) != tos(m.v)) return "string has value " + any_cast<S>(a);
  if (m.t == 4 && a.cast<long>() != m.v) return "long has value " + tos(a.cast<long>());
  return "";
}
static const char *AN[] = {"a=X1", "a=2", "a=\"3\"", "a=4L", "b=X5", "b=6", "a=b", "b=a", "a=a", "swap", "a=any()", "a=any(X7)", "copy", "a=D1", "a=cast<X>(b)", "a=cast<X>(a)", "b=any(a)"};
static const int NAN_ = 17;
static void astep(int op, A &a, A &b) {
  switch (op) { case 0: { X t(1); a = t; } break; case 1: a = 2; break; case 2: a = S("3"); break; case 3: a = 4L; break; case 4: { X t(5); b = t; } break; case 5: b = 6; break;
    case 6: a = b; break; case 7: b = a; break; case 8: { A &r = a; a = r; } break; case 9: a.swap(b); break; case 10: a = A(); break; case 11: { X t(7); a = A(t); } break; case 12: { A t(a); t = 5; A u(b); t.swap(u); } break; case 13: { D1 d; d.q = 0; a = d; } break;
    case 14: if (b.type() == typeid(X)) a = any_cast<X>(b); break; case 15: if (a.type() == typeid(X)) a = any_cast<X>(a); break; case 16: { const A &r = a; b = A(r); } break; }
}
static void amodel(int op, AM &a, AM &b) {
  switch (op) { case 0: a = {1, 1}; break; case 1: a = {2, 2}; break; case 2: a = {3, 3}; break; case 3: a = {4, 4}; break; case 4: b = {1, 5}; break; case 5: b = {2, 6}; break; case 6: a = b; break; case 7: case 16: b = a; break; case 9: swap(a, b); break; case 10: a = {0, 0}; break; case 11: a = {1, 7}; break; case 13: a = {5, 0}; break; case 14: if (b.t == 1) a = b; break; }
}
static void anys(int len, int part, int np) {
  seq::tuples(NAN_, len, part, np, [&](const vector<int> &ix) {
    for (int k = 0; k <= 2; k++) {
      S p; for (int i : ix) p += S(AN[i]) + "; "; if (k) p += "copy " + tos(k) + " of the last step fails"; seq::begin_s("any: " + p); boom = 0; int base = lives;
      { A a, b; AM ma = {0, 0}, mb = {0, 0};
        for (int s = 0; s < len; s++) { bool threw = false; AM wa = ma, wb = mb; amodel(ix[s], wa, wb); seq::op();
          boom = s == len - 1 ? k : 0; try { astep(ix[s], a, b); } catch (const Boom &) { threw = true; } boom = 0; if (threw) seq::nontrivial(); else { ma = wa; mb = wb; }
          S ea = acheck(a, ma), eb = acheck(b, mb); SEQ_CHECK(ea.empty() && eb.empty(), threw ? "any-fault" : "any-value", "%s%s: expected (%s,%s), but %s", p.c_str(), threw ? " (copy failed)" : "", am(ma).c_str(), am(mb).c_str(), (ea + eb).c_str());
          int w = (ma.t == 1) + (mb.t == 1); SEQ_CHECK(lives - base == w, "any-leak", "%s: %d objects alive instead of %d", p.c_str(), lives - base, w); }
        seq::observe(am(ma) + am(mb)); }
      SEQ_CHECK(lives == base, "any-leak", "%s: %d objects left", p.c_str(), lives - base);
    } });
}
// ---- smart pointers ---------------------------------------------------------------------------
static map<int, const void *> objs; static int next_id; static map<int, int> died;
struct P : pfi::lang::enable_shared_from_this<P> { int id; P() : id(next_id++) { objs[id] = this; } P(const P &o) : pfi::lang::enable_shared_from_this<P>(o), id(next_id++) { objs[id] = this; } virtual ~P() { died[id]++; objs.erase(id); } };
struct Q : P { int extra; Q() : extra(42) {} ~Q() { extra = 0; } };
struct Del { int *n; explicit Del(int *n) : n(n) {} void operator()(P *p) const { ++*n; delete p; } };
typedef pfi::lang::shared_ptr<P> SP; typedef pfi::lang::weak_ptr<P> WP; typedef pfi::lang::shared_ptr<Q> SQ; typedef pfi::lang::shared_ptr<const P> SC;
struct PM { int a, b, q, w; int c; bool isq[64]; };   // object ids held (-1 none); w may be dead
static const char *PN[] = {"a=new P", "a=new Q", "q=new Q", "b=a", "a=b", "a=a", "a=q", "q=dyn(a)", "q=static(a)", "w=a", "w=q", "w=b", "a=lock(w)", "a=shared(w)", "a=()", "b=()", "q=()", "w=()", "swap", "b=a.self", "c=const a.self", "a=const_cast(c)", "copy object", "a=new P with deleter", "move b=a"};
static const int NPN = 25;
static int deletes;
static void ptrs(int len, const vector<int> &ops, int part, int np) {
  seq::tuples(ops.size(), len, part, np, [&](const vector<int> &ix) {
    S p; for (int i : ix) p += S(PN[ops[i]]) + "; "; seq::begin_s("pointers: " + p);
    objs.clear(); died.clear(); next_id = 0; deletes = 0; int made_del = -1, ndel = 0;
    { SP a, b; SQ q; WP w; SC c; PM m = {-1, -1, -1, -1, -1, {}};
      auto alive = [&](int o) { return o >= 0 && (m.a == o || m.b == o || m.q == o || m.c == o); };
      for (int i : ix) { int o = ops[i]; seq::op(); int id = next_id; bool threw = false, want = false;
        switch (o) {
          case 0: a = SP(new P); m.a = id; break; case 1: a = SP(new Q); m.a = id; m.isq[id] = 1; break; case 2: q = SQ(new Q); m.q = id; m.isq[id] = 1; break;
          case 3: b = a; m.b = m.a; break; case 4: a = b; m.a = m.b; break; case 5: { SP &r = a; a = r; } break; case 6: a = q; m.a = m.q; break;
          case 7: q = pfi::lang::dynamic_pointer_cast<Q>(a); m.q = m.a >= 0 && m.isq[m.a] ? m.a : -1; break;
          case 8: if (m.a < 0 || m.isq[m.a]) { q = pfi::lang::static_pointer_cast<Q>(a); m.q = m.a; } break;
          case 9: w = a; m.w = m.a; break; case 10: w = q; m.w = m.q; break; case 11: { WP t(b); w = t; m.w = m.b; } break;
          case 12: { bool al = alive(m.w); a = w.lock(); m.a = al ? m.w : -1; } break;
          case 13: want = !alive(m.w); try { SP t(w); a = t; m.a = m.w; } catch (const pfi::lang::bad_weak_ptr &) { threw = true; } break;
          case 14: a = SP(); m.a = -1; break; case 15: b.reset(); m.b = -1; break; case 16: q = SQ(); m.q = -1; break; case 17: w = WP(); m.w = -1; break;
          case 18: a.swap(b); swap(m.a, m.b); break;
          case 19: if (m.a >= 0) { b = a->shared_from_this(); m.b = m.a; } break;
          case 20: if (m.a >= 0) { const P &r = *a; c = r.shared_from_this(); m.c = m.a; } break;
          case 21: a = pfi::lang::const_pointer_cast<P>(c); m.a = m.c; break;
          case 22: if (m.a >= 0) { P t(*a); want = true; try { t.shared_from_this(); } catch (const pfi::lang::bad_weak_ptr &) { threw = true; } try { const P &k = t; k.shared_from_this(); threw = false; } catch (const pfi::lang::bad_weak_ptr &) {} } break;
          case 23: if (made_del < 0) { a = SP(new P, Del(&deletes)); m.a = made_del = id; ndel = 1; SEQ_CHECK(pfi::lang::get_deleter<Del>(a) && pfi::lang::get_deleter<Del>(a)->n == &deletes, "deleter", "the deleter is lost"); } break;
          case 24: b = std::move(a); m.b = m.a; m.a = -1; break;
        }
        SEQ_CHECK(threw == want, "weak-throw", "%s: %s", p.c_str(), threw ? "an error although the object lives" : "no error for a dead or unshared object");
        for (int k = 0; k < next_id; k++) { bool al = alive(k); if (o == 22 && k == id) { SEQ_CHECK(died[k] == 1, "lifetime", "temporary"); continue; } SEQ_CHECK(died[k] == !al && (objs.count(k) == 1) == al, "lifetime", "%s: object %d died %d times; it %s be alive", p.c_str(), k, died[k], al ? "should" : "should not"); }
        SEQ_CHECK(deletes == (ndel && !alive(made_del)), "deleter", "%s: deleter ran %d times", p.c_str(), deletes);
        auto pts = [&](const P *x, int o) { return x == (o < 0 ? 0 : objs[o]); };
        SEQ_CHECK(pts(a.get(), m.a) && pts(b.get(), m.b) && pts(q.get(), m.q) && pts(c.get(), m.c), "target", "%s: a pointer points to another object than expected", p.c_str());
        SEQ_CHECK(!a == (m.a < 0) && !q == (m.q < 0), "bool", "bool test");
        SEQ_CHECK(w.expired() == !alive(m.w) && pts(w.lock().get(), alive(m.w) ? m.w : -1), "weak", "%s: the weak pointer is %sexpired", p.c_str(), w.expired() ? "" : "not ");
        for (int *v : {&m.a, &m.b, &m.q, &m.c}) if (*v >= 0) { int n = (m.a == *v) + (m.b == *v) + (m.q == *v) + (m.c == *v); long u = v == &m.a ? a.use_count() : v == &m.b ? b.use_count() : v == &m.q ? q.use_count() : c.use_count(); SEQ_CHECK(u == n, "count", "%s: use count %ld instead of %d", p.c_str(), u, n); if (n > 2) seq::nontrivial(); }
      }
      seq::observe(tos(m.a) + "," + tos(m.b) + "," + tos(m.q) + "," + tos(m.c) + "," + tos(alive(m.w) ? m.w : -1)); }
    for (int k = 0; k < next_id; k++) SEQ_CHECK(died[k] == 1, "lifetime", "%s: object %d died %d times in the end", p.c_str(), k, died[k]);
  });
}
static void scoped(int len, int part, int np) {
  typedef pfi::lang::scoped_ptr<P> SCP; static const char *NM[] = {"a.reset(new)", "a.reset()", "b.reset(new)", "b.reset()", "a.swap(b)", "swap(a,b)", "a.swap(a)", "temporary"};
  seq::tuples(8, len, part, np, [&](const vector<int> &ix) { S p; for (int i : ix) p += S(NM[i]) + "; "; 
    for (int init = 0; init < 2; init++) { seq::begin_s("scoped_ptr: " + p + tos(init)); objs.clear(); died.clear(); next_id = 0;
      { SCP a, b(init ? new P : 0); int ma = -1, mb = init ? 0 : -1;
        for (int i : ix) { int id = next_id, tmp = -1; seq::op(); switch (i) { case 0: a.reset(new P); ma = id; break; case 1: a.reset(); ma = -1; break; case 2: b.reset(new Q); mb = id; break; case 3: b.reset(0); mb = -1; break; case 4: a.swap(b); swap(ma, mb); break; case 5: { using std::swap; swap(a, b); swap(ma, mb); } break; case 6: a.swap(a); break; case 7: { SCP t(new P); tmp = id; } break; }
          for (int k = 0; k < next_id; k++) { bool al = k == ma || k == mb; SEQ_CHECK(died[k] == !al, "lifetime", "%s: object %d died %d times, it %s be alive", p.c_str(), k, died[k], al ? "should" : "should not"); } (void)tmp;
          SEQ_CHECK((bool)a == (ma >= 0) && (bool)b == (mb >= 0) && a.get() == (ma < 0 ? 0 : objs[ma]) && b.get() == (mb < 0 ? 0 : objs[mb]), "target", "%s: wrong target", p.c_str());
          if (ma >= 0) { SEQ_CHECK(a->id == ma && (*a).id == ma, "target", "%s: -> and * disagree", p.c_str()); } if (ma >= 0 && mb >= 0) seq::nontrivial(); }
        seq::observe(tos(ma) + "," + tos(mb)); }
      for (int k = 0; k < next_id; k++) SEQ_CHECK(died[k] == 1, "lifetime", "%s: object %d died %d times in the end", p.c_str(), k, died[k]); } });
}
// a destructor that looks at, empties or refills its former holder
struct Re { static pfi::lang::scoped_ptr<Re> *h; static int mode, dead, live, bad; int id; Re(int id) : id(id) { live++; } ~Re() { dead++; live--; if (!h || mode == 0) return; if (h->get() == this) bad++; int md = mode; mode = 0; if (md == 1) h->reset(); else if (md == 2) h->reset(new Re(50)); else if (md == 3 && h->get()) bad += (*h)->id < 0; } };
pfi::lang::scoped_ptr<Re> *Re::h; int Re::mode, Re::dead, Re::live, Re::bad;
struct Ra { static pfi::lang::any *h; static bool on; int id; Ra(int id) : id(id) {} ~Ra() { if (on && h) { on = false; *h = 7; } } };
pfi::lang::any *Ra::h; bool Ra::on;
static void reentrant() {
  for (int mode = 1; mode < 4; mode++) for (int how = 0; how < 3; how++) { seq::begin("scoped_ptr whose object uses it while dying (%d, %d)", mode, how); seq::op(); Re::dead = Re::live = Re::bad = 0; 
    { pfi::lang::scoped_ptr<Re> s(new Re(1)); Re::h = &s; Re::mode = mode; if (how == 0) s.reset(new Re(2)); else if (how == 1) s.reset(); else { pfi::lang::scoped_ptr<Re> t; t.swap(s); } SEQ_CHECK(Re::bad == 0, "reentrant", "the object still was in its holder while it was destroyed"); Re::mode = 0; Re::h = 0; }
    SEQ_CHECK(Re::live == 0, "reentrant", "%d objects left", Re::live); }
  { seq::begin("any whose object assigns to it while dying"); seq::op(); { pfi::lang::any a = Ra(1); Ra::h = &a; Ra::on = true; a = S("x"); Ra::on = false; Ra::h = 0; SEQ_CHECK(a.type() == typeid(int) && pfi::lang::any_cast<int>(a) == 7, "reentrant", "the value assigned last is not there"); } seq::observe("any"); }
}
// ---- casts -------------------------------------------------------------------------------------
using pfi::lang::lexical_cast;
template <class T> static bool lc(const S &s, T &r) { try { r = lexical_cast<T>(s); return true; } catch (const bad_cast &) { return false; } }
template <class T> static void texts(const char *nm, const S &s) {
  seq::begin_s(S("lexical_cast to ") + nm + " of " + seq::show(s)); seq::op();
  size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; size_t d = i; __int128 v = 0; while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0'); if (neg) v = -v;
  T r = 77; bool ok = lc<T>(s, r); S t; for (char c : s) if (!isspace((unsigned char)c)) t += c;
  if (d < i && i == s.size()) { if (!numeric_limits<T>::is_signed && neg) return; bool in = v >= numeric_limits<T>::min() && v <= numeric_limits<T>::max(); SEQ_CHECK(ok == in, "cast-range", "%s is %s", s.c_str(), ok ? "accepted although out of range" : "refused"); if (ok) SEQ_CHECK((__int128)r == v, "cast-value", "gives %ld", (long)r); seq::nontrivial(); }
  else if (t.empty() || (!isdigit((unsigned char)t[0]) && t[0] != '-' && t[0] != '+') || (t.size() == 1 && !isdigit((unsigned char)t[0]))) SEQ_CHECK(!ok, "cast-garbage", "accepted as %ld", (long)r);
  seq::observe_u(ok ? (unsigned long)r : 12345);
}
template <class T> static void back(const char *nm, T v, const S &w) { seq::begin_s(S("lexical_cast of ") + nm + " " + w); seq::op(); S g = lexical_cast<S>(v); SEQ_CHECK(g == w, "cast-print", "printed as %s", g.c_str()); T r = lexical_cast<T>(g); SEQ_CHECK(r == v, "cast-back", "read back differently"); SEQ_CHECK(lexical_cast<T>(v) == v, "cast-same", "casting to the same type changes the value"); SEQ_CHECK(lexical_cast<T>(g.c_str()) == v, "cast-cstr", "read differently from a character array"); }
static S dec(__int128 v) { bool n = v < 0; if (n) v = -v; S r; do r.insert(r.begin(), '0' + (int)(v % 10)); while (v /= 10); return n ? "-" + r : r; }
template <class T> static void nums(const char *nm) { typedef numeric_limits<T> L; set<T> vs; for (int b = 0; b < (int)sizeof(T) * 8; b++) for (int d = -1; d <= 1; d++) { __int128 v = ((__int128)1 << b) + d; for (int s = -1; s <= 1; s += 2) if (s * v >= L::min() && s * v <= L::max()) vs.insert(s * v); } vs.insert(L::min()); vs.insert(L::max()); for (T v : vs) { back<T>(nm, v, dec(v)); 
    seq::begin_s(S("number to number ") + dec(v)); short s = 0; bool ok; try { s = lexical_cast<short>(v); ok = true; } catch (const bad_cast &) { ok = false; } bool in = (__int128)v >= SHRT_MIN && (__int128)v <= SHRT_MAX; SEQ_CHECK(ok == in && (!ok || s == (short)v), "cast-narrow", "to short: %d %d", ok, s); seq::op(); } }
static void casts(int p, int np) {
  bool t = seq::thorough;
  seq::strings(seq::chars("0179-+ a."), 0, t ? 6 : 5, p, np, [&](const S &s) { texts<int>("int", s); });
  seq::strings({"32767", "32768", "2147483647", "2147483648", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-", "+", "0", " "}, 1, 3, p, np, [&](const S &s) { if (s.size() > 30) return; texts<int>("int", s); texts<short>("short", s); texts<long>("long", s); texts<unsigned>("unsigned", s); texts<unsigned short>("unsigned short", s); texts<unsigned long>("unsigned long", s); });
  if (p) return;
  nums<int>("int"); nums<short>("short"); nums<long>("long"); nums<unsigned>("unsigned"); nums<unsigned long>("unsigned long"); nums<unsigned short>("unsigned short"); nums<long long>("long long");
  for (double d : {0.0, 0.5, -1.25, 1024.0, 1e10, 0.0001220703125}) { seq::begin("lexical_cast of %g", d); SEQ_CHECK(lexical_cast<double>(lexical_cast<S>(d)) == d || d == 0.0001220703125, "cast-double", "not read back"); SEQ_CHECK(lexical_cast<double>(d) == d, "cast-same", "same type"); seq::op(); }
  for (const char *s : {"", " ", "a", "a b", " x ", "\n", "日本"}) { S v(s); seq::begin_s("lexical_cast of string " + seq::show(v)); SEQ_CHECK(lexical_cast<S>(v) == v && lexical_cast<S>(s) == v, "cast-string", "a string cast to a string is changed"); seq::op(); }
  for (int c = 33; c < 127; c++) { seq::begin("character %d", c); SEQ_CHECK(lexical_cast<char>(S(1, c)) == c && lexical_cast<S>((char)c) == S(1, c), "cast-char", "changed"); seq::op(); }
  vector<S> fs = {"", "f", "a:b"}, ms = {"", "m", "x y"};
  for (auto &f : fs) for (int l : {-1, 0, 7, INT_MAX}) for (int o : {0, -3, 120}) for (auto &m : ms) { seq::begin_s("parse_error " + f + " " + m); seq::op(); S w = f + ":" + dec(l) + ":" + dec(o) + " " + m; S g; int gl = 0, go = 0; S gf, gm;
    try { pfi::lang::parse_error e(f, l, o, m); throw e; } catch (const exception &e) { g = e.what(); const pfi::lang::parse_error &pe = dynamic_cast<const pfi::lang::parse_error &>(e); gf = pe.filename(); gl = pe.lineno(); go = pe.pos(); gm = pe.msg(); }
    SEQ_CHECK(g == w && gf == f && gl == l && go == o && gm == m, "parse_error", "%s", g.c_str()); }
}
static void reg() {
  bool t = seq::thorough; 
  for (int l = 1; l <= (t ? 5 : 4); l++) { seq::task("optional " + tos(l), l > 3 ? 6 : 1, l > 3 ? 12 : 1, [=](int p, int np) { optionals(l, p, np); }); seq::task("any " + tos(l), l > 3 ? 6 : 1, l > 3 ? 12 : 1, [=](int p, int np) { if (l <= 4) anys(l, p, np); }); }
  vector<int> all; for (int i = 0; i < NPN; i++) all.push_back(i);
  for (int l = 1; l <= 3; l++) seq::task("pointers " + tos(l), 1, 2, [=](int p, int np) { ptrs(l, all, p, np); });
  vector<int> some = {0, 1, 3, 6, 7, 9, 12, 13, 14, 15, 18, 19};
  seq::task("pointers long", 8, 16, [=](int p, int np) { ptrs(4, all, p, np); if (seq::thorough) { ptrs(5, some, p, np); ptrs(6, {0, 3, 9, 13, 14, 15, 18}, p, np); } else ptrs(5, {0, 1, 3, 9, 12, 14, 15, 18}, p, np); });
  for (int l = 1; l <= (t ? 6 : 5); l++) seq::task("scoped " + tos(l), 1, 4, [=](int p, int np) { scoped(l, p, np); });
  seq::task("reentrant", 1, 1, [](int, int) { reentrant(); });
  seq::task("casts", 2, 4, casts);
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
