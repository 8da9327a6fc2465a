// C42: type descriptions (reflection) of serialised types and of RPC interfaces
#include "../mc/seq.h"
#include <data/serialization.h>
#include <data/serialization/iostream.h>
#include <data/serialization/map.h>
#include <data/serialization/reflect.h>
#include <data/serialization/string.h>
#include <data/serialization/vector.h>
#include <lang/function.h>
#include <network/rpc/reflect.h>
#include <sstream>
#include <tuple>
typedef std::string S;
namespace ds = pfi::data::serialization;
typedef pfi::lang::shared_ptr<ds::type_rep> P;
typedef std::vector<S> V;
// ---- the types --------------------------------------------------------------------------------
template <class T> struct Plain { T a; template <class Ar> void serialize(Ar &ar) { ar & a; } };
template <class T> struct Box { T v; template <class Ar> void serialize(Ar &ar) { ar &NAME(Box) & MEMBER(v); } };
template <class T, class U> struct Two { T first; U second; T third; template <class Ar> void serialize(Ar &ar) { ar &NAMED_MEMBER("x y", first) & second &NAME(Two) & MEMBER(third); } };
template <class T> struct Late { T a, b; template <class Ar> void serialize(Ar &ar) { ar &NAME(Late) & a &NAMED_MEMBER("Late", b) & a; } };
struct None { template <class Ar> void serialize(Ar &) {} };
struct Only { template <class Ar> void serialize(Ar &ar) { ar &NAME(Only); } };
template <class T> class Priv { friend class ds::access; T p; template <class Ar> void serialize(Ar &ar) { ar &MEMBER(p) & MEMBER(p); } public: Priv() : p() {} };
// what each is to be called, and its parts in order (its own text first)
template <class T> struct D;
template <class T> static void parts(V &v) { v.push_back(D<T>::text()); D<T>::sub(v); }
#define PRIM(T, s) template <> struct D<T> { static S text() { return s; } static void sub(V &) {} };
template <class T> static S num() { return S(std::is_signed<T>::value ? "int(" : "uint(") + std::to_string(sizeof(T)) + ")"; }
#define INT(T) PRIM(T, num<T>())
PRIM(bool, "bool") PRIM(char, "char") INT(signed char) INT(unsigned char) INT(short) INT(unsigned short) INT(int) INT(unsigned) INT(long) INT(unsigned long) INT(long long) INT(unsigned long long) PRIM(float, "float") PRIM(double, "float") PRIM(long double, "float") PRIM(S, "string") PRIM(std::wstring, "string")
PRIM(None, "class(){}") PRIM(Only, "class(Only){}")
template <class T> struct D<std::vector<T>> { static S text() { return "array<" + D<T>::text() + ">"; } static void sub(V &v) { parts<T>(v); } };
template <class K, class T> struct D<std::map<K, T>> { static S text() { return "map<" + D<K>::text() + "," + D<T>::text() + ">"; } static void sub(V &v) { parts<K>(v); parts<T>(v); } };
template <class T> struct D<Plain<T>> { static S text() { return "class(){" + D<T>::text() + "}"; } static void sub(V &v) { parts<T>(v); } };
template <class T> struct D<Box<T>> { static S text() { return "class(Box){" + D<T>::text() + ":v}"; } static void sub(V &v) { parts<T>(v); } };
template <class T> struct D<Late<T>> { static S text() { S t = D<T>::text(); return "class(Late){" + t + "," + t + ":Late," + t + "}"; } static void sub(V &v) { parts<T>(v); parts<T>(v); parts<T>(v); } };
template <class T> struct D<Priv<T>> { static S text() { return "class(){" + D<T>::text() + ":p," + D<T>::text() + ":p}"; } static void sub(V &v) { parts<T>(v); parts<T>(v); } };
template <class T, class U> struct D<Two<T, U>> { static S text() { return "class(Two){" + D<T>::text() + ":x y," + D<U>::text() + "," + D<T>::text() + ":third}"; } static void sub(V &v) { parts<T>(v); parts<U>(v); parts<T>(v); } };
// ---- observations -------------------------------------------------------------------------------
static S printed(ds::type_rep *t) { std::ostringstream o; t->print(o); return o.str(); }
static S walked(ds::type_rep *t) {   // the same through the typed interfaces
  if (dynamic_cast<ds::bool_type *>(t)) return "bool"; if (dynamic_cast<ds::char_type *>(t)) return "char"; if (dynamic_cast<ds::float_type *>(t)) return "float"; if (dynamic_cast<ds::string_type *>(t)) return "string"; if (dynamic_cast<ds::stream_type *>(t)) return "stream";
  if (auto i = dynamic_cast<ds::int_type *>(t)) return S(i->sign() ? "int(" : "uint(") + std::to_string(i->size()) + ")";
  if (auto a = dynamic_cast<ds::array_type *>(t)) return "array<" + walked(a->elem_type().get()) + ">";
  if (auto m = dynamic_cast<ds::map_type *>(t)) return "map<" + walked(m->key_type().get()) + "," + walked(m->value_type().get()) + ">";
  if (auto c = dynamic_cast<ds::class_type *>(t)) { S r = "class(" + c->get_name() + "){"; int n = 0; for (auto it = c->begin(); it != c->end(); ++it) r += (n++ ? "," : "") + walked(it->second.get()) + (it->first.empty() ? "" : ":" + it->first); return r + "}"; }
  return "?";
}
static void type(P t, const S &want, const V &pre) {
  SEQ_CHECK(t.get(), "none", "no description"); S got = printed(t.get()); SEQ_CHECK(got == want, "text", "%s instead of %s", got.c_str(), want.c_str());
  got = walked(t.get()); SEQ_CHECK(got == want, "parts", "%s instead of %s through the typed interfaces", got.c_str(), want.c_str());
  V v; t->traverse([&](ds::type_rep *x) { v.push_back(printed(x)); }); SEQ_CHECK(v == pre, "traverse", "%zu parts visited instead of %zu, or in another order", v.size(), pre.size()); seq::observe(got);
}
template <class T> static void one() { S w = D<T>::text(); seq::begin_s("type " + w); seq::op(); V pre; parts<T>(pre); type(ds::get_type<T>(), w, pre);
  // two descriptions made by one reflection object do not mix
  ds::reflection r; T a = T(); r << a; type(r.get(), w, pre); }
template <class... T> struct L {};
typedef L<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double, S, std::wstring, None, Only> L0;
typedef L<bool, unsigned short, S, Only> K0;
typedef L<bool, char, signed char, unsigned, double, S, None> K1;
template <class T> static void wrap(int d) { one<std::vector<T>>(); one<Plain<T>>(); one<Box<T>>(); one<Priv<T>>(); one<Late<T>>(); (void)d; }
template <class A, class B> static void pair() { one<std::map<A, B>>(); one<Two<A, B>>(); }
template <class A, class... B> static void row(L<B...>) { (pair<A, B>(), ...); }
template <class B, class... A> static void col(L<A...>) { (pair<A, B>(), ...); }
template <class T> static void deep() { wrap<T>(1); col<T>(K0()); row<T>(K0()); }
template <class T> static void all() { one<T>(); wrap<T>(0); row<T>(K1()); }
template <class T> static void more() { deep<std::vector<T>>(); deep<Plain<T>>(); deep<Box<T>>(); deep<std::map<T, S>>(); deep<Two<T, Priv<T>>>(); }
template <class... T> static void run(int part, int n, L<T...>) { int c = 0; ((c++ % n == part ? all<T>() : void()), ...); }
template <class... T> static void run2(int part, int n, L<T...>) { int c = 0; ((c++ % n == part ? more<T>() : void()), ...); }
// ---- methods -------------------------------------------------------------------------------------
typedef std::pair<P, std::vector<P>> X;
static void method(const S &what, const X &x, const V &want) {
  seq::begin_s("method " + what); seq::op(); SEQ_CHECK(x.first.get() && printed(x.first.get()) == want[0], "return", "return type %s instead of %s", x.first.get() ? printed(x.first.get()).c_str() : "none", want[0].c_str());
  SEQ_CHECK(x.second.size() + 1 == want.size(), "arity", "%zu arguments instead of %zu", x.second.size(), want.size() - 1); for (size_t i = 1; i < want.size(); i++) { SEQ_CHECK(printed(x.second[i - 1].get()) == want[i], "argument", "argument %zu is %s instead of %s", i, printed(x.second[i - 1].get()).c_str(), want[i].c_str()); } seq::observe(what);
}
template <class R, class... A> static void sig() { V w; w.push_back(D<R>::text()); (w.push_back(D<A>::text()), ...); S n; for (auto &s : w) n += " " + s; method(n, pfi::network::rpc::extract(pfi::lang::function<R(A...)>()), w); }
template <class R, class... A, class... B> static void sigs(L<A...>, L<B...>) { sig<R, A...>(); }
template <class... Done> struct Sig;
template <class R, class... A> static void upto(L<A...>, L<>) { sig<R, A...>(); }
template <class R, class... A, class B, class... C> static void upto(L<A...>, L<B, C...>) { sig<R, A...>(); upto<R>(L<A..., B>(), L<C...>()); }
template <class A, class... B> static L<B..., A> rot(L<A, B...>) { return L<B..., A>(); }
template <class A, class... B> static A front(L<A, B...>);
template <int N, class Lx> static void rots(Lx l) { if constexpr (N > 0) { upto<decltype(front(l))>(L<>(), l); rots<N - 1>(rot(l)); } }
typedef L<int, S, std::vector<S>, bool, Box<double>, unsigned short, std::map<S, int>, long, Only> L9;
namespace decl {
using pfi::lang::function; using pfi::network::rpc::reflect_base;
REFLECT_RPC_PROC(get, S(int, bool))
REFLECT_RPC_PROC(put, bool(std::vector<S>))
REFLECT_RPC_PROC(nop, int())
REFLECT_RPC_GEN(7, svc, _reflect::get, _reflect::put, _reflect::nop)
REFLECT_RPC_GEN(-1, tiny, _reflect::nop)
}
template <class T> static T again(const T &v) { std::stringstream ss; { ds::binary_oarchive oa(ss); oa << const_cast<T &>(v); } T r = T(); ds::binary_iarchive ia(ss); ia >> r; return r; }
template <class T> static S bytes(T v) { std::stringstream ss; { ds::binary_oarchive oa(ss); oa << v; } return ss.str(); }
static void reg() {
  seq::task("types", 8, 8, [](int part, int n) { run(part, n, L0()); });
  seq::task("nested", 4, 4, [](int part, int n) { run2(part, n, K0()); });
  seq::task("methods", 1, 1, [](int, int) {
    rots<9>(L9()); decl::svc_reflect s; seq::begin("interface svc"); seq::op();
    SEQ_CHECK(s.get_name() == "svc" && s.get_version() == 7 && s.members().size() == 3, "interface", "name %s version %d methods %zu", s.get_name().c_str(), s.get_version(), s.members().size());
    method("svc get", s.members()["get"], {"string", "int(4)", "bool"}); method("svc put", s.members()["put"], {"bool", "array<string>"}); method("svc nop", s.members()["nop"], {"int(4)"});
    decl::tiny_reflect t; seq::begin("interface tiny"); SEQ_CHECK(t.get_name() == "tiny" && t.get_version() == -1 && t.members().size() == 1, "interface", "name %s version %d", t.get_name().c_str(), t.get_version());
  });
  // names are for descriptions only: they do not change what is stored
  seq::task("stored", 1, 1, [](int, int) {
    static const S ss[] = {"", "a", S("\0x", 2), S(300, 'q')};
    for (auto &a : ss) for (auto &b : ss) for (int k = -1; k < 3; k++) { seq::begin_s("stored " + seq::show(a) + seq::show(b) + std::to_string(k)); seq::op();
      Two<S, int> t; t.first = a; t.second = k; t.third = b; S w = bytes(a) + bytes(k) + bytes(b); SEQ_CHECK(bytes(t) == w, "bytes", "%s instead of %s", seq::show(bytes(t)).c_str(), seq::show(w).c_str());
      Two<S, int> r = again(t); SEQ_CHECK(r.first == a && r.second == k && r.third == b, "values", "members come back changed"); Box<S> x; x.v = a; Plain<S> p; p.a = a; SEQ_CHECK(bytes(x) == bytes(p) && again(x).v == a, "bytes", "annotated and plain member differ"); seq::observe(w); }
  });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
