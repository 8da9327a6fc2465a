// Stand-in for msgpack-c 0.5 (not installed here): the part of its interface network/mprpc uses, and the
// MessagePack wire format of that time (nil, bool, integers, double, raw, array, map).
#ifndef STANDIN_MSGPACK_HPP_
#define STANDIN_MSGPACK_HPP_
#include <arpa/inet.h>
#include <stdint.h>
#include <string.h>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <ostream>
#include <set>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>
namespace msgpack {
namespace type {
enum object_type { NIL = 0x01, BOOLEAN = 0x02, POSITIVE_INTEGER = 0x03, NEGATIVE_INTEGER = 0x04, DOUBLE = 0x05, RAW = 0x06, ARRAY = 0x07, MAP = 0x08 };
struct nil {};
}
class type_error : public std::bad_cast {};
class unpack_error : public std::runtime_error { public: unpack_error(const std::string &m) : std::runtime_error(m) {} };
struct object;
struct object_kv;
struct object_array { uint32_t size; object *ptr; };
struct object_map { uint32_t size; object_kv *ptr; };
struct object_raw { uint32_t size; const char *ptr; };
struct object {
  type::object_type type;
  union union_type { bool boolean; uint64_t u64; int64_t i64; double dec; object_array array; object_map map; object_raw raw; } via;
  object() : type(type::NIL) { memset(&via, 0, sizeof via); }
  bool is_nil() const { return type == type::NIL; }
  template <class T> void convert(T *v) const;
  template <class T> T as() const { T v; convert(&v); return v; }
};
struct object_kv { object key, val; };
// owns the memory of the objects that were unpacked with it
class zone {
public:
  zone() {}
  char *raw(const char *p, size_t n) { chunks.push_back(std::unique_ptr<char[]>(new char[n + 1])); memcpy(chunks.back().get(), p, n); return chunks.back().get(); }
  object *objs(size_t n) { arrays.push_back(std::unique_ptr<object[]>(new object[n + 1])); return arrays.back().get(); }
  object_kv *kvs(size_t n) { maps.push_back(std::unique_ptr<object_kv[]>(new object_kv[n + 1])); return maps.back().get(); }
private:
  zone(const zone &); zone &operator=(const zone &);
  std::list<std::unique_ptr<char[]> > chunks; std::list<std::unique_ptr<object[]> > arrays; std::list<std::unique_ptr<object_kv[]> > maps;
};
inline std::ostream &operator<<(std::ostream &s, const object &o) {
  switch (o.type) {
  case type::NIL: return s << "nil";
  case type::BOOLEAN: return s << (o.via.boolean ? "true" : "false");
  case type::POSITIVE_INTEGER: return s << o.via.u64;
  case type::NEGATIVE_INTEGER: return s << o.via.i64;
  case type::DOUBLE: return s << o.via.dec;
  case type::RAW: return (s << '"').write(o.via.raw.ptr, o.via.raw.size) << '"';
  case type::ARRAY: s << "["; for (uint32_t i = 0; i < o.via.array.size; i++) s << (i ? ", " : "") << o.via.array.ptr[i]; return s << "]";
  case type::MAP: s << "{"; for (uint32_t i = 0; i < o.via.map.size; i++) s << (i ? ", " : "") << o.via.map.ptr[i].key << "=>" << o.via.map.ptr[i].val; return s << "}";
  }
  return s;
}
// ---- objects to values
template <class T> inline typename std::enable_if<std::is_class<T>::value>::type conv(const object &o, T &v) { v.msgpack_unpack(o); }
template <class T> inline typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type conv(const object &o, T &v) {
  if (o.type == type::POSITIVE_INTEGER) { if (o.via.u64 > (uint64_t)std::numeric_limits<T>::max()) throw type_error(); v = (T)o.via.u64; }
  else if (o.type == type::NEGATIVE_INTEGER) { if (!std::numeric_limits<T>::is_signed || o.via.i64 < (int64_t)std::numeric_limits<T>::min()) throw type_error(); v = (T)o.via.i64; }
  else throw type_error();
}
inline void conv(const object &o, bool &v) { if (o.type != type::BOOLEAN) throw type_error(); v = o.via.boolean; }
inline void conv(const object &o, double &v) { if (o.type != type::DOUBLE) throw type_error(); v = o.via.dec; }
inline void conv(const object &o, std::string &v) { if (o.type != type::RAW) throw type_error(); v.assign(o.via.raw.ptr, o.via.raw.size); }
inline void conv(const object &o, object &v) { v = o; }
template <class T> inline void conv(const object &o, std::vector<T> &v) { if (o.type != type::ARRAY) throw type_error(); v.resize(o.via.array.size); for (size_t i = 0; i < v.size(); i++) { T t; conv(o.via.array.ptr[i], t); v[i] = t; } }
template <class T> inline void conv(const object &o, std::set<T> &v) { if (o.type != type::ARRAY) throw type_error(); v.clear(); for (uint32_t i = 0; i < o.via.array.size; i++) { T t; conv(o.via.array.ptr[i], t); v.insert(t); } }
template <class A, class B> inline void conv(const object &o, std::pair<A, B> &v) { if (o.type != type::ARRAY || o.via.array.size != 2) throw type_error(); conv(o.via.array.ptr[0], v.first); conv(o.via.array.ptr[1], v.second); }
template <class A, class B> inline void conv(const object &o, std::map<A, B> &v) { if (o.type != type::MAP) throw type_error(); v.clear(); for (uint32_t i = 0; i < o.via.map.size; i++) { A a; conv(o.via.map.ptr[i].key, a); conv(o.via.map.ptr[i].val, v[a]); } }
namespace type {
template <class A0, class A1, class A2, class A3> struct tuple {
  A0 a0; A1 a1; A2 a2; A3 a3;
  tuple() : a0(), a1(), a2(), a3() {}
  tuple(A0 x0, A1 x1, A2 x2, A3 x3) : a0(x0), a1(x1), a2(x2), a3(x3) {}
  template <class P> void msgpack_pack(P &p) const { p.pack_array(4); p.pack(a0); p.pack(a1); p.pack(a2); p.pack(a3); }
  void msgpack_unpack(object o) {
    if (o.type != ARRAY || o.via.array.size < 4) throw type_error();
    conv(o.via.array.ptr[0], a0); conv(o.via.array.ptr[1], a1); conv(o.via.array.ptr[2], a2); conv(o.via.array.ptr[3], a3);
  }
};
}
template <class T> inline void object::convert(T *v) const { conv(*this, *v); }
// ---- values to bytes
class sbuffer { public: void write(const char *p, size_t n) { s.append(p, n); } char *data() { return &s[0]; } const char *data() const { return s.data(); } size_t size() const { return s.size(); } private: std::string s; };
template <class S> class packer {
public:
  explicit packer(S *s) : s(*s) {}
  packer(S &s) : s(s) {}
  template <class T> packer &pack(const T &v) { put(v); return *this; }
  packer &pack_nil() { b(0xc0); return *this; }
  packer &pack_array(uint32_t n) { if (n < 16) b(0x90 | n); else if (n < 65536) { b(0xdc); be(n, 2); } else { b(0xdd); be(n, 4); } return *this; }
  packer &pack_map(uint32_t n) { if (n < 16) b(0x80 | n); else if (n < 65536) { b(0xde); be(n, 2); } else { b(0xdf); be(n, 4); } return *this; }
private:
  void b(int c) { char x = (char)c; s.write(&x, 1); }
  void be(uint64_t v, int n) { while (n--) b((v >> (8 * n)) & 255); }
  void uint(uint64_t v) { if (v < 128) b(v); else if (v < 256) { b(0xcc); be(v, 1); } else if (v < 65536) { b(0xcd); be(v, 2); } else if (v >> 32 == 0) { b(0xce); be(v, 4); } else { b(0xcf); be(v, 8); } }
  void sint(int64_t v) { if (v >= 0) uint(v); else if (v >= -32) b(v & 255); else if (v >= -128) { b(0xd0); be(v, 1); } else if (v >= -32768) { b(0xd1); be(v, 2); } else if (v >= -2147483648LL) { b(0xd2); be(v, 4); } else { b(0xd3); be(v, 8); } }
  template <class T> typename std::enable_if<std::is_class<T>::value>::type put(const T &v) { v.msgpack_pack(*this); }
  template <class T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type put(const T &v) { if (std::numeric_limits<T>::is_signed) sint((int64_t)v); else uint((uint64_t)v); }
  void put(const bool &v) { b(v ? 0xc3 : 0xc2); }
  void put(const double &v) { uint64_t x; memcpy(&x, &v, 8); b(0xcb); be(x, 8); }
  void put(const type::nil &) { pack_nil(); }
  void put(const std::string &v) { size_t n = v.size(); if (n < 32) b(0xa0 | n); else if (n < 65536) { b(0xda); be(n, 2); } else { b(0xdb); be(n, 4); } s.write(v.data(), n); }
  template <class T> void put(const std::vector<T> &v) { pack_array(v.size()); for (size_t i = 0; i < v.size(); i++) put(T(v[i])); }
  template <class T> void put(const std::set<T> &v) { pack_array(v.size()); for (typename std::set<T>::const_iterator i = v.begin(); i != v.end(); ++i) put(*i); }
  template <class A, class B> void put(const std::pair<A, B> &v) { pack_array(2); put(v.first); put(v.second); }
  template <class A, class B> void put(const std::map<A, B> &v) { pack_map(v.size()); for (typename std::map<A, B>::const_iterator i = v.begin(); i != v.end(); ++i) { put(i->first); put(i->second); } }
  S &s;
};
template <class S, class T> inline void pack(S &s, const T &v) { packer<S> p(s); p.pack(v); }
template <class S, class T> inline void pack(S *s, const T &v) { packer<S> p(*s); p.pack(v); }
// ---- bytes to objects
class unpacker {
public:
  unpacker() : used(0), off(0), z(new zone) {}
  void reserve_buffer(size_t n) { if (off) { buf.erase(0, off); used -= off; off = 0; } if (buf.size() < used + n) buf.resize(used + n); }
  char *buffer() { return &buf[0] + used; }
  size_t buffer_capacity() const { return buf.size() - used; }
  void buffer_consumed(size_t n) { if (n > buffer_capacity()) throw std::logic_error("more consumed than there is room for"); used += n; }
  bool execute() { if (done) throw unpack_error("reset() was not called"); size_t p = off; object o; if (!obj(p, o, 0)) { z.reset(new zone); return false; } off = p; ob = o; done = true; return true; }
  object data() { return ob; }
  zone *release_zone() { zone *r = z.release(); z.reset(new zone); return r; }
  void reset() { done = false; z.reset(new zone); ob = object(); }
private:
  uint64_t be(size_t &p, int n) { uint64_t v = 0; while (n--) v = v << 8 | (unsigned char)buf[p++]; return v; }
  bool raw(size_t &p, object &o, uint64_t n) { if (used - p < n) return false; o.type = type::RAW; o.via.raw.size = n; o.via.raw.ptr = z->raw(buf.data() + p, n); p += n; return true; }
  bool arr(size_t &p, object &o, uint64_t n, int d) { std::vector<object> v; for (uint64_t i = 0; i < n; i++) { object e; if (!obj(p, e, d + 1)) return false; v.push_back(e); } o.type = type::ARRAY; o.via.array.size = n; o.via.array.ptr = z->objs(n); for (size_t i = 0; i < n; i++) o.via.array.ptr[i] = v[i]; return true; }
  bool map(size_t &p, object &o, uint64_t n, int d) { std::vector<object> v; for (uint64_t i = 0; i < 2 * n; i++) { object e; if (!obj(p, e, d + 1)) return false; v.push_back(e); } o.type = type::MAP; o.via.map.size = n; o.via.map.ptr = z->kvs(n); for (size_t i = 0; i < n; i++) { o.via.map.ptr[i].key = v[2 * i]; o.via.map.ptr[i].val = v[2 * i + 1]; } return true; }
  bool obj(size_t &p, object &o, int d) {
    if (d > 32) throw unpack_error("parse error");
    if (p >= used) return false;
    unsigned c = (unsigned char)buf[p++]; static const int len[] = {4, 8, 1, 2, 4, 8, 1, 2, 4, 8};
    if (c < 0x80) { o.type = type::POSITIVE_INTEGER; o.via.u64 = c; return true; }
    if (c >= 0xe0) { o.type = type::NEGATIVE_INTEGER; o.via.i64 = (int8_t)c; return true; }
    if (c < 0x90) return map(p, o, c & 15, d);
    if (c < 0xa0) return arr(p, o, c & 15, d);
    if (c < 0xc0) return raw(p, o, c & 31);
    if (c == 0xc0) { o.type = type::NIL; return true; }
    if (c == 0xc2 || c == 0xc3) { o.type = type::BOOLEAN; o.via.boolean = c == 0xc3; return true; }
    if (c >= 0xca && c <= 0xd3) {
      int n = len[c - 0xca]; if (used - p < (size_t)n) return false; uint64_t v = be(p, n);
      if (c == 0xca) { uint32_t w = v; float f; memcpy(&f, &w, 4); o.type = type::DOUBLE; o.via.dec = f; }
      else if (c == 0xcb) { o.type = type::DOUBLE; memcpy(&o.via.dec, &v, 8); }
      else if (c <= 0xcf) { o.type = type::POSITIVE_INTEGER; o.via.u64 = v; }
      else { int64_t s = n == 8 ? (int64_t)v : (int64_t)(v << (64 - 8 * n)) >> (64 - 8 * n); if (s >= 0) { o.type = type::POSITIVE_INTEGER; o.via.u64 = s; } else { o.type = type::NEGATIVE_INTEGER; o.via.i64 = s; } }
      return true;
    }
    if (c >= 0xda && c <= 0xdf) { int n = c & 1 ? 4 : 2; if (used - p < (size_t)n) return false; uint64_t v = be(p, n); return c <= 0xdb ? raw(p, o, v) : c <= 0xdd ? arr(p, o, v, d) : map(p, o, v, d); }
    throw unpack_error("parse error");
  }
  std::string buf; size_t used, off; std::unique_ptr<zone> z; object ob; bool done = false;
};
}
#define MSGPACK_DEFINE1(a) template <class P> void msgpack_pack(P &p) const { p.pack_array(1); p.pack(a); } void msgpack_unpack(msgpack::object o) { if (o.type != msgpack::type::ARRAY) throw msgpack::type_error(); if (o.via.array.size > 0) msgpack::conv(o.via.array.ptr[0], a); }
#define MSGPACK_DEFINE(a, b) template <class P> void msgpack_pack(P &p) const { p.pack_array(2); p.pack(a); p.pack(b); } void msgpack_unpack(msgpack::object o) { if (o.type != msgpack::type::ARRAY) throw msgpack::type_error(); if (o.via.array.size > 0) msgpack::conv(o.via.array.ptr[0], a); if (o.via.array.size > 1) msgpack::conv(o.via.array.ptr[1], b); }
#endif
