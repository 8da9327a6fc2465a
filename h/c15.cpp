// C15: the JSON parser accepts exactly JSON and yields the denoted value
#include "json.h"
struct Events : pj::json_parser::callback {
  std::vector<S> ev;
  void null() { ev.push_back("null"); } void boolean(bool b) { ev.push_back(b ? "true" : "false"); }
  void integer(int64_t v) { ev.push_back("i" + std::to_string((long long)v)); } void number(double d) { char q[64]; snprintf(q, sizeof q, "f%.17g", d); ev.push_back(q); }
  void string(const char *p, size_t n) { ev.push_back("s" + S(p, n)); } void start_object() { ev.push_back("{"); } void object_key(const char *p, size_t n) { ev.push_back("k" + S(p, n)); }
  void end_object() { ev.push_back("}"); } void start_array() { ev.push_back("["); } void end_array() { ev.push_back("]"); }
};
// parse a sequence of texts until the end of the data; result: values, and whether an error ended it
struct Drip : std::streambuf { const S &s; size_t p; char c; explicit Drip(const S &s) : s(s), p(0) {}
  int underflow() { if (p >= s.size()) return EOF; c = s[p++]; setg(&c, &c, &c + 1); return (unsigned char)c; } };
static void text(const S &t, int how = 0) {
  seq::begin_s(seq::show(t));
  std::vector<V> want; bool bad = false, unspec = false; std::vector<S> wev;
  { Ref r(t, &wev); try { while (!r.done()) want.push_back(r.val()); } catch (Bad &) { bad = true; } catch (Unspec &) { unspec = true; } }
  std::vector<V> got; int err = 0;
  {
    std::istringstream is; Drip d(t); std::istream is2(&d);
    if (!how) is.str(t);
    pj::json_parser p(how ? is2 : is);
    try { for (;;) { got.push_back(of_pfi(p.parse())); seq::op(); if (got.size() > t.size() + 1) break; } }
    catch (const pfi::lang::end_of_data &) { err = 1; }
    catch (const pfi::lang::parse_error &) { err = 2; }
  }
  SEQ_CHECK(err, "endless", "the parser returns values without consuming the text");
  if (unspec || !valid_utf8(t)) return;   // malformed numbers and malformed UTF-8: only termination is claimed
  SEQ_CHECK(got.size() >= want.size(), "reject", "the text %s is rejected after %zu of %zu values", seq::show(t).c_str(), got.size(), want.size());
  for (size_t i = 0; i < want.size(); i++) SEQ_CHECK(eq(got[i], want[i]), "value", "parsed as %s instead of %s", str(got[i]).c_str(), str(want[i]).c_str());
  SEQ_CHECK(got.size() == want.size(), "accept", "%s was accepted although it is not JSON", str(got.back()).c_str());
  if (!bad) SEQ_CHECK(err == 1, "end", "the end of the data is reported as a syntax error");
  seq::observe(got.empty() ? S(bad ? "bad" : "none") : str(got[0]));
  if (!bad) {
    std::istringstream is(t); Events e; pj::json_parser p(is);
    try { for (;;) p.parse_stream(e); } catch (const pfi::lang::end_of_data &) {}
    SEQ_CHECK(e.ev == wev, "events", "the callbacks differ from the text's structure");
  }
  if (want.size() >= 1) {   // the stream operator
    std::istringstream is(t); pj::json j; is >> j; SEQ_CHECK(eq(of_pfi(j), want[0]), "value", "operator>> yields %s", str(of_pfi(j)).c_str());
  }
}
static S u4(unsigned c, bool up = false) { char b[8]; snprintf(b, sizeof b, up ? "\\u%04X" : "\\u%04x", c); return b; }
static std::vector<S> docs() {
  return {"{\"a\":[1,-2.5e3,\"x\\u00e9\\n\"],\"b\":{\"c\":null,\"\":[true,false]},\"d\":\"\"}", "[[[]],{},[{}],\"\\ud83d\\ude00\",0.125,1e5,-0]", " [ 1 , 2 ,\n{ \"k\" :\t\"v\" } ]\r\n", "\"\\\"\\\\\\/\\b\\f\\n\\r\\t\\u0041\"", "123", "-0.5E-2", "1e5", "{\"a\":1,\"a\":2}", "9223372036854775807", "-9223372036854775808", "null", "\xe3\x81\x82" , "\"\xe3\x81\x82\xf0\x9f\x98\x80\xc3\xa9\""};
}
static void reg() {
  bool th = seq::thorough;
  seq::task("structure", 16, 32, [=](int p, int n) { seq::strings({"1", "[", "]", ",", "{", "}", "\"a\":", "\"b\"", "true", " "}, 0, th ? 7 : 5, p, n, [](const S &s) { text(s); }); });
  seq::task("object", 8, 16, [=](int p, int n) { seq::strings({"{", "}", "\"a\"", ":", ",", "2", "\"b\"", "\n"}, 0, th ? 7 : 5, p, n, [](const S &s) { text("{" + s); text("[{" + s + "]"); }); });
  seq::task("number", 8, 16, [=](int p, int n) { seq::strings({"0", "1", "9", "-", ".", "e", "E", "+"}, 1, th ? 7 : 5, p, n, [](const S &s) { text(s); text(s + " "); text("[" + s + "]"); text(s + "\n2"); }); });
  seq::task("digits", 4, 8, [=](int p, int n) { seq::strings({"0", "1", "5", "7", "."}, 1, th ? 8 : 6, p, n, [](const S &s) { text(s); text("[" + s + ",0]"); }); });
  seq::task("limits", 1, 1, [=](int, int) { for (const char *b : {"922337203685477580", "-922337203685477580", "1844674407370955161", "99999999999999999999999999999", "4611686018427387904", "214748364", "-214748364", "429496729"}) for (int d = -1; d < 10; d++) { S s = S(b) + (d < 0 ? "" : std::to_string(d)); text(s); text("[" + s + "]"); text(s + ".0"); text(s + "e0"); text(s + "e1"); text(s + ".5e-3"); }
    for (int e = -300; e <= 308; e++) for (const char *m : {"1", "-2.5", "1.2345678901234567", "9.99"}) { if (e >= 308 && m[0] == '9') continue; S s = S(m) + "e" + std::to_string(e); text(s); text("[" + s + "]"); text("[1," + S(m) + "E" + (e >= 0 ? "+" : "") + std::to_string(e) + " ]"); } });
  seq::task("literal", 8, 16, [=](int p, int n) { seq::strings({"t", "r", "u", "e", "f", "a", "l", "s", "n"}, 1, th ? 6 : 5, p, n, [](const S &s) { text(s); text("[" + s + "]"); }); });
  seq::task("string", 16, 32, [=](int p, int n) { seq::strings({"\\", "\"", "u", "0", "8", "n", "/", "D", "c", "\x01", "\xc3\xa9", " "}, 0, th ? 6 : 5, p, n, [](const S &s) { text("\"" + s + "\""); }); });
  seq::task("escape", 8, 16, [=](int p, int n) { seq::strings({"\\u00", "\\ud83d", "\\udE00", "\\u00e9", "\\uDBFF", "\\u", "41", "g", "\\\\", "x"}, 0, th ? 6 : 5, p, n, [](const S &s) { text("\"" + s + "\""); }); });
  seq::task("escapechar", 1, 1, [=](int, int) { for (int c = 0; c < 128; c++) { text(S("\"\\") + (char)c + "\""); text(S("\"") + (char)c + "\""); text(S("\"a") + (char)c + "b\""); for (int k = 0; k < 4; k++) { S x = "0041"; x[k] = c; text("\"\\u" + x + "\""); } } });
  seq::task("bmp", 4, 4, [=](int p, int n) { for (int c = p; c < 0x10000; c += n) { text("\"" + u4(c) + "\""); text("\"" + u4(c, true) + "z\""); } });
  seq::task("raw", 8, 8, [=](int p, int n) { for (int c = 0x20 + p; c < 0x110000; c += th ? n : n * (c < 0x3000 ? 1 : c % 64 < 3 || c % 64 > 61 ? 1 : 7)) { if (c >= 0xd800 && c < 0xe000) continue; S x; put_utf8(x, c); text("\"" + x + "\""); if (c < 0x100 || c % 256 == 0) text("\"a" + x + "\\n\""); } });
  seq::task("pairs", 16, 32, [=](int p, int n) { for (int h = 0xd800 + p; h < 0xdc00; h += n) for (int l = 0xdc00; l < 0xe000; l += th ? 1 : (h % 64 == 0 || h % 64 == 63) ? 1 : 31) text("\"" + u4(h) + u4(l, l & 1) + "\""); for (int h = 0xd700 + p; h < 0xe100; h += n) for (int l : {0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000}) text("\"" + u4(h) + u4(l) + "\""); });
  seq::task("mutate", 8, 8, [=](int p, int n) { int k = 0; for (auto &d : docs()) { text(d); text(d, 1);
    for (size_t i = 0; i <= d.size(); i++) { if (k++ % n != p) continue; if (i < d.size()) { text(d.substr(0, i)); text(d.substr(0, i) + d.substr(i + 1)); }
      for (const char *x : {" ", "\n", "\t", ",", "]", "}", "\"", "\\", "0", "[", "{", ":", "x"}) { text(d.substr(0, i) + x + d.substr(i)); if (i < d.size()) text(d.substr(0, i) + x + d.substr(i + 1)); } } } });
  seq::task("sequences", 4, 8, [=](int p, int n) { std::vector<S> ds = {"1", "true", "[]", "{\"a\":2}", "\"s\"", "-3.5", " ", "\n", "1e2", ","}; seq::strings(ds, 0, th ? 6 : 4, p, n, [](const S &s) { text(s); }); });
  seq::task("long", 8, 8, [=](int p, int n) { for (int len = 240 + p; len < (th ? 1100 : 530); len += n) for (const char *tail : {"", "\xf0\x9f\x98\x80", "\xe3\x81\x82", "\\n", "\\ud83d\\ude00", "\xc3\xa9z"}) { text("\"" + S(len, 'q') + tail + "\""); text("{\"" + S(len, 'k') + tail + "\":\"" + S(len / 2, 'v') + "\"}"); text("[\"" + S(len, 'q') + tail + "\",\"b\"]"); } });
  seq::task("longer", 4, 4, [=](int p, int n) { int k = 0; for (int base : {1024, 2048, 4096, 8192, 16384, 32768, 65536}) for (int d = -10; d <= 10; d++) for (const char *tail : {"", "\xf0\x9f\x98\x80", "\\n"}) { if (k++ % n != p) continue; S x(base + d, 'q'); for (size_t i = 0; i < x.size(); i += 97) x[i] = 'a' + i / 97 % 26; text("\"" + x + tail + "\""); if (d % 5 == 0) text("{\"" + x + tail + "\":[\"" + x + "\"]}"); } });
  // characters beyond ASCII are neither white space nor the start of anything
  seq::task("outside", 8, 8, [=](int p, int n) { for (int c = 0x80 + p; c < 0x110000; c += th ? n : n * (c < 0x3100 ? 1 : c % 64 < 3 || c % 64 > 61 ? 1 : 7)) { if (c >= 0xd800 && c < 0xe000) continue; S x; put_utf8(x, c); text("[" + x + "1]"); if (c < 0x100 || (c >= 0x1680 && c < 0x3100) || c == 0xfeff) { text(x + "1"); text("1" + x); text("[1" + x + "]"); text("{" + x + "}"); text("{\"a\"" + x + ":1}"); text("{\"a\":1" + x + "}"); text("[1," + x + "2]"); } } });
  seq::task("deep", 1, 1, [=](int, int) { for (int d = 1; d < 60; d++) { text(S(d, '[') + S(d, ']')); text(S(d, '[') + "1,2" + S(d, ']')); S o, c; for (int i = 0; i < d; i++) { o += "{\"k" + std::to_string(i) + "\":[0,"; c += "],\"z\":" + std::to_string(i) + "}"; } text(o + "null" + c); text(o + "null" + c.substr(1)); } });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
