// C12: HTTP messages over a stream_socket: parsed exactly, bodies delimited exactly, sent so that they parse back
#include "conc.h"
#include "../mc/net.h"
#include <network/http/base.h>
#include <network/http/stream.h>
#include <network/dns.h>
#include <sstream>
#include <iterator>
#include <map>
#include <algorithm>
using namespace pfi::network;
typedef std::string S;
typedef std::vector<std::pair<S, S>> HV;
typedef pfi::lang::shared_ptr<stream_socket> SP;
static const uint16_t PORT = 7000;
static S pattern(size_t n, int seed) { S s(n, 0); unsigned x = seed * 2654435761u + 1; for (size_t i = 0; i < n; i++) { x = x * 1103515245u + 12345u; s[i] = (char)(x >> 16); } return s; }
static S show(const S &s) { S r; for (size_t i = 0; i < s.size() && i < 200; i++) { char b[8]; unsigned char c = s[i]; if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } if (s.size() > 200) r += "...(" + std::to_string(s.size()) + ")"; return r; }
static S norm(const S &s) { S r; for (char c : s) { bool w = c == ' ' || c == '\t' || c == '\r' || c == '\n'; if (w) { if (!r.empty() && r.back() != ' ') r += ' '; } else r += c; } if (!r.empty() && r.back() == ' ') r.resize(r.size() - 1); return r; }
static S low(S s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
enum Faults { NONE = 0, SHORT = 1, INTR = 2, RESET = 4 };
static void faults(int f) { mc::net.short_read = mc::net.short_write = f & SHORT; mc::net.eintr = f & INTR; mc::net.reset = f & RESET; }
struct Conn {
  int lfd, pfd; SP s;
  Conn() {
    mc::quiet(true); stream_socket::set_dns_resolver(pfi::lang::shared_ptr<dns_resolver>(new normal_dns_resolver())); mc::quiet(false);
    lfd = mc::net_listen(PORT); s = SP(new stream_socket()); MC_REQUIRE(s->connect("localhost", PORT), "connect failed"); pfd = mc::net_accept(lfd);
  }
  void peer_close() { if (pfd >= 0) mc::net_close(pfd); pfd = -1; }
  void done() { s.reset(); peer_close(); mc::net_close(lfd); auto st = mc::net_stat(); MC_REQUIRE(st.open_fds == 0 && st.bad_fd_calls == 0, "descriptors left open: %d, calls on closed ones: %d", st.open_fds, st.bad_fd_calls); }
};
static S readbody(std::iostream &b, int mode, bool *bad = 0) {
  S r;
  if (mode == 0) r.assign(std::istreambuf_iterator<char>(b), std::istreambuf_iterator<char>());
  else if (mode == 1) { char c; while (b.get(c)) { r += c; int p = b.peek(); if (p == EOF) break; } }
  else if (mode == 2) { S l; while (std::getline(b, l)) { r += l; if (!b.eof()) r += '\n'; } }
  else { S x(3, 0); for (;;) { b.read(&x[0], 3); r += x.substr(0, b.gcount()); if (!b) break; } }
  if (bad) *bad = b.bad();
  return r;
}
struct Start { const char *line; int ma, mi, code; const char *reason, *method, *target; };
static const Start RESP[] = {{"HTTP/1.1 200 OK", 1, 1, 200, "OK"}, {"http/1.0 404 Not Found", 1, 0, 404, "Not Found"}, {"HTTP/1.1 204 ", 1, 1, 204, ""}, {"HTTP/2.10 599 a: b", 2, 10, 599, "a: b"}, {"HTTP/1.1 302", 1, 1, 302, ""}};
static const Start REQ[] = {{"GET / HTTP/1.1", 1, 1, 0, 0, "GET", "/"}, {"POST /a/b?x=y&z=%20 http/1.0", 1, 0, 0, 0, "POST", "/a/b?x=y&z=%20"}, {"PUT http://u@h:81/p?q#f HTTP/1.1", 1, 1, 0, 0, "PUT", "http://u@h:81/p?q#f"}, {"X-y  /  HTTP/1.1", 1, 1, 0, 0, "X-y", "/"}, {"OPTIONS /?%41 HTTP/0.9", 0, 9, 0, 0, "OPTIONS", "/?%41"}};
static const char *const HL[][3] = {{"A: b", "A", "b"}, {"a-B:c", "a-B", "c"}, {"X-y:  y  z", "X-y", "y z"}, {"E:", "E", ""}, {"F: v@ w@\t u", "F", "v w u"}, {"C \t : \t\xc3\xa9:x", "C", "\xc3\xa9:x"}, {"G:@ late", "G", "late"}, {"Content-Typ: :", "Content-Typ", ":"}};
static const int NHL = 8;
static S eolize(const S &s, const S &eol) { S r; for (char c : s) if (c == '@') r += eol; else r += c; return r; }
static void cmp_head(http::header &h, const HV &want, const S &raw) {
  // keys that the library itself looked up may have been added with an empty value
  HV have; for (auto it = h.begin(); it != h.end(); ++it) have.push_back(*it);
  HV a, b; for (auto &x : have) { bool known = false; for (auto &w : want) if (low(w.first) == low(x.first)) known = true; if (known || !x.second.empty()) a.push_back({x.first, norm(x.second)}); }
  b = want; S t; for (auto &x : a) t += x.first + "=[" + x.second + "] ";
  MC_REQUIRE(a == b, "header parsed as %s from %s", show(t).c_str(), show(raw).c_str());
  for (auto &x : have) MC_REQUIRE(x.second.empty() || (!isspace((unsigned char)x.second[0]) && !isspace((unsigned char)x.second.back())), "the value of %s keeps the white space around it: [%s]", x.first.c_str(), show(x.second).c_str());
  for (auto &w : want) { S k = w.first; for (auto &c : k) if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; MC_REQUIRE(h.has_key(k) && norm(h.get(k)) == w.second, "header field %s is not found under another case", w.first.c_str()); }
}
static S hex(size_t n, int style) { char b[40]; snprintf(b, sizeof b, style == 1 ? "%zX" : style == 2 ? "000%zx" : "%zx", n); return b; }
static S chunks(const S &body, unsigned cuts, int style, const S &ext, const S &trailer, const S &eol) {
  S r; size_t st = 0;
  for (size_t i = 0; i <= body.size(); i++)
    if (i == body.size() || (i > 0 && i < 32 && (cuts >> (i - 1) & 1))) { if (i > st) { r += hex(i - st, style) + ext + eol + body.substr(st, i - st) + eol; st = i; } }
  return r + hex(0, style == 2 ? 2 : 0) + ext + eol + eolize(trailer, eol) + eol;
}
// frame: 0 until close, 1 length, 2 chunked, 3 no body and no close (request only)
struct Msg { S raw, body; HV head; bool close; };
static Msg mk(const Start &st, const std::vector<int> &hs, const S &eol, int frame, const S &body, const S &chunk_raw, int fpos, int fstyle) {
  Msg m; m.raw = st.line + eol; m.body = body; m.close = frame == 0;
  for (size_t i = 0; i <= hs.size(); i++) {
    if (frame >= 1 && frame <= 2 && (int)i == std::min(fpos, (int)hs.size())) {
      static const char *LN[] = {"Content-Length: ", "content-LENGTH:", "CONTENT-LENGTH :  ", "Content-Length:@ ", "Content-length: "}, *TN[] = {"Transfer-Encoding: chunked", "TRANSFER-encoding:Chunked", "transfer-encoding: CHUNKED", "Transfer-Encoding:@\tchunked", "Transfer-Encoding: chunked \t"};
      if (frame == 1) { S l = LN[fstyle]; S v = std::to_string(body.size()); m.raw += eolize(l, eol) + v + (fstyle == 4 ? " \t" : "") + eol; S k = l.substr(0, l.find(':')); k = norm(k); m.head.push_back({k, v}); }
      else { S l = TN[fstyle]; m.raw += eolize(l, eol) + eol; size_t c = l.find(':'); S v; for (char x : l.substr(c + 1)) if (x != '@') v += x; m.head.push_back({l.substr(0, c), norm(v)}); }
    }
    if (i < hs.size()) { m.raw += eolize(HL[hs[i]][0], eol) + eol; m.head.push_back({HL[hs[i]][1], HL[hs[i]][2]}); }
  }
  m.raw += eol + (frame == 2 ? chunk_raw : frame == 3 ? S() : body);
  return m;
}
static const char *NEXT_RESP = "HTTP/1.1 299 next one\r\nN: 1\r\nContent-Length: 2\r\n\r\nzz";
static const char *NEXT_REQ = "NEXT /next HTTP/1.1\r\nN: 1\r\nContent-Length: 2\r\n\r\nzz";
static void parse(bool resp, const Start &st, const Msg &m, int mode, int fl) {
  Conn c;
  mc::net_send(c.pfd, m.raw);
  if (m.close) c.peer_close(); else mc::net_send(c.pfd, resp ? NEXT_RESP : NEXT_REQ);
  faults(fl);
  if (resp) {
    http::response r(c.s);
    MC_REQUIRE(r.version() == std::make_pair(st.ma, st.mi) && r.code() == st.code && norm(r.reason()) == st.reason, "status line parsed as %d.%d %d [%s] from %s", r.version().first, r.version().second, r.code(), r.reason().c_str(), show(m.raw).c_str());
    cmp_head(r.head(), m.head, m.raw);
    bool bad; S b = readbody(r.body(), mode, &bad);
    MC_REQUIRE(b == m.body && !bad, "body read as [%s], expected [%s] (%d) from %s", show(b).c_str(), show(m.body).c_str(), mode, show(m.raw).c_str());
    if (!m.close) { http::response n(c.s); S nb = readbody(n.body(), 0); MC_REQUIRE(n.code() == 299 && n.head()["N"] == "1" && nb == "zz", "the message after the body is not found: code %d body [%s] after %s", n.code(), show(nb).c_str(), show(m.raw).c_str()); }
  } else {
    http::request r(c.s);
    MC_REQUIRE(r.version() == std::make_pair(st.ma, st.mi) && r.method() == st.method && pfi::lang::lexical_cast<S>(r.path()) == st.target, "request line parsed as %s [%s] %d.%d from %s", r.method().c_str(), pfi::lang::lexical_cast<S>(r.path()).c_str(), r.version().first, r.version().second, show(m.raw).c_str());
    cmp_head(r.head(), m.head, m.raw);
    if (mode >= 0) { bool bad; S b = readbody(r.body(), mode, &bad); MC_REQUIRE(b == m.body && !bad, "body read as [%s], expected [%s] (%d) from %s", show(b).c_str(), show(m.body).c_str(), mode, show(m.raw).c_str()); }
    if (!m.close) { http::request n(c.s); S nb = readbody(n.body(), 0); MC_REQUIRE(n.method() == "NEXT" && n.head()["N"] == "1" && nb == "zz", "the request after the body is not found: %s body [%s] after %s", n.method().c_str(), show(nb).c_str(), show(m.raw).c_str()); }
  }
  faults(NONE);
  c.done();
}
static const std::vector<S> BODIES = {"", "a", "\xff", "\r\n", "0\r\n\r\n", S("\0b", 2), "\n\xff\r\n\xff", "HTTP/1.1 200"};
static std::vector<int> pick_heads(int maxn) { std::vector<int> hs; int n = mc::choose(maxn + 1); for (int i = 0; i < n; i++) { int k = mc::choose(NHL - (int)hs.size()); std::vector<int> left; for (int j = 0; j < NHL; j++) { bool used = false; for (int h : hs) used |= h == j; if (!used) left.push_back(j); } hs.push_back(left[k]); } return hs; }
static void truncated(bool resp, const Msg &m) {
  int n = mc::choose((int)m.raw.size());
  Conn c; mc::net_send(c.pfd, m.raw.substr(0, n)); c.peer_close();
  S got; bool threw = false;
  try {
    if (resp) { http::response r(c.s); got = readbody(r.body(), mc::choose(4)); }
    else { http::request r(c.s); got = readbody(r.body(), mc::choose(4)); }
  } catch (std::exception &) { threw = true; }
  MC_REQUIRE(m.body.compare(0, got.size(), got) == 0, "a message cut after %d bytes gave the body [%s]: %s", n, show(got).c_str(), show(m.raw).c_str());
  size_t hl = m.raw.find('\n');
  if (n < 12 && (size_t)n <= hl) MC_REQUIRE(threw, "a message cut inside its first line (%d bytes) was accepted: %s", n, show(m.raw.substr(0, n)).c_str());
  mc::outcome(threw ? "threw" : "body" + std::to_string(got.size()));
  c.done();
}
static void cut_big(bool resp, int frame) {   // a body longer than any buffer, cut
  static const int CUT[] = {0, 1, 100, 4095, 4096, 4097, 8191, 8192, 8193, 9999}; S body = pattern(10000, 3);
  Msg m = mk(resp ? RESP[0] : REQ[0], {0}, "\r\n", frame, body, hex(10000, 0) + "\r\n" + body + "\r\n0\r\n\r\n", 0, 0);
  size_t at = m.raw.find(body.substr(0, 50)); Conn c; mc::net_send(c.pfd, m.raw.substr(0, at + CUT[mc::choose(10)])); c.peer_close();
  S got; int mode = mc::choose(4);
  try { if (resp) { http::response r(c.s); got = readbody(r.body(), mode); } else { http::request r(c.s); got = readbody(r.body(), mode); } } catch (std::exception &) {}
  MC_REQUIRE(body.compare(0, got.size(), got) == 0, "a long body that was cut gave %zu bytes that are not its beginning", got.size());
  c.done();
}
static void huge_length(bool resp) {   // lengths beyond 32 bits: the beginning of the body can be read while the rest is still to come
  static const char *L[] = {"2147483647", "2147483648", "4294967296", "4294967298", "9223372036854775807"};
  Conn c; mc::net_send(c.pfd, S(resp ? "HTTP/1.1 200 OK" : "PUT /x HTTP/1.1") + "\r\nContent-Length: " + L[mc::choose(5)] + "\r\n\r\nabcdef");
  S x(6, 0); auto rd = [&](std::iostream &b) { b.read(&x[0], 6); MC_REQUIRE(b.gcount() == 6 && x == "abcdef", "the beginning of a very long body was read as [%s] (%d)", show(x).c_str(), (int)b.gcount()); };
  if (resp) { http::response r(c.s); rd(r.body()); } else { http::request r(c.s); rd(r.body()); }
  c.done();
}
static void long_lines(bool resp) {   // lines up to 4 KB
  static const int L[] = {1000, 1023, 1024, 1025, 2048, 4000}; int n = L[mc::choose(6)], where = mc::choose(3); S v = S(n, 'v'), t = where == 0 ? "/" + v : "/", k = where == 1 ? S(n, 'k') : "K"; if (where != 2) v = "x";
  S raw = (resp ? S("HTTP/1.1 200 OK") : "GET " + t + " HTTP/1.1") + "\r\n" + k + ": " + v + "\r\nContent-Length: 2\r\n\r\nab"; Conn c; mc::net_send(c.pfd, raw);
  if (resp) { http::response r(c.s); S b = readbody(r.body(), 0); cmp_head(r.head(), {{k, v}, {"Content-Length", "2"}}, raw); MC_REQUIRE(b == "ab", "body [%s]", show(b).c_str()); }
  else { http::request r(c.s); S b = readbody(r.body(), 0); cmp_head(r.head(), {{k, v}, {"Content-Length", "2"}}, raw); MC_REQUIRE(b == "ab" && pfi::lang::lexical_cast<S>(r.path()) == t, "body [%s]", show(b).c_str()); }
  c.done();
}
static void malformed_start(bool resp, const S &line) {
  Conn c; mc::net_send(c.pfd, line + "\r\nA: b\r\nContent-Length: 0\r\n\r\n"); c.peer_close();
  bool threw = false; S what;
  try { if (resp) { http::response r(c.s); what = std::to_string(r.code()); } else { http::request r(c.s); what = r.method(); } } catch (std::exception &) { threw = true; }
  MC_REQUIRE(threw, "the malformed first line [%s] was accepted (%s)", show(line).c_str(), show(what).c_str());
  c.done();
}
static void malformed_chunk(const S &raw, const S &prefix_of, bool must_report) {
  Conn c; mc::net_send(c.pfd, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + raw); c.peer_close();
  bool bad = false; S got; int mode = mc::choose(4); bool threw = false;
  { http::response r(c.s); try { got = readbody(r.body(), mode, &bad); } catch (std::exception &) { threw = true; } }
  MC_REQUIRE(prefix_of.compare(0, got.size(), got) == 0, "the malformed chunked body [%s] was read as [%s]", show(raw).c_str(), show(got).c_str());
  if (must_report && mode != 0) MC_REQUIRE(bad || threw, "the malformed chunked body [%s] was accepted", show(raw).c_str());
  c.done();
}
// reference parser of sent messages
static bool refparse(const S &raw, S &line, HV &h, S &rest) {
  size_t p = raw.find("\r\n"); if (p == S::npos) return false; line = raw.substr(0, p); p += 2;
  for (;;) { size_t q = raw.find("\r\n", p); if (q == S::npos) return false; if (q == p) { rest = raw.substr(q + 2); return true; } S l = raw.substr(p, q - p); size_t k = l.find(':'); if (k == S::npos) return false; h.push_back({l.substr(0, k), norm(l.substr(k + 1))}); p = q + 2; }
}
static void sending(bool resp, int fl, int which, const S &body, const std::vector<int> &hs, int cl) {
  Conn c; faults(fl);
  S *got = new S; int pfd = c.pfd;
  mc::go([=]() { S r; while (!(r = mc::net_recv(pfd, 1)).empty()) { *got += r; S more = mc::net_peek(pfd); if (!more.empty()) *got += mc::net_recv(pfd, more.size()); } });
  bool threw = false; S line; HV want;
  static const char *M[] = {"GET", "POST", "DELETE", "x"}, *U[] = {"/", "http://example.com:8080/a/b?c=d#e", "/x?y=%2F", "*"}; static const int CODE[] = {200, 404, 500, 101}; static const char *RS[] = {"OK", "Not Found", "", "a b  c"};
  auto fill = [&](http::header &h, std::iostream &b) {
    for (int i : hs) { h[HL[i][1]] = HL[i][2]; want.push_back({HL[i][1], HL[i][2]}); }
    if (cl == 1) { h["content-length"] = std::to_string(body.size()); want.push_back({"content-length", std::to_string(body.size())}); }
    else if (body.size()) want.push_back({"Content-Length", std::to_string(body.size())});
    b << body;
  };
  if (resp) { http::response r(CODE[which], RS[which], 1, which % 2); line = S("HTTP/1.") + (which % 2 ? "1" : "0") + " " + std::to_string(CODE[which]) + " " + RS[which]; fill(r.head(), r.body()); try { r.send(c.s); } catch (http::http_exception &) { threw = true; } }
  else { http::request r(M[which], uri(U[which]), 1, 1 - which % 2); line = S(M[which]) + " " + U[which] + (which % 2 ? " HTTP/1.0" : " HTTP/1.1"); fill(r.head(), r.body()); try { r.send(c.s); } catch (http::http_exception &) { threw = true; } }
  if (!threw && !fl) {   // the message is out although the connection stays open
    size_t n = line.size() + 4 + body.size(); mc::wait_until([=]() { return got->size() >= n; }, "the sent message to arrive");
  }
  S whole = line;
  c.s.reset(); mc::join_all(); faults(NONE);
  if (!(fl & RESET)) MC_REQUIRE(!threw, "sending failed without a fault");
  S l, rest; HV h; bool ok = refparse(*got, l, h, rest);
  if (!threw) {
    MC_REQUIRE(ok || (fl & RESET), "what was sent is not a message: %s", show(*got).c_str());
    if (ok) {
      MC_REQUIRE(l == line, "first line sent as [%s], expected [%s]", l.c_str(), line.c_str());
      std::sort(h.begin(), h.end()); HV w = want; std::sort(w.begin(), w.end());
      MC_REQUIRE(h == w, "header fields were not sent as set: %s", show(*got).c_str());
      MC_REQUIRE(rest == body, "the body was sent as [%s] instead of [%s]", show(rest).c_str(), show(body).c_str());
    }
  }
  mc::outcome(threw ? "threw" : "sent");
  if (!fl && ok) {   // and the library reads it back
    SP s2(new stream_socket()); MC_REQUIRE(s2->connect("localhost", PORT), "connect"); int p2 = mc::net_accept(c.lfd); mc::net_send(p2, *got);
    if (body.empty() && cl != 1) mc::net_close(p2);
    if (resp) { http::response r(s2); S b = readbody(r.body(), 0); MC_REQUIRE(r.code() == CODE[which] && norm(r.reason()) == norm(RS[which]) && b == body, "a sent response was read back differently: %s", show(*got).c_str()); cmp_head(r.head(), want, *got); }
    else { http::request r(s2); S b = readbody(r.body(), 0); MC_REQUIRE(r.method() == M[which] && pfi::lang::lexical_cast<S>(r.path()) == U[which] && b == body, "a sent request was read back differently: %s", show(*got).c_str()); cmp_head(r.head(), want, *got); }
    s2.reset(); if (!(body.empty() && cl != 1)) mc::net_close(p2);
  }
  delete got; c.done();
}
// header as an associative list with case-insensitive keys
static void header_api(int nops) {
  static const char *K[] = {"A", "a", "Ab", "aB", "", "^", "~"}; http::header h; HV m; S tr;
  auto find = [&](const S &k) { for (size_t i = 0; i < m.size(); i++) if (low(m[i].first) == low(k)) return (int)i; return -1; };
  for (int i = 0; i < nops; i++) {
    int o = mc::choose(4); S k = K[mc::choose(7)]; int f = find(k); S v = std::to_string(i);
    tr += std::to_string(o) + k + " ";
    if (o == 0) { h.set(k, v); if (f < 0) m.push_back({k, v}); else m[f].second = v; }
    else if (o == 1) { h.erase(k); if (f >= 0) m.erase(m.begin() + f); }
    else if (o == 2) { const http::header &ch = h; MC_REQUIRE(ch[k] == (f < 0 ? S() : m[f].second), "const [] differs after %s", tr.c_str()); MC_REQUIRE(h.has_key(k) == (f >= 0), "has_key differs after %s", tr.c_str()); }
    else { h[k] += v; if (f < 0) m.push_back({k, v}); else m[f].second += v; MC_REQUIRE(h.get(k) == m[find(k)].second, "get differs after %s", tr.c_str()); }
    HV have; for (auto it = h.begin(); it != h.end(); ++it) have.push_back(*it);
    MC_REQUIRE(have == m, "the fields differ after %s", tr.c_str());
  }
}
static void stream_client(int fl) {
  static const char *URL[] = {"http://localhost:7000/a?b", "http://us:pw@localhost:7000/", "//localhost:7000/x"};
  static const char *B[] = {"hello\xff\n", "", "0123456789"};
  int u = mc::choose(3), b = mc::choose(3), frame = mc::choose(3); S body = B[b];
  mc::quiet(true); stream_socket::set_dns_resolver(pfi::lang::shared_ptr<dns_resolver>(new normal_dns_resolver())); mc::quiet(false);
  int lfd = mc::net_listen(PORT); S *rq = new S; bool *done = new bool(false);
  Msg m = mk(RESP[0], {0}, "\r\n", frame, body, chunks(body, 5, 0, "", "", "\r\n"), 1, 0);
  mc::go([=]() { int p = mc::net_accept(lfd); while (rq->find("\r\n\r\n") == S::npos) { S r = mc::net_recv(p, 1); if (r.empty()) break; *rq += r; } mc::net_send(p, m.raw); if (m.close) mc::net_close(p); else { mc::wait_until([=]() { return *done; }, "client done"); mc::net_close(p); } });
  faults(fl);
  { http::httpstream hs(URL[u]); S got((std::istreambuf_iterator<char>(hs)), std::istreambuf_iterator<char>());
    MC_REQUIRE(got == body && hs.head()["A"] == "b", "httpstream read [%s] instead of [%s]", show(got).c_str(), show(body).c_str()); }
  faults(NONE); *done = true;
  mc::join_all();
  S l, rest; HV h; MC_REQUIRE(refparse(*rq, l, h, rest), "bad request sent: %s", show(*rq).c_str());
  MC_REQUIRE(l == S("GET ") + URL[u] + " HTTP/1.1", "requested [%s]", l.c_str());
  std::map<S, S> hm; for (auto &x : h) hm[low(x.first)] = x.second;
  MC_REQUIRE(hm.count("host") && hm["host"].compare(0, 9, "localhost") == 0, "no Host in the request");
  MC_REQUIRE((u == 1) == hm.count("authorization") && (u != 1 || hm["authorization"] == "Basic dXM6cHc="), "authorization sent as [%s]", hm["authorization"].c_str());
  mc::net_close(lfd); delete rq; delete done;
  auto st = mc::net_stat(); MC_REQUIRE(st.open_fds == 0 && st.bad_fd_calls == 0, "descriptor leak");
}
// fields of the same name: none is lost, whether they are kept apart or joined to one list
static void repeated(int src, int maxn) {
  static const char *const L[][2] = {{"Set-Cookie: a=1; path=/", "a=1; path=/"}, {"set-cookie:b", "b"}, {"SET-COOKIE: c@ d", "c d"}, {"Other: o", "o"}, {"other:p, q", "p, q"}};
  S eol = mc::choose(2) ? "\r\n" : "\n", raw; int n = 1 + mc::choose(maxn); std::map<S, S> want; std::map<S, S> first;
  for (int i = 0; i < n; i++) { int k = mc::choose(5); raw += eolize(L[k][0], eol) + eol; S nm = k < 3 ? "set-cookie" : "other"; if (want.count(nm)) want[nm] += ", "; else first[nm] = L[k][1]; want[nm] += L[k][1]; }
  raw += eol;
  auto look = [&](http::header &h) {
    std::map<S, S> have; for (auto it = h.begin(); it != h.end(); ++it) { S nm = low(it->first); if (nm == "content-length" || nm == "transfer-encoding") continue; if (have.count(nm)) have[nm] += ", "; have[nm] += norm(it->second); }
    MC_REQUIRE(have == want, "header fields of one name: set-cookie [%s] other [%s] from %s", show(have["set-cookie"]).c_str(), show(have["other"]).c_str(), show(raw).c_str());
    for (auto &w : want) { S g = norm(h.get(w.first)); MC_REQUIRE(g == w.second || g == first[w.first], "the field %s is [%s] in %s", w.first.c_str(), show(g).c_str(), show(raw).c_str()); }
  };
  if (src == 0) { std::istringstream is(raw); http::header h(is); look(h); return; }
  Conn c; mc::net_send(c.pfd, (src == 1 ? "GET / HTTP/1.1" : "HTTP/1.1 200 OK") + eol + raw); c.peer_close();
  if (src == 1) { http::request r(c.s); look(r.head()); } else { http::response r(c.s); look(r.head()); }
  c.done();
}
// lines around and beyond any limit: read exactly or refused, never cut in two
static void long_line(bool resp) {
  static const int base[] = {4096, 8192, 1024, 65536}; int b = base[mc::choose(4)], n = b - 5 + mc::choose(9), where = mc::choose(resp ? 5 : 4), e = mc::choose(2); S eol = e ? "\n" : "\r\n";
  auto pad = [&](const S &pre, const S &post) { S r = pre; while ((int)(r.size() + post.size()) < n) r += (r.size() % 7 == 3 ? 'q' : 'z'); return r + post; };
  S first = resp ? "HTTP/1.1 200 OK" : "POST /p HTTP/1.1", hd = "A: b" + eol, te = "Transfer-Encoding: chunked" + eol, body = "abc", chunk = "3" + eol + "abc" + eol + "0" + eol + eol, val = "b", u = "/p", reason = "OK";
  if (where == 0) { hd = pad("A: ", "") + eol; val = hd.substr(3, hd.size() - 3 - eol.size()); }
  else if (where == 1) { chunk = pad("3;x=", "") + eol + "abc" + eol + "0" + eol + eol; }
  else if (where == 2) { chunk = "3" + eol + "abc" + eol + "0" + eol + pad("T: ", "") + eol + eol; }
  else if (where == 3) { if (resp) { first = pad("HTTP/1.1 200 ", ""); reason = first.substr(13); } else { first = pad("POST /", " HTTP/1.1"); u = first.substr(5, first.size() - 14); } }
  else { hd = "A: " + eol + pad(" ", "") + eol; val = hd.substr(4 + eol.size(), hd.size() - 4 - 2 * eol.size()); }
  Conn c; S raw = first + eol + hd + te + eol + chunk; mc::net_send(c.pfd, raw + (resp ? NEXT_RESP : NEXT_REQ)); c.peer_close();
  S got; bool refused = false, bad = false, more = false;
  try {
    if (resp) { http::response r(c.s); MC_REQUIRE(r.code() == 200 && r.reason() == reason, "status line of %d bytes", n); MC_REQUIRE(r.head()["A"] == val && r.head().has_key("transfer-encoding"), "a header line of %d bytes gives a value of %zu bytes", n, r.head()["A"].size()); int k = 0; for (auto it = r.head().begin(); it != r.head().end(); ++it) k += !it->second.empty(); MC_REQUIRE(k == 2, "%d header fields from a line of %d bytes", k, n); got = readbody(r.body(), 3, &bad); if (!bad) { http::response x(c.s); more = x.code() == 299; } }
    else { http::request r(c.s); MC_REQUIRE(r.path().path() == u, "request line of %d bytes", n); MC_REQUIRE(r.head()["A"] == val && r.head().has_key("transfer-encoding"), "a header line of %d bytes gives a value of %zu bytes", n, r.head()["A"].size()); int k = 0; for (auto it = r.head().begin(); it != r.head().end(); ++it) k += !it->second.empty(); MC_REQUIRE(k == 2, "%d header fields from a line of %d bytes", k, n); got = readbody(r.body(), 3, &bad); if (!bad) { http::request x(c.s); more = x.method() == "NEXT"; } }
  } catch (http::http_exception &) { refused = true; }
  if (!refused && !bad) MC_REQUIRE(got == body && more, "a line of %d bytes (%d): body [%s]%s", n, where, show(got).c_str(), more ? "" : ", and what follows is not found");
  else MC_REQUIRE(body.compare(0, got.size(), got) == 0 && n > 1100, "a line of %d bytes was refused", n);
  c.done();
}
static void header_stream(int maxn) {   // header(istream&)
  S eol = mc::choose(2) ? "\r\n" : "\n"; auto hs = pick_heads(maxn); int end = mc::choose(3); S raw; HV want;
  for (size_t i = 0; i < hs.size(); i++) { raw += eolize(HL[hs[i]][0], eol); want.push_back({HL[hs[i]][1], HL[hs[i]][2]}); if (i + 1 < hs.size() || end != 2) raw += eol; }
  if (end == 0) raw += eol + "rest";
  if (hs.empty() && end) return;
  std::istringstream is(raw); http::header h(is);
  cmp_head(h, want, raw);
  if (end == 0) { S r; is >> r; MC_REQUIRE(r == "rest", "the header took more than its lines: %s", show(raw).c_str()); }
}
static void reg() {
  { stream_socket warm; }
  for (int resp = 0; resp < 2; resp++) mc::add(S("long_line.") + (resp ? "response" : "request"), O(0), O(0), [=]() { long_line(resp); });
  for (int src = 0; src < 3; src++) { mc::add("repeated." + std::to_string(src), O(0), O(0), [=]() { repeated(src, 3); }); mc::add("repeated4." + std::to_string(src), O(0), O(0), [=]() { repeated(src, 4); }, true); }
  for (int resp = 0; resp < 2; resp++) {
    S n = resp ? "response" : "request"; const Start *ST = resp ? RESP : REQ;
    for (int s = 0; s < 5; s++)
      for (int e = 0; e < 2; e++) {
        S sf = "." + std::to_string(s) + (e ? ".lf" : ".crlf"); S eol = e ? "\n" : "\r\n"; const Start *st = &ST[s];
        mc::add(n + "_head" + sf, O(0), O(0), [=]() { auto hs = pick_heads(2); int frame = resp ? mc::choose(2) : (mc::choose(2) ? 3 : 1); S body = frame == 3 ? "" : BODIES[mc::choose(2) * 3]; Msg m = mk(*st, hs, eol, frame, body, "", mc::choose(3), mc::choose(3)); parse(resp, *st, m, frame == 3 ? -1 : 0, NONE); });
        mc::add(n + "_head3" + sf, O(0), O(0), [=]() { auto hs = pick_heads(3); Msg m = mk(*st, hs, eol, 1, "x", "", mc::choose(4), 0); parse(resp, *st, m, 0, NONE); }, s != 0);
      }
    for (int b = 0; b < (int)BODIES.size(); b++)
      for (int e = 0; e < 2; e++) {
        S sf = ".b" + std::to_string(b) + (e ? ".lf" : ".crlf"); S eol = e ? "\n" : "\r\n"; const Start *st = &ST[0]; S body = BODIES[b];
        mc::add(n + "_body" + sf, O(0), O(0), [=]() { int frame = mc::choose(2); Msg m = mk(*st, {0}, eol, frame, body, "", mc::choose(2), mc::choose(5)); parse(resp, *st, m, mc::choose(4), NONE); });
        mc::add(n + "_chunked" + sf, O(0), O(0), [=]() {
          int nc = body.empty() ? 1 : 1 << std::min<size_t>(body.size() - 1, 7); unsigned cuts = mc::choose(nc);
          static const char *EX[] = {"", ";a=b", " ; x=\"q\""}, *TR[] = {"", "T: v@", "T: v@ w@U:@"};
          int style = mc::choose(3), ex = mc::choose(3), tr = mc::choose(3), fst = style ? style : tr ? tr + 2 : 0;
          Msg m = mk(*st, {}, eol, 2, body, chunks(body, cuts, style, EX[ex], TR[tr], eol), 0, fst); parse(resp, *st, m, mc::choose(4), NONE); });
      }
    for (int f = 0; f < 3; f++) {
      static const char *FN[] = {"close", "length", "chunked"}; const Start *st = &ST[1]; S body = "ab\r\n\xff\n0\r\n";
      Msg m = mk(*st, {0, 4}, "\r\n", f, body, chunks(body, 0x24, 0, ";e", "T: v@", "\r\n"), 1, 0);
      mc::add(n + "_short." + FN[f], O(0, 0, 0, false, 2), O(0, 0, 0, false, 3), [=]() { parse(resp, *st, m, 0, SHORT); });
      mc::add(n + "_intr." + FN[f], O(0, 0, 0, false, 2), O(0, 0, 0, false, 3), [=]() { parse(resp, *st, m, 1, SHORT | INTR); });
      mc::add(n + "_cut." + FN[f], O(0), O(0), [=]() { truncated(resp, m); });
      Msg m2 = mk(*st, {}, "\n", f, body, chunks(body, 0xff, 2, "", "", "\n"), 0, 1);
      mc::add(n + "_cut_lf." + FN[f], O(0), O(0), [=]() { truncated(resp, m2); });
    }
    for (int f = 0; f < 3; f++) mc::add(n + "_cut_big." + std::to_string(f), O(0), O(0), [=]() { cut_big(resp, f); });
    mc::add(n + "_long_lines", O(0), O(0), [=]() { long_lines(resp); });
    mc::add(n + "_huge", O(0), O(0), [=]() { huge_length(resp); });
    for (int sz : {4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000})
      mc::add(n + "_big." + std::to_string(sz), O(0, 0, 0, false, 1), O(0, 0, 0, false, 3), [=]() {
        int frame = mc::choose(3); S body = pattern(sz, 7), ch; 
        if (frame == 2) { int k = mc::choose(3); size_t a = k == 0 ? sz : k == 1 ? 1 : 4096 < sz ? 4096 : sz - 1; ch = hex(a, 0) + "\r\n" + body.substr(0, a) + "\r\n"; if (a < (size_t)sz) ch += hex(sz - a, 1) + "\r\n" + body.substr(a) + "\r\n"; ch += "0\r\n\r\n"; }
        Msg m = mk(ST[0], {0}, "\r\n", frame, body, ch, 0, 0); parse(resp, ST[0], m, mc::choose(2) * 3, SHORT); });
    for (int w = 0; w < 4; w++) {
      S sf = "." + std::to_string(w);
      mc::add(n + "_send" + sf, O(0), O(1), [=]() { auto hs = pick_heads(2); S body = BODIES[mc::choose(BODIES.size())]; sending(resp, NONE, w, body, hs, mc::choose(2)); });
      mc::add(n + "_send_big" + sf, O(0, 0, 0, false, 1), O(0, 0, 0, false, 3), [=]() { static const int Z[] = {8000, 8192, 8193, 20000}; sending(resp, SHORT | INTR, w, pattern(Z[mc::choose(4)], 5), {0}, 0); });
      mc::add(n + "_send_reset" + sf, O(0, 0, 0, false, 1), O(0, 0, 0, false, 2), [=]() { static const int Z[] = {0, 5, 9000}; sending(resp, RESET | SHORT, w, pattern(Z[mc::choose(3)], 5), {0, 4}, 0); });
    }
  }
  for (const char *l : {"", "GARBAGE", "HTTP/1.1", "HTTP/x.y 200 OK", "HTTP/1.1 abc OK", "200 OK HTTP/1.1", "HTTP/1 200 OK", "FTP/1.1 200 OK"}) { S s = l; mc::add("response_malformed." + s, O(0), O(0), [=]() { malformed_start(true, s); }); }
  for (const char *l : {"", "GET", "GET /", "GET / HTTP", "GET / FTP/1.1", "GET / HTTP/1", "GET HTTP/1.1", "/ HTTP/1.1 GET"}) { S s = l; mc::add("request_malformed." + s, O(0), O(0), [=]() { malformed_start(false, s); }); }
  for (const char *l : {"zz\r\nabc", "\r\n\r\n", "-3\r\nabc\r\n0\r\n\r\n", "100000000\r\nabc", "ffffffffffffffffff\r\nabc", ";x\r\nabc"}) { S s = l; mc::add("chunk_malformed." + show(s), O(0), O(0), [=]() { malformed_chunk(s, "", true); }); }
  for (const char *l : {"3\r\nabcd\r\n0\r\n\r\n", "3\r\nabcX\r\n0\r\n\r\n"}) { S s = l; mc::add("chunk_footer." + show(s), O(0), O(0), [=]() { malformed_chunk(s, "abc", true); }); }
  mc::add("chunk_then_bad", O(0), O(0), []() { malformed_chunk("3\r\nabc\r\nq\r\n", "abc", true); });
  mc::add("header_api", O(0), O(0), []() { header_api(3); });
  mc::add("header_api4", O(0), O(0), []() { header_api(4); }, true);
  mc::add("header_stream", O(0), O(0), []() { header_stream(3); });
  mc::add("httpstream", O(0), O(1), []() { stream_client(NONE); });
  mc::add("httpstream_short", O(0, 0, 0, false, 1), O(0, 0, 0, false, 2), []() { stream_client(SHORT | INTR); });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
