// C11: stream_socket / server_socket / socketstream: a reliable byte stream
#include "conc.h"
#include "../mc/net.h"
#include <network/socket.h>
#include <network/iostream.h>
#include <network/dns.h>
using namespace pfi::network;
typedef std::string S;
static S pattern(size_t n, int seed) { S s(n, 0); unsigned x = seed * 2654435761u + 1; for (size_t i = 0; i < n; i++) { x = x * 1103515245u + 12345u; s[i] = (char)(x >> 16); } return s; }
static S show(const S &s) { S r; for (size_t i = 0; i < s.size() && i < 40; i++) { char b[8]; unsigned char c = s[i]; if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } if (s.size() > 40) r += "...(" + std::to_string(s.size()) + ")"; return r; }
struct Fix { int lfd; };
static void init() {
  mc::quiet(true);
  stream_socket::set_dns_resolver(pfi::lang::shared_ptr<dns_resolver>(new normal_dns_resolver()));
  mc::quiet(false);
}
static const uint16_t PORT = 7000;
enum Faults { NONE = 0, SHORT = 1, INTR = 2, RESET = 4 };
static void faults(int f) { mc::net.short_read = mc::net.short_write = f & SHORT; mc::net.eintr = f & INTR; mc::net.reset = f & RESET; }

// ---- writing -----------------------------------------------------------------------------
static const int WS[] = {1, 0, 3, 8191, 8192, 8193, 12000, 16384, 20000};
static void writing(int first, int nops, int fl, int via, size_t cap) {
  init();
  int lfd = mc::net_listen(PORT);
  stream_socket *s = new stream_socket();
  MC_REQUIRE(s->connect("localhost", PORT), "connect failed");
  int pfd = mc::net_accept(lfd);
  if (cap) mc::net.capacity = cap;
  faults(fl);
  S *sent = new S, *got = new S; bool *bad = new bool(false); S *tr = new S; size_t *upper = new size_t(0);
  mc::go([=]() { S r; while (!(r = mc::net_recv(pfd, 1)).empty()) { *got += r; S more = mc::net_peek(pfd); if (!more.empty()) *got += mc::net_recv(pfd, more.size()); } });
  size_t exact = (size_t)-1;
  for (int i = 0; i < nops && !*bad; i++) {
    int o = i == 0 ? first : mc::choose(11);
    if (o < 9) {
      int n = WS[o]; S d = pattern(n, i + 1);
      if (via == 1) {
        bool ok = s->puts(d); mc::quiet(true); *tr += "puts(" + std::to_string(n) + ")=" + std::to_string(ok) + " "; *upper = sent->size() + n; if (ok) *sent += d; else { *sent += d; *bad = true; } mc::quiet(false);
      } else {
        int r = s->write(d.data(), n);
        mc::quiet(true);
        *tr += "write(" + std::to_string(n) + ")=" + std::to_string(r) + " ";
        MC_REQUIRE(r >= 0 && r <= n, "write(%d) returned %d", n, r);
        if (r < n) { *bad = true; exact = r > 0 ? sent->size() + r : (size_t)-1; }
        *upper = sent->size() + (r < n && r == 0 ? n : r);
        *sent += d;
        mc::quiet(false);
        MC_REQUIRE(r == n || !s->is_connected(), "write was cut short although the connection is up: %s", tr->c_str());
      }
    } else if (o == 9) {
      int r = s->flush(); mc::quiet(true); *tr += "flush=" + std::to_string(r) + " "; mc::quiet(false);
      if (r >= 0) { *bad = true; MC_REQUIRE(!s->is_connected(), "flush failed although the connection is up"); }
      else if (!fl) {
        size_t want = sent->size();
        mc::wait_until([=]() { return got->size() >= want; }, "flushed bytes to arrive");
      }
    } else break;
  }
  if (!*bad && !(fl & RESET)) MC_REQUIRE(s->is_connected(), "connection lost");
  delete s;   // flushes
  mc::join_all();
  mc::quiet(true);
  if (!(fl & RESET)) MC_REQUIRE(!*bad, "a write failed without any fault: %s", tr->c_str());
  if (!(fl & RESET)) MC_REQUIRE(*got == *sent, "the peer received %zu bytes (%s) instead of %zu: %s", got->size(), show(*got).c_str(), sent->size(), tr->c_str());
  else MC_REQUIRE(got->size() <= sent->size() && sent->compare(0, got->size(), *got) == 0, "the peer received bytes that are not a prefix of what was written: %s", tr->c_str());
  if (exact != (size_t)-1) MC_REQUIRE(got->size() == exact, "a short write reported %zu bytes in total but %zu arrived: %s", exact, got->size(), tr->c_str());
  mc::outcome(std::to_string(sent->size() % 97) + (*bad ? "bad" : ""));
  mc::quiet(false);
  mc::net_close(pfd); mc::net_close(lfd);
  auto st = mc::net_stat();
  MC_REQUIRE(st.open_fds == 0 && st.bad_fd_calls == 0, "descriptors left open: %d, calls on closed descriptors: %d", st.open_fds, st.bad_fd_calls);
  delete sent; delete got; delete bad; delete tr; delete upper;
}
// ---- reading -----------------------------------------------------------------------------
struct RModel { S d; size_t p; bool peer_dead;
  S read(size_t n) { S r = d.substr(p, n); p += r.size(); return r; }
  int getc() { return p < d.size() ? (unsigned char)d[p++] : -1; }
  bool getline(S &out, int limit) {
    S ret;
    for (int i = 0; limit < 0 || i < limit; i++) {
      int c = getc();
      if (c == '\n') { if (!ret.empty() && ret.back() == '\r') ret.resize(ret.size() - 1); break; }
      if (c < 0) { if (ret.empty()) return false; break; }
      ret += (char)c;
    }
    out = ret; return true;
  } };
static void reading(const S &data, size_t split, int first, int nops, int fl) {
  init();
  int lfd = mc::net_listen(PORT);
  stream_socket *s = new stream_socket();
  MC_REQUIRE(s->connect("localhost", PORT), "connect failed");
  int pfd = mc::net_accept(lfd);
  faults(fl);
  mc::go([=]() { if (split) mc::net_send(pfd, data.substr(0, split)); if (split < data.size()) mc::net_send(pfd, data.substr(split)); mc::net_close(pfd); });
  RModel m; m.d = data; m.p = 0; S tr; bool ended = false;
  static const int RN[] = {1, 2, 3, 5, 100};
  for (int i = 0; i < nops; i++) {
    int o = i == 0 ? first : mc::choose(10);
    if (o < 5) {
      int n = RN[o]; S b(n, '?');
      int r = s->read(&b[0], n); S want = m.read(n); S have = r >= 0 ? b.substr(0, r) : S();
      tr += "read(" + std::to_string(n) + ") ";
      MC_REQUIRE(have == want && r == (int)want.size(), "%s returned %d bytes [%s], expected [%s]", tr.c_str(), r, show(have).c_str(), show(want).c_str());
      if (r < n) ended = true;
    } else if (o == 5) {
      int c = s->getc(), w = m.getc(); tr += "getc ";
      MC_REQUIRE(c == w, "%s returned %d, expected %d", tr.c_str(), c, w);
      if (c < 0) ended = true;
    } else {
      int lim = o == 6 ? -1 : o == 7 ? 2 : o == 8 ? 4 : 0; S l = "#", w = "#"; bool r = s->getline(l, lim), wr = m.getline(w, lim); tr += "getline(" + std::to_string(lim) + ") ";
      MC_REQUIRE(r == wr && (!r || l == w), "%s returned %d [%s], expected %d [%s]", tr.c_str(), r, show(l).c_str(), wr, show(w).c_str());
      if (!r) ended = true;
    }
    if (ended) MC_REQUIRE(!s->is_connected(), "still connected after the end of the stream: %s", tr.c_str());
  }
  mc::outcome(tr);
  mc::join_all();
  delete s; mc::net_close(lfd);
  auto st = mc::net_stat();
  MC_REQUIRE(st.open_fds == 0 && st.bad_fd_calls == 0, "descriptors left open: %d, calls on closed descriptors: %d", st.open_fds, st.bad_fd_calls);
}
// with resets: what is read is a prefix
static void reading_reset(S data, int first) {
  for (auto &c : data) if (c == '\n') c = 'n';
  init();
  int lfd = mc::net_listen(PORT);
  stream_socket *s = new stream_socket();
  MC_REQUIRE(s->connect("localhost", PORT), "connect failed");
  int pfd = mc::net_accept(lfd);
  faults(RESET | SHORT);
  mc::go([=]() { mc::net_send(pfd, data); mc::net_close(pfd); });
  S got;
  for (int i = 0; i < 3; i++) {
    int o = i == 0 ? first : mc::choose(3);
    if (o == 0) { S b(4, '?'); int r = s->read(&b[0], 4); MC_REQUIRE(r >= 0 && r <= 4, "read returned %d", r); got += b.substr(0, r); if (r < 4) MC_REQUIRE(!s->is_connected(), "still connected after a failed read"); }
    else if (o == 1) { int c = s->getc(); if (c >= 0) got += (char)c; else MC_REQUIRE(!s->is_connected(), "still connected after a failed getc"); }
    else { S l; if (s->getline(l, 3)) got += l; }
  }
  MC_REQUIRE(data.compare(0, got.size(), got) == 0, "read [%s], not a prefix of what was sent", show(got).c_str());
  mc::join_all(); delete s; mc::net_close(lfd);
  MC_REQUIRE(mc::net_stat().open_fds == 0 && mc::net_stat().bad_fd_calls == 0, "descriptor leak or reuse");
}
static void reg() {
  { stream_socket warm; }
  std::vector<S> inputs = {S("a\r\nb\n\n\xff\0c", 9), "\r\n\r\r\n", "no newline at all", "", S("\0\xff\n\r", 4), "ab\r\ncd\r\nef"};
  for (int via = 0; via < 2; via++)
    for (int f = 0; f < 9; f++) {
      S n = via ? "puts" : "write"; S sf = "." + std::to_string(WS[f]);
      mc::add(n + sf, O(0, 1), O(1, 1), [=]() { writing(f, via ? 3 : 4, NONE, via, 0); });
      mc::add(n + "_short" + sf, O(0, 0, 0, false, 2), O(0, 0, 0, false, 4), [=]() { writing(f, 2, SHORT, via, 0); });
      mc::add(n + "_intr" + sf, O(0, 0, 0, false, 2), O(0, 0, 0, false, 3), [=]() { writing(f, 2, INTR | SHORT, via, 0); });
      mc::add(n + "_reset" + sf, O(0, 0, 0, false, via ? 1 : 2), O(0, 0, 0, false, 3), [=]() { writing(f, 2, RESET | SHORT, via, 0); });
      mc::add(n + "_reset3" + sf, O(0, 0, 0, false, 2), O(0, 0, 0, false, 2), [=]() { writing(f, 3, RESET | SHORT, via, 0); }, true);
      if (via == 0) mc::add(n + "_reset1" + sf, O(0, 0, 0, false, 1), O(0, 0, 0, false, 1), [=]() { writing(f, 3, RESET, via, 0); });
      mc::add(n + "_full" + sf, O(0), O(1), [=]() { writing(f, 2, NONE, via, 5000); });
    }
  for (size_t k = 0; k < inputs.size(); k++)
    for (int f = 0; f < 10; f++) {
      S sf = "." + std::to_string(k) + ".op" + std::to_string(f);
      mc::add("read" + sf, O(1), O(2), [=]() { int sp = mc::choose(inputs[k].size() + 1); reading(inputs[k], sp, f, 3, NONE); });
      mc::add("read_short" + sf, O(0, 0, 0, false, 2), O(1, 0, 0, false, 3), [=]() { reading(inputs[k], inputs[k].size() / 2, f, 3, SHORT); });
      mc::add("read_intr" + sf, O(0, 0, 0, false, 2), O(1, 0, 0, false, 3), [=]() { reading(inputs[k], inputs[k].size() / 2, f, 2, INTR | SHORT); });
      if (f < 3) mc::add("read_reset" + sf, O(0, 0, 0, false, 2), O(1, 0, 0, false, 3), [=]() { reading_reset(inputs[k], f); });
    }
  // the peer goes away while we are writing: the failure is reported, the process lives on
  for (int rst = 0; rst < 2; rst++)
    mc::add(rst ? "peer_resets" : "peer_closes", O(2), O(4), [=]() {
      init(); int lfd = mc::net_listen(PORT); stream_socket *s = new stream_socket(); MC_REQUIRE(s->connect("localhost", PORT), "connect");
      int pfd = mc::net_accept(lfd); int take = mc::choose(3), chatty = mc::choose(2); S *got = new S, sent; bool *closed = new bool(false);
      mc::go([=]() { if (chatty) mc::net_send(pfd, "bye"); for (int i = 0; i < take; i++) *got += mc::net_recv(pfd, 3); mc::net_close(pfd, rst); mc::quiet(true); *closed = true; mc::quiet(false); });
      int after = 0; bool bad = false;
      for (int i = 0; i < 6; i++) {
        S d = pattern(3, i + 1); bool was = *closed; int r = s->write(d.data(), 3), f = s->flush(); sent += d;
        if (was) after++;
        if (r != 3 || f >= 0) { bad = true; MC_REQUIRE(!s->is_connected(), "a write failed although the connection is up"); break; }
        if (i >= take) mc::wait_until([=]() { return *closed; }, "the peer to close");
      }
      MC_REQUIRE(bad, "%d writes to a peer that is gone all succeeded", after);
      char c; MC_REQUIRE(s->write("x", 1) <= 1 && (s->flush() >= 0 || !s->is_connected()), "writing after a failure"); (void)c;
      delete s; mc::join_all(); mc::quiet(true); MC_REQUIRE(sent.compare(0, got->size(), *got) == 0, "the peer received something else"); mc::quiet(false); delete got; delete closed; mc::net_close(lfd);
      MC_REQUIRE(mc::net_stat().open_fds == 0 && mc::net_stat().bad_fd_calls == 0, "descriptor leak");
    });
  // large transfers across the read buffer
  for (int n = 8190; n <= 8194; n++)
    mc::add("read_big." + std::to_string(n), O(0, 0, 0, false, 2), O(0, 0, 0, false, 3), [=]() {
      init(); int lfd = mc::net_listen(PORT); stream_socket *s = new stream_socket(); MC_REQUIRE(s->connect("localhost", PORT), "connect");
      int pfd = mc::net_accept(lfd); S d = pattern(n, 3); mc::net_send(pfd, d); mc::net_close(pfd); faults(SHORT);
      int c = s->getc(); S b(n + 5, 0); int r1 = s->read(&b[0], n - 3); int c2 = s->getc(); int r2 = s->read(&b[n], 5);
      MC_REQUIRE(c == (unsigned char)d[0] && r1 == n - 3 && b.compare(0, n - 3, d, 1, n - 3) == 0 && c2 == (unsigned char)d[n - 2] && r2 == 1 && b[n] == d[n - 1], "bytes lost or reordered around the buffer size");
      delete s; mc::net_close(lfd);
    });
  // reconnecting: nothing crosses from one connection to the other
  for (int how = 0; how < 2; how++)
    mc::add(how ? "reconnect.shutdown" : "reconnect.connect", O(1), O(2), [=]() {
      init(); int lfd = mc::net_listen(PORT), lfd2 = mc::net_listen(PORT + 1);
      stream_socket *s = new stream_socket(); MC_REQUIRE(s->connect("localhost", PORT), "connect");
      int p1 = mc::net_accept(lfd);
      mc::net_send(p1, "old1\nold2\n");
      S l; MC_REQUIRE(s->getline(l) && l == "old1", "got %s", l.c_str());
      bool unflushed = mc::choose(2); if (unflushed) s->puts("stale");
      if (how) { MC_REQUIRE(s->shutdown(), "shutdown"); MC_REQUIRE(!s->is_connected(), "connected after shutdown"); }
      MC_REQUIRE(s->connect("localhost", PORT + 1), "second connect");
      int p2 = mc::net_accept(lfd2);
      mc::net_send(p2, "new1\n");
      MC_REQUIRE(s->getline(l) && l == "new1", "read data of the previous connection: %s", l.c_str());
      s->puts("fresh"); s->flush();
      S got = mc::net_recv(p2, 5);
      MC_REQUIRE(got == "fresh", "the new peer received data written for the previous one: %s", got.c_str());
      delete s; mc::net_close(p1); mc::net_close(p2); mc::net_close(lfd); mc::net_close(lfd2);
      MC_REQUIRE(mc::net_stat().open_fds == 0 && mc::net_stat().bad_fd_calls == 0, "descriptor leak");
    });
  // several addresses: the first that accepts is used
  mc::add("addresses", O(0, 1, 0, false, 3), O(1, 1, 0, false, 3), []() {
    init(); int lfd = mc::net_listen(PORT); int n = mc::choose(4);
    mc::net_dns = [n](const std::string &) { std::vector<uint32_t> r; for (int i = 0; i < n; i++) r.push_back(0x01020300 + i); return r; };
    mc::net.connect_fail = true;
    stream_socket *s = new stream_socket(); bool r = s->connect("many", PORT);
    int k = mc::net_stat().refused;
    MC_REQUIRE(r == (k < n), "connect returned %d after %d of %d addresses refused", r, k, n);
    MC_REQUIRE(s->is_connected() == r, "is_connected");
    if (r) { char b[40]; snprintf(b, sizeof b, "1.2.3.%d", k); MC_REQUIRE(s->remote_addr().to_string() == b && s->remote_port() == PORT, "remote address is %s", s->remote_addr().to_string().c_str()); }
    delete s; mc::net_close(lfd);
    MC_REQUIRE(mc::net_stat().open_fds == 0 && mc::net_stat().bad_fd_calls == 0, "descriptor leak");
  });
  mc::add("refused", O(1), O(2), []() {
    init(); stream_socket *s = new stream_socket(); MC_REQUIRE(!s->connect("localhost", 9), "connected to nobody"); MC_REQUIRE(!s->is_connected(), "connected");
    char c; MC_REQUIRE(s->read(&c, 1) <= 0 && s->getc() < 0, "read from nobody"); S l; MC_REQUIRE(!s->getline(l), "line from nobody");
    delete s; MC_REQUIRE(mc::net_stat().open_fds == 0 && mc::net_stat().bad_fd_calls == 0, "descriptor leak");
  });
  // timeouts
  mc::add("timeout", O(1, 1), O(2, 2), []() {
    init(); int lfd = mc::net_listen(PORT); stream_socket *s = new stream_socket(); MC_REQUIRE(s->connect("localhost", PORT), "connect");
    int pfd = mc::net_accept(lfd); static const double tv[] = {0.25, 1, 1.5, 3}; double t = tv[mc::choose(4)]; int how = mc::choose(2);
    MC_REQUIRE(how ? s->set_recv_timeout(t) : s->set_timeout(t), "set_timeout"); MC_REQUIRE(!s->set_timeout(-1), "negative timeout accepted");
    mc::net_send(pfd, "ab"); double t0 = mc::now(); char b[3]; int r = s->read(b, 3);
    MC_REQUIRE(r == 2 && b[0] == 'a' && b[1] == 'b', "read returned %d", r);
    double dt = mc::now() - t0; MC_REQUIRE(dt >= t - 1e-4 && dt <= t + 1e-3, "timeout of %g s fired after %g s", t, dt);
    MC_REQUIRE(!s->is_connected(), "connected after a timeout");
    delete s; mc::net_close(pfd); mc::net_close(lfd);
  });
  mc::add("no_timeout", O(1, 1), O(2, 2), []() {
    init(); int lfd = mc::net_listen(PORT); stream_socket *s = new stream_socket(); MC_REQUIRE(s->connect("localhost", PORT), "connect");
    int pfd = mc::net_accept(lfd); if (mc::choose(2)) MC_REQUIRE(s->set_timeout(1), "set_timeout"); MC_REQUIRE(s->set_timeout(0), "set_timeout(0)"); double t0 = mc::now();
    mc::go([=]() { mc::wait_until([]() { return false; }, "five seconds", 5.0); mc::net_send(pfd, "ab"); }); char b[2]; int r = s->read(b, 2); MC_REQUIRE(r == 2 && mc::now() - t0 > 4.9 && s->is_connected(), "a read without timeout returned %d after %g s", r, mc::now() - t0);
    mc::join_all(); delete s; mc::net_close(pfd); mc::net_close(lfd);
  });
  // server side
  mc::add("server", O(1, 1), O(2, 1), []() {
    init(); server_socket *v = new server_socket(); int eph = mc::choose(2);
    MC_REQUIRE(!v->is_alive() && v->accept() == NULL && !v->close(), "unopened server socket");
    MC_REQUIRE(v->create(eph ? 0 : PORT) && v->is_alive() && (eph ? v->port() != 0 : v->port() == PORT), "create");
    uint16_t port = v->port(); MC_REQUIRE(mc::net_listening(port), "not listening on the reported port %d", port);
    mc::go([=]() { init(); stream_socket c; MC_REQUIRE(c.connect("localhost", port), "connect"); c.puts("hi\n"); c.flush(); S l; MC_REQUIRE(c.getline(l) && l == "HI", "reply"); MC_REQUIRE(!c.getline(l), "data after the end"); });
    stream_socket *s = v->accept(); MC_REQUIRE(s && s->is_connected() && s->remote_addr().to_string() == "127.0.0.1" && s->remote_port() >= 40000, "accept");
    S l; MC_REQUIRE(s->getline(l) && l == "hi", "request"); s->puts("HI\r\n"); delete s;
    mc::join_all();
    MC_REQUIRE(v->set_timeout(0.5) && v->timeout() == 0.5, "set_timeout"); double t0 = mc::now(); MC_REQUIRE(v->accept() == NULL && mc::now() - t0 >= 0.49 && mc::now() - t0 < 0.6, "accept timeout");
    MC_REQUIRE(v->close() && !v->is_alive() && !mc::net_listening(port) && v->accept() == NULL && !v->close(), "close");
    delete v; MC_REQUIRE(mc::net_stat().open_fds == 0 && mc::net_stat().bad_fd_calls == 0, "descriptor leak");
  });
  mc::add("server_fault", O(0, 0, 0, false, 2), O(0, 0, 0, false, 3), []() {
    init(); mc::net.opt_fail = true; mc::net.socket_fail = true; server_socket *v = new server_socket();
    bool r = v->create(mc::choose(2) ? 0 : PORT); MC_REQUIRE(v->is_alive() == r, "is_alive");
    if (!r) MC_REQUIRE(v->accept() == NULL && !v->close(), "failed server socket"); else MC_REQUIRE(mc::net_listening(v->port()), "not listening");
    delete v; MC_REQUIRE(mc::net_stat().open_fds == 0 && mc::net_stat().bad_fd_calls == 0 && mc::net_stat().listeners == 0, "descriptors leaked after a failed create: %d", mc::net_stat().open_fds);
    mc::outcome(r ? "up" : "down");
  });
  mc::add("open_fault", O(0, 0, 0, false, 2), O(0, 0, 0, false, 3), []() {
    init(); int lfd = mc::net_listen(PORT); mc::net.socket_fail = true; stream_socket *s = new stream_socket(); int n = mc::net_stat().open_fds;
    bool r = s->connect("localhost", PORT); MC_REQUIRE(r == (n == 2) && s->is_connected() == r, "connect %d with descriptor %d", r, n - 1);
    delete s; mc::net_close(lfd); MC_REQUIRE(mc::net_stat().open_fds == 0 && mc::net_stat().bad_fd_calls == 0, "descriptor leak");
  });
  // iostream on top
  for (int fl = 0; fl < 3; fl++)
    mc::add("iostream" + std::to_string(fl), O(fl ? 0 : 1, 1, 0, false, fl ? 2 : 0), O(1, 1, 0, false, fl ? 3 : 0), [=]() {
      init(); int lfd = mc::net_listen(PORT);
      mc::go([=]() { int p = mc::net_accept(lfd); S r = mc::net_recv(p, 7); MC_REQUIRE(r == S("12 x\n\xff\0", 7), "the peer received %s", show(r).c_str()); mc::net_send(p, S("34 word\nline two\n\xff\0z", 20)); mc::net_close(p); });
      if (fl) faults(fl == 1 ? SHORT : INTR | SHORT);
      socketstream *ss = new socketstream("localhost", PORT);
      MC_REQUIRE(*ss && ss->is_connected(), "connect");
      *ss << 12 << " x\n" << '\xff'; ss->put('\0'); ss->flush(); MC_REQUIRE(*ss, "write");
      int n = 0; S w, l; *ss >> n >> w; std::getline(*ss, l); MC_REQUIRE(*ss && n == 34 && w == "word" && l == "", "read %d [%s] [%s]", n, show(w).c_str(), show(l).c_str());
      int pk = ss->peek(); std::getline(*ss, l); MC_REQUIRE(pk == 'l' && l == "line two", "line [%s]", show(l).c_str());
      int a = ss->get(), b = ss->get(); char c[3] = {0, 0, 0}; ss->read(c, 2);
      MC_REQUIRE(a == 0xff && b == 0 && c[0] == 'z' && ss->gcount() == 1 && ss->eof(), "tail %d %d %d", a, b, c[0]);
      delete ss; mc::join_all(); mc::net_close(lfd);
    });
  // a stream whose connection breaks says so: while it is good after a flush, everything written has been sent
  for (int f = 0; f < 5; f++)
    mc::add("iostream_reset." + std::to_string(f), O(0, 0, 0, false, 1), O(0, 0, 0, false, 3), [=]() {
      static const int N[] = {1, 100, 8191, 8192, 20000};
      init(); int lfd = mc::net_listen(PORT); S *got = new S; mc::go([=]() { int p = mc::net_accept(lfd); S r; while (!(r = mc::net_recv(p, 1)).empty()) { *got += r; S more = mc::net_peek(p); if (!more.empty()) *got += mc::net_recv(p, more.size()); } mc::net_close(p); });
      socketstream *ss = new socketstream("localhost", PORT); MC_REQUIRE(*ss, "connect"); faults(RESET | SHORT); S sent; int how = mc::choose(3);
      for (int i = 0; i < 2; i++) {
        S d = pattern(N[i ? mc::choose(5) : f], i + 1); sent += d; if (how == 2) for (char c : d) ss->put(c); else ss->write(d.data(), d.size());
        if (!*ss) { MC_REQUIRE(!ss->is_connected(), "the stream failed although the connection is up"); break; }
        if (how != 1) { ss->flush(); MC_REQUIRE((bool)*ss == ss->is_connected(), "after a flush the stream is %s and the connection %s", *ss ? "good" : "bad", ss->is_connected() ? "up" : "lost"); if (!*ss) break; size_t n = sent.size(); mc::wait_until([=]() { return got->size() >= n; }, "everything written to arrive"); }
        else if (d.size() > 8192) MC_REQUIRE((bool)*ss == ss->is_connected(), "after writing more than is buffered the stream is %s and the connection %s", *ss ? "good" : "bad", ss->is_connected() ? "up" : "lost");
      }
      delete ss; mc::join_all(); MC_REQUIRE(sent.compare(0, got->size(), *got) == 0, "the peer received something else than what was written"); delete got; mc::net_close(lfd);
    });
  // a stream used for one connection after another: nothing looked at or left unread in one appears in the next
  for (int look = 0; look < 4; look++) for (int how = 0; how < 3; how++)
    mc::add("iostream_again." + std::to_string(look) + "." + std::to_string(how), O(0), O(1), [=]() {
      init(); int lfd = mc::net_listen(PORT);
      mc::go([=]() { for (int i = 0; i < 2; i++) { int p = mc::net_accept(lfd); mc::net_send(p, i ? "second\n" : "first\nrest"); S r, x; while (!(x = mc::net_recv(p, 1)).empty()) r += x; MC_REQUIRE(r == (i ? "w2" : "w1"), "connection %d received %s", i, show(r).c_str()); mc::net_close(p); } });
      socketstream *ss = new socketstream("localhost", PORT); S l; MC_REQUIRE(*ss, "connect"); *ss << "w1";
      if (look == 1) MC_REQUIRE(ss->peek() == 'f', "peek"); if (look == 2) MC_REQUIRE(ss->get() == 'f' && ss->peek() == 'i', "get"); if (look == 3) { std::getline(*ss, l); MC_REQUIRE(l == "first" && ss->peek() == 'r', "line"); }
      if (how != 2) ss->flush();
      if (how == 0 || how == 2) ss->connect("localhost", PORT); else { pfi::lang::shared_ptr<stream_socket> n(new stream_socket()); MC_REQUIRE(n->connect("localhost", PORT), "connect"); ss->setsock(n); }
      MC_REQUIRE(*ss && ss->is_connected(), "second connection"); *ss << "w2" << std::flush; std::getline(*ss, l); MC_REQUIRE(*ss && l == "second", "the second connection delivered %s", show(l).c_str());
      delete ss; mc::join_all(); mc::net_close(lfd);
    });
  mc::add("iostream_refused", O(0), O(1), []() { init(); socketstream ss("localhost", 9); MC_REQUIRE(!ss, "stream is good although nobody listens"); });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
