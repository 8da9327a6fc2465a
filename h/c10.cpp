// C10: RPC call semantics: right result or an error, at most one execution, framing under faults
#include "rpc.h"
static void up(Server *v, int n) { mc::net.create_fail = false; MC_REQUIRE(v->s->start(PORT, n), "start failed"); mc::wait_until([=]() { return mc::net_accepting(PORT) == n; }, "server threads to accept"); }
static void down(Server *v) { mc::net = mc::NetCfg(); v->s->stop(); v->s->wait_until_stopped(); delete v->s; delete v; MC_REQUIRE(mc::net_stat().bad_closes == 0, "a descriptor was closed twice"); MC_REQUIRE(mc::net_stat().open_fds == 0, "%d descriptors leaked", mc::net_stat().open_fds); }
static S le32(uint32_t x) { S r; for (int i = 0; i < 4; i++) r += (char)(x >> (8 * i)); return r; }
static S str(const S &s) { return le32(s.size()) + s; }
static void mode(int m) { mc::net.short_read = mc::net.short_write = m & 1; mc::net.eintr = m & 2; mc::net.reset = m & 4; mc::net.connect_fail = m & 8; }
template <class F> static bool attempt(F f, bool may_fail, const char *what) {
  try { f(); return true; }
  catch (const rpc_error &e) { if (!may_fail) mc::fail("%s failed: %s", what, e.what()); return false; }
  catch (const std::exception &e) { mc::fail("%s threw something else than an RPC error: %s", what, e.what()); }
}
static void calls(int m, int which, int ncalls) {
  init(); Server *v = new Server(); up(v, 1);
  calc_client *c = new calc_client("localhost", PORT);
  mode(m);
  bool mf = m & 12;
  int ok = 0;
  for (int i = 0; i < ncalls; i++) {
    Stat b = v->st;
    if (which == 0) {
      int r = 0; bool k = attempt([&]() { r = c->call_add(1000 * i + 7, -3); }, mf, "add");
      if (k) { ok++; MC_REQUIRE(r == (1000 * i + 7) * 10 - 3, "add returned %d", r); MC_REQUIRE(v->st.add == b.add + 1, "executed %d times", v->st.add - b.add); }
      MC_REQUIRE(v->st.add <= b.add + 1, "one call was executed %d times", v->st.add - b.add);
      if (v->st.add > b.add) MC_REQUIRE(v->st.lastx == 1000 * i + 7 && v->st.lasty == -3, "executed with wrong arguments");
    } else if (which == 1) {
      static const S args[] = {"", S("a\0\xff\n", 4), S(300, 'q'), "<<<PING>>>"}; S a = args[mc::choose(4)], r;
      bool k = attempt([&]() { r = c->call_echo(a); }, mf, "echo");
      if (k) { ok++; MC_REQUIRE(r == "<" + a + ">" && v->st.echo == b.echo + 1, "echo returned a wrong string of %zu bytes", r.size()); }
      MC_REQUIRE(v->st.echo <= b.echo + 1, "one call was executed %d times", v->st.echo - b.echo);
    } else if (which == 2) {
      int r = 0; bool k = attempt([&]() { r = c->call_tick(); }, mf, "tick");
      if (k) { ok++; MC_REQUIRE(r == b.tick + 1 && v->st.tick == b.tick + 1, "tick returned %d, executed %d", r, v->st.tick - b.tick); }
      MC_REQUIRE(v->st.tick <= b.tick + 1, "one call was executed %d times", v->st.tick - b.tick);
    } else {
      std::vector<S> a, r; for (int j = 0; j < 3 * i; j++) a.push_back(S(j, 'a' + j)); std::map<S, int> mm; mm["x"] = 1; mm["yy"] = -2;
      bool k = attempt([&]() { r = c->call_rev(a, i, mm); }, mf, "rev");
      std::vector<S> w(a.rbegin(), a.rend()); w.push_back(std::to_string(i) + ",x=1,yy=-2");
      if (k) { ok++; MC_REQUIRE(r == w && v->st.rev == b.rev + 1, "rev returned a wrong vector"); }
      MC_REQUIRE(v->st.rev <= b.rev + 1, "one call was executed %d times", v->st.rev - b.rev);
    }
  }
  mode(0);
  // when the fault is over the same client works again
  MC_REQUIRE(attempt([&]() { c->call_add(1, 1); }, m & 4, "call after the fault"), "call after the fault failed");
  mc::outcome(std::to_string(ok));
  delete c; down(v);
}
static void reg() {
  { stream_socket warm; }
  static const char *const mn[] = {"plain", "short", "intr", "short+intr", "reset"};
  for (int m = 0; m < 4; m++)
    for (int w = 0; w < 4; w++)
      mc::add(S("call.") + mn[m] + "." + std::to_string(w), L(O(m ? 0 : 2, 0, 0, false, m ? 2 : 0)), L(O(m ? 1 : 3, 0, 0, false, 3)), [=]() { calls(m, w, m && w == 1 ? 1 : 2); });
  mc::add("call.refused", L(O(0, 0, 0, false, 2)), L(O(0, 0, 0, false, 3)), []() { calls(8, 0, 2); });
  // connection resets: the call fails with an RPC error or succeeds, never executes twice
  for (int w = 0; w < 4; w++)
    mc::add(S("call.reset.") + std::to_string(w), L(O(1, 0, 0, false, 2)), L(O(2, 0, 0, false, 3)), [=]() {
      init(); Server *v = new Server(); up(v, 1); calc_client *c = new calc_client("localhost", PORT);
      bool warm = mc::choose(2); if (warm) { c->call_tick(); v->st.tick = 0; }
      mode(4);
      int r = 0; S e; std::vector<S> rv;
      bool k = attempt([&]() { if (w == 0) r = c->call_add(4, 2); else if (w == 1) e = c->call_echo("zz"); else if (w == 2) r = c->call_tick(); else rv = c->call_rev(std::vector<S>(2, "k"), 3, std::map<S, int>()); }, true, "call");
      int n = w == 0 ? v->st.add : w == 1 ? v->st.echo : w == 2 ? v->st.tick : v->st.rev;
      if (k) MC_REQUIRE((w == 0 ? r == 42 : w == 1 ? e == "<zz>" : w == 2 ? r == 1 : rv.size() == 3) && n == 1, "wrong result after a reset (executed %d times)", n);
      mode(0);
      bool k2 = false; for (int t = 0; t < 3 && !k2; t++) k2 = attempt([&]() { MC_REQUIRE(c->call_add(5, 5) == 55, "wrong result later"); }, true, "later call");
      MC_REQUIRE(k2, "the client never recovers from a reset");
      n = w == 0 ? v->st.add - 1 : w == 1 ? v->st.echo : w == 2 ? v->st.tick : v->st.rev;
      if (w != 0) MC_REQUIRE(n <= 1, "one call was executed %d times", n); else MC_REQUIRE(n <= 3, "executed %d times", n);
      mc::outcome(k ? "ok" : "error"); delete c; down(v);
    });
  // every truncation of a request: nothing is executed, the next client is served
  for (int w = 0; w < 3; w++)
    mc::add(S("truncated.") + std::to_string(w), L(O(1, 0)), L(O(2, 0)), [=]() {
      init(); Server *v = new Server(); up(v, 1);
      S req = w == 0 ? str("tick") + le32(7) : w == 1 ? str("add") + le32(7) + le32(4) + le32(2) : str("echo") + le32(7) + str("hello");
      bool ping = mc::choose(2); int n = mc::choose(req.size() + 1); bool rst = mc::choose(2);
      int fd = mc::net_connect(PORT); MC_REQUIRE(fd >= 0, "connect");
      if (ping) { mc::net_send(fd, str("<<<PING>>>")); MC_REQUIRE(mc::net_recv(fd, 14) == str("<<<PONG>>>"), "pong"); }
      if (n) mc::net_send(fd, req.substr(0, n));
      if (n == (int)req.size()) {
        S want = str("OK") + (w == 0 ? le32(1) : w == 1 ? le32(42) : str("<hello>"));
        S got = mc::net_recv(fd, want.size()); MC_REQUIRE(got == want, "wrong reply of %zu bytes", got.size());
        mc::net_close(fd);
      } else { if (!rst) { mc::net_half_close(fd); S g = mc::net_recv_all(fd); MC_REQUIRE(g.empty(), "a reply of %zu bytes to a truncated request", g.size()); } mc::net_close(fd, rst); }
      { calc_client c("localhost", PORT); MC_REQUIRE(c.call_add(9, 9) == 99, "next client"); }
      int x = w == 0 ? v->st.tick : w == 1 ? v->st.add - 1 : v->st.echo;
      MC_REQUIRE(x == (n == (int)req.size()), "a request cut off after %d of %zu bytes was executed %d times", n, req.size(), x);
      down(v);
    });
  // every truncation of the reply: the call fails and the client recovers; every two-packet split is harmless
  for (int w = 0; w < 4; w++)
    mc::add(S("reply.") + std::to_string(w), L(O(1, 0)), L(O(2, 0)), [=]() {
      init();
      S req = w == 0 ? str("add") + le32(7) + le32(4) + le32(2) : w == 1 ? str("echo") + le32(7) + str("hello") : w == 2 ? str("tick") + le32(7) : str("rev") + le32(7) + le32(1) + str("k") + le32(3) + le32(0);
      S rep = str("OK") + (w == 0 ? le32(42) : w == 1 ? str("<hello>") : w == 2 ? le32(1) : le32(2) + str("k") + str("3"));
      bool cut = mc::choose(2); int n = mc::choose(rep.size() + (cut ? 0 : 1)); bool rst = cut && mc::choose(2);
      int l = mc::net_listen(PORT);
      mc::go([=]() {
        for (int i = 0; i < (cut ? 2 : 1); i++) {
          int fd = mc::net_accept(l);
          MC_REQUIRE(mc::net_recv(fd, 14) == str("<<<PING>>>"), "ping"); mc::net_send(fd, str("<<<PONG>>>"));
          S g = mc::net_recv(fd, req.size()); MC_REQUIRE(g == req, "wrong request of %zu bytes", g.size());
          if (i == 0) { if (n) mc::net_send(fd, rep.substr(0, n)); if (!cut) mc::net_send(fd, rep.substr(n)); } else mc::net_send(fd, rep);
          if (i == 0 && cut) mc::net_close(fd, rst); else { mc::net_recv_all(fd); mc::net_close(fd); }
        }
        mc::net_close(l);
      });
      {
        calc_client c("localhost", PORT);
        auto once = [&]() { if (w == 0) MC_REQUIRE(c.call_add(4, 2) == 42, "wrong result"); else if (w == 1) MC_REQUIRE(c.call_echo("hello") == "<hello>", "wrong result"); else if (w == 2) MC_REQUIRE(c.call_tick() == 1, "wrong result"); else { std::vector<S> v = c.call_rev(std::vector<S>(1, "k"), 3, std::map<S, int>()); MC_REQUIRE(v.size() == 2 && v[0] == "k" && v[1] == "3", "wrong result"); } };
        bool k = attempt(once, cut, "call"); MC_REQUIRE(k == !cut, "a call whose reply was cut off after %d of %zu bytes returned", n, rep.size());
        if (cut) attempt(once, false, "the call after a cut reply");
      }
      mc::join_all(); MC_REQUIRE(mc::net_stat().open_fds == 0, "%d descriptors leaked", mc::net_stat().open_fds);
    });
  // every way of cutting the request into two packets
  for (int w = 0; w < 3; w++)
    mc::add(S("split.") + std::to_string(w), L(O(1, 0)), L(O(2, 0)), [=]() {
      init(); Server *v = new Server(); up(v, 1);
      S req = w == 0 ? str("tick") + le32(7) + str("tick") + le32(7) : w == 1 ? str("add") + le32(7) + le32(4) + le32(2) + str("<<<PING>>>") : str("echo") + le32(7) + str("hello");
      S want = w == 0 ? str("OK") + le32(1) + str("OK") + le32(2) : w == 1 ? str("OK") + le32(42) + str("<<<PONG>>>") : str("OK") + str("<hello>");
      int n = mc::choose(req.size() + 1); int fd = mc::net_connect(PORT);
      mc::net_send(fd, req.substr(0, n)); mc::net_send(fd, req.substr(n)); S got = mc::net_recv(fd, want.size()); MC_REQUIRE(got == want, "wrong reply of %zu bytes to a request split after %d", got.size(), n);
      mc::net_close(fd); down(v);
    });
  // errors reported by the server
  mc::add("errors", L(O(1, 0)), L(O(2, 0)), []() {
    init(); Server *v = new Server(); up(v, 1); int w = mc::choose(6);
    if (w >= 4) {
      older::calc_client *c = new older::calc_client("localhost", PORT); bool thrown = false;
      try { if (w == 4) c->call_add(1, 1); else c->call_tick(); } catch (version_mismatch &e) { thrown = true; MC_REQUIRE(e.server_version() == 7 && e.client_version() == 6, "versions %d %d", e.server_version(), e.client_version()); } catch (const rpc_error &e) { mc::fail("wrong error %s", e.what()); }
      MC_REQUIRE(thrown, "a call with an older version returned"); MC_REQUIRE(v->st.add == 0 && v->st.tick == 0, "a call with an older version was executed"); delete c;
    } else if (w < 2) {
      same::calc_client *c = new same::calc_client("localhost", PORT); bool thrown = false;
      try { if (w) c->call_nosuch(1); else c->call_nosuch0(); } catch (method_not_found &e) { thrown = true; MC_REQUIRE(e.name() == (w ? "nosuch" : "nosuch0"), "name is %s", e.name().c_str()); } catch (const rpc_error &e) { mc::fail("wrong error %s", e.what()); }
      MC_REQUIRE(thrown, "an unknown method returned"); MC_REQUIRE(c->call_add(2, 1) == 21, "the client is unusable after an error"); delete c;
    } else {
      other::calc_client *c = new other::calc_client("localhost", PORT); bool thrown = false;
      try { if (w == 2) c->call_add(1, 1); else c->call_tick(); } catch (version_mismatch &e) { thrown = true; MC_REQUIRE(e.server_version() == 7 && e.client_version() == 8, "versions %d %d", e.server_version(), e.client_version()); } catch (const rpc_error &e) { mc::fail("wrong error %s", e.what()); }
      MC_REQUIRE(thrown, "a call with the wrong version returned"); MC_REQUIRE(v->st.add == 0 && v->st.tick == 0, "a call with the wrong version was executed"); delete c;
    }
    down(v);
  });
  // the arguments of a refused call are never taken for another call
  mc::add("refused_arguments", L(O(1, 0)), L(O(2, 0)), []() {
    init(); Server *v = new Server(); up(v, 1); int w = mc::choose(4); S tick = str("tick") + le32(7);
    S req = w == 0 ? str("nosuch") + le32(7) + "abcdefg" + tick : w == 1 ? str("nosuch") + tick : w == 2 ? str("tick") + le32(8) + tick : str("tick") + le32(6) + tick;
    int fd = mc::net_connect(PORT); mc::net_send(fd, req); S got, r; while (!(r = mc::net_recv(fd, 1)).empty()) { got += r; if (got.size() > 400) break; }
    MC_REQUIRE(v->st.tick == 0, "bytes after a refused call were executed as a call"); MC_REQUIRE(got.find(w < 2 ? "NotFound nosuch" : "VersionMismatch") != S::npos, "the reply does not tell the error");
    mc::net_close(fd); down(v);
  });
  // a method that throws: the caller gets an error, the server serves on
  for (int n = 1; n <= 2; n++)
    mc::add("method_throws." + std::to_string(n), n == 2 ? D(L(O(1, 0))) : L(O(1, 0)), n == 2 ? D(L(O(3, 0))) : L(O(2, 0)), [=]() {
      init(); Server *v = new Server(); int *k = new int(mc::choose(3)), *runs = new int(0); bool same_client = mc::choose(2);
      v->s->set_tick([=]() -> int { mc::quiet(true); int m = ++*runs; mc::quiet(false); if (m == 1) { if (*k == 0) throw rpc_error("method"); if (*k == 1) throw std::runtime_error("method"); throw 3; } return 70 + m; });
      up(v, n); calc_client *c = new calc_client("localhost", PORT); bool thrown = false;
      try { c->call_tick(); } catch (const rpc_error &) { thrown = true; }
      MC_REQUIRE(thrown && *runs == 1, "a call of a method that throws %s after %d runs", thrown ? "failed" : "returned", *runs);
      if (!same_client) { delete c; c = new calc_client("localhost", PORT); }
      MC_REQUIRE(c->call_tick() == 72 && c->call_add(1, 2) == 12, "wrong result after a method has thrown"); delete c; down(v); delete k; delete runs;
    });
  // accept fails now and then
  for (int n = 1; n <= 2; n++)
    mc::add("accept_fails." + std::to_string(n), L(O(0, 0, 0, false, 2)), L(O(1, 0, 0, false, 2)), [=]() {
      init(); Server *v = new Server(); mc::net.accept_fail = true; up(v, n);
      for (int i = 0; i < 2; i++) { calc_client c("localhost", PORT); MC_REQUIRE(c.call_add(i, 5) == 10 * i + 5, "wrong result"); }
      mc::net.accept_fail = false; down(v);
    });
  mc::add("no_server", L(O(0)), L(O(1)), []() {
    init(); calc_client c("localhost", PORT); bool t = false; try { c.call_tick(); } catch (const cannot_get_connection &) { t = true; } MC_REQUIRE(t, "no error although no server runs");
  });
  // reconnect after the server was restarted; the server gone in between
  mc::add("server_restart", L(O(0, 0)), L(O(1, 0)), []() {
    init(); Server *v = new Server(1.0); up(v, 1); calc_client *c = new calc_client("localhost", PORT);
    MC_REQUIRE(c->call_tick() == 1, "call"); v->s->stop(); v->s->wait_until_stopped();
    if (mc::choose(2)) { bool t = false; try { c->call_tick(); } catch (const rpc_error &) { t = true; } MC_REQUIRE(t, "call without server"); }
    MC_REQUIRE(v->s->start(PORT, 1), "restart");
    int r = 0; MC_REQUIRE(attempt([&]() { r = c->call_tick(); }, false, "call after a restart") && r == 2, "result %d", r);
    delete c; down(v);
  });
  // two clients and two server threads at the same time: no mix-up
  for (int n = 1; n <= 2; n++)
    mc::add("two_clients." + std::to_string(n), D(L(O(2, 0))), D(L(O(3, 0))), [=]() {
      init(); Server *v = new Server(); up(v, n);
      for (int i = 0; i < 2; i++) mc::go([=]() { calc_client c("localhost", PORT); MC_REQUIRE(c.call_add(i, 5) == 10 * i + 5, "mixed-up result"); MC_REQUIRE(c.call_echo(S(1, 'a' + i)) == S("<") + char('a' + i) + ">", "mixed-up result"); });
      mc::join_all(); MC_REQUIRE(v->st.add == 2 && v->st.echo == 2, "executions %d %d", v->st.add, v->st.echo); down(v);
    });
  // server time-out: a client that pauses in the middle of a request is dropped, not executed
  mc::add("timeout_mid_request", L(O(0, 0)), L(O(1, 1)), []() {
    init(); Server *v = new Server(1.5); up(v, 1); S req = str("tick") + le32(7); int n = mc::choose(req.size());
    int fd = mc::net_connect(PORT); if (n) mc::net_send(fd, req.substr(0, n)); S g = mc::net_recv_all(fd);
    MC_REQUIRE(g.empty() && v->st.tick == 0, "an incomplete request was executed after the time-out");
    MC_REQUIRE(mc::now() > 1.4 && mc::now() < 1.7, "dropped after %g s", mc::now());
    mc::net_close(fd); { calc_client c("localhost", PORT); MC_REQUIRE(c.call_tick() == 1, "next client"); } down(v);
  });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
