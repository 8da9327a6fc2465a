// C39: MessagePack RPC calls: right result or an error, at most one execution, framing under faults
#include "mprpc.h"
static void mode(int m) { mc::net.short_read = mc::net.short_write = m & 1; mc::net.eintr = m & 2; mc::net.reset = m & 4; mc::net.connect_fail = m & 8; }
static void calls(int m, int which, int ncalls) {
  Server *v = new Server(); up(v, 1);
  calc_client *c = new calc_client("localhost", PORT, 0);
  mode(m); bool mf = m & 12; int ok = 0;
  for (int i = 0; i < ncalls; i++) {
    Stat b = v->st;
    if (which == 0) {
      int r = 0; bool k = attempt([&]() { r = c->call_add(1000 * i + 7, -3); }, mf, "add");
      if (k) { ok++; MC_REQUIRE(r == (1000 * i + 7) * 10 - 3, "add returned %d", r); MC_REQUIRE(v->st.add == b.add + 1, "executed %d times", v->st.add - b.add); }
      MC_REQUIRE(v->st.add <= b.add + 1, "one call was executed %d times", v->st.add - b.add);
      if (v->st.add > b.add) MC_REQUIRE(v->st.lastx == 1000 * i + 7 && v->st.lasty == -3, "executed with wrong arguments");
    } else if (which == 1) {
      static const S args[] = {"", S("a\0\xff\n", 4), S(300, 'q'), S(3000, 'z')}; S a = args[mc::choose(4)], r;
      bool k = attempt([&]() { r = c->call_echo(a); }, mf, "echo");
      if (k) { ok++; MC_REQUIRE(r == "<" + a + ">" && v->st.echo == b.echo + 1, "echo returned a wrong string of %zu bytes", r.size()); }
      MC_REQUIRE(v->st.echo <= b.echo + 1, "one call was executed %d times", v->st.echo - b.echo);
      if (v->st.echo > b.echo) MC_REQUIRE(v->st.laste == a, "executed with wrong arguments");
    } else if (which == 2) {
      int r = 0; bool k = attempt([&]() { r = c->call_tick(); }, mf, "tick");
      if (k) { ok++; MC_REQUIRE(r == b.tick + 1 && v->st.tick == b.tick + 1, "tick returned %d, executed %d", r, v->st.tick - b.tick); }
      MC_REQUIRE(v->st.tick <= b.tick + 1, "one call was executed %d times", v->st.tick - b.tick);
    } else {
      std::vector<S> a, r; for (int j = 0; j < 3 * i; j++) a.push_back(S(j, 'a' + j)); MSI mm; mm["x"] = 1; mm["yy"] = -2;
      bool k = attempt([&]() { r = c->call_rev(a, i, mm); }, mf, "rev");
      std::vector<S> w(a.rbegin(), a.rend()); w.push_back(std::to_string(i) + ",x=1,yy=-2");
      if (k) { ok++; MC_REQUIRE(r == w && v->st.rev == b.rev + 1, "rev returned a wrong vector"); }
      MC_REQUIRE(v->st.rev <= b.rev + 1, "one call was executed %d times", v->st.rev - b.rev);
    }
  }
  mode(0);
  if (!(m & 4)) attempt([&]() { MC_REQUIRE(c->call_add(1, 1) == 11, "wrong result after the fault"); }, false, "call after the fault");
  delete c;
  { calc_client d("localhost", PORT, 0); attempt([&]() { MC_REQUIRE(d.call_add(5, 1) == 51, "wrong result for another client"); }, false, "another client"); }
  mc::outcome(std::to_string(ok)); down(v);
}
namespace many {
typedef int I;
MPRPC_PROC(f0, S()); MPRPC_PROC(f1, S(I)); MPRPC_PROC(f2, S(I, I)); MPRPC_PROC(f3, S(I, I, I)); MPRPC_PROC(f4, S(I, I, I, I)); MPRPC_PROC(f5, S(I, I, I, I, I)); MPRPC_PROC(f6, S(I, I, I, I, I, I)); MPRPC_PROC(f7, S(I, I, I, I, I, I, I)); MPRPC_PROC(f8, S(I, I, I, I, I, I, I, I)); MPRPC_PROC(f9, S(I, I, I, I, I, I, I, I, I));
MPRPC_GEN(1, many, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9);
static S cat() { return ""; }
template <class... A> static S cat(int a, A... r) { return std::to_string(a) + "," + cat(r...); }
}
namespace types {
MPRPC_PROC(pr, PIS(PIS)); MPRPC_PROC(mp, MIP(MIP)); MPRPC_PROC(st, std::set<int>(std::set<int>)); MPRPC_PROC(db, double(double, bool)); MPRPC_PROC(lo, int64_t(int64_t, uint64_t)); MPRPC_PROC(re, Rec(Rec));
MPRPC_GEN(1, types, pr, mp, st, db, lo, re);
}
static void reg() {
  mprpc::socket::resolve("localhost", PORT);
  static const char *const mn[] = {"plain", "short", "intr", "short+intr", "reset"};
  for (int m = 0; m < 5; m++)
    for (int w = 0; w < 4; w++)
      mc::add(S("call.") + mn[m] + "." + std::to_string(w), L(O(m ? 0 : 2, 0, 0, false, m ? 2 : 0)), L(O(m ? 1 : 3, 0, 0, false, 3)), [=]() { calls(m, w, m && w == 1 ? 1 : 2); });
  mc::add("call.refused", L(O(0, 0, 0, false, 2)), L(O(0, 0, 0, false, 3)), []() { calls(8, 0, 2); });
  mc::add("arities", L(O(1, 0)), L(O(2, 0)), []() {
    using namespace many; many_server *s = new many_server(0); typedef int I;
    s->set_f0([]() { return cat(); }); s->set_f1([](I a) { return cat(a); }); s->set_f2([](I a, I b) { return cat(a, b); }); s->set_f3([](I a, I b, I c) { return cat(a, b, c); }); s->set_f4([](I a, I b, I c, I d) { return cat(a, b, c, d); });
    s->set_f5([](I a, I b, I c, I d, I e) { return cat(a, b, c, d, e); }); s->set_f6([](I a, I b, I c, I d, I e, I f) { return cat(a, b, c, d, e, f); }); s->set_f7([](I a, I b, I c, I d, I e, I f, I g) { return cat(a, b, c, d, e, f, g); });
    s->set_f8([](I a, I b, I c, I d, I e, I f, I g, I h) { return cat(a, b, c, d, e, f, g, h); }); s->set_f9([](I a, I b, I c, I d, I e, I f, I g, I h, I i) { return cat(a, b, c, d, e, f, g, h, i); });
    MC_REQUIRE(s->create(PORT) && s->run(1, false), "start");
    int n = mc::choose(10); { many_client c("localhost", PORT, 0); S r;
      switch (n) { case 0: r = c.call_f0(); break; case 1: r = c.call_f1(1); break; case 2: r = c.call_f2(1, 2); break; case 3: r = c.call_f3(1, 2, 3); break; case 4: r = c.call_f4(1, 2, 3, 4); break; case 5: r = c.call_f5(1, 2, 3, 4, 5); break; case 6: r = c.call_f6(1, 2, 3, 4, 5, 6); break; case 7: r = c.call_f7(1, 2, 3, 4, 5, 6, 7); break; case 8: r = c.call_f8(1, 2, 3, 4, 5, 6, 7, 8); break; default: r = c.call_f9(1, 2, 3, 4, 5, 6, 7, 8, 9); }
      S w; for (int i = 1; i <= n; i++) w += std::to_string(i) + ","; MC_REQUIRE(r == w, "the method of %d parameters got %s", n, r.c_str()); }
    if (n) { // a call that leaves an argument out is refused
        int k = mc::choose(n), fd = mc::net_connect(PORT); S par = arr(k); for (int i = 1; i <= k; i++) par += enc(i);
        mc::net_send(fd, req(9, "f" + std::to_string(n), par)); S want = arr(4) + enc(1) + enc(9) + enc(2) + "\xc0", got = mc::net_recv(fd, want.size()); MC_REQUIRE(got == want, "%d arguments for %d parameters are not refused", k, n); mc::net_close(fd); }
    s->stop(); s->join(); delete s;
  });
  mc::add("types", L(O(0, 0)), L(O(1, 0)), []() {
    using namespace types; types_server *s = new types_server(0);
    s->set_pr([](PIS p) { return PIS(-p.first, p.second + "!"); }); s->set_mp([](MIP m) { m[9] = PIS(1, "nine"); return m; }); s->set_st([](std::set<int> x) { x.insert(7); return x; }); s->set_db([](double d, bool n) { return n ? -d : d; }); s->set_lo([](int64_t a, uint64_t b) { return (int64_t)((uint64_t)a ^ b); }); s->set_re([](Rec r) { r.v.push_back(r.i & 255); r.i = -r.i; return r; });
    MC_REQUIRE(s->create(PORT) && s->run(1, false), "start");
    { types_client c("localhost", PORT, 0);
      MC_REQUIRE(c.call_pr(PIS(12, S("a\0b", 3))) == PIS(-12, S("a\0b!", 4)), "pair");
      MIP m; m[-5] = PIS(3, "x"); MIP w = m; w[9] = PIS(1, "nine"); MC_REQUIRE(c.call_mp(m) == w, "map");
      std::set<int> q; for (int i = 0; i < 20; i++) q.insert(i * 100000); std::set<int> q2 = q; q2.insert(7); MC_REQUIRE(c.call_st(q) == q2, "set");
      MC_REQUIRE(c.call_db(0.1, true) == -0.1 && c.call_db(1e300, false) == 1e300, "double");
      static const int64_t V[] = {0, -1, 127, 128, 255, 256, -32, -33, -128, -129, 32767, -32768, 65535, 65536, 2147483647LL, -2147483648LL, 4294967295LL, 4294967296LL, 9223372036854775807LL, (int64_t)(-9223372036854775807LL - 1)};
      for (int64_t a : V) for (int64_t b : {(int64_t)0, (int64_t)-1}) MC_REQUIRE(c.call_lo(a, b) == (a ^ b), "integer %lld", (long long)a);
      Rec r; r.i = 300; r.v.push_back(200); Rec x = c.call_re(r); MC_REQUIRE(x.i == -300 && x.v.size() == 2 && x.v[0] == 200 && x.v[1] == (300 & 255), "user type"); Rec e; e.i = 9; x = c.call_re(e); MC_REQUIRE(x.i == -9 && x.v.size() == 1, "user type with an empty vector");
      for (int k = 0; k < 40; k++) MC_REQUIRE(c.call_db(k, false) == k, "call %d", k); }
    s->stop(); s->join(); delete s;
  });
  // every truncation of a request: nothing is executed, the next client is served
  for (int w = 0; w < 3; w++)
    mc::add(S("truncated.") + std::to_string(w), L(O(1, 0)), L(O(2, 0)), [=]() {
      Server *v = new Server(); up(v, 1);
      S q = w == 0 ? req(5, "tick", arr(0)) : w == 1 ? req(300, "add", arr(2) + enc(4) + enc(2)) : req(70000, "echo", arr(1) + enc(S("hello")));
      int n = mc::choose(q.size() + 1); int how = mc::choose(3);
      int fd = mc::net_connect(PORT); MC_REQUIRE(fd >= 0, "connect");
      if (how == 2) { mc::net_send(fd, req(1, "add", arr(2) + enc(1) + enc(1))); S w1 = rep(1, enc(11)); MC_REQUIRE(mc::net_recv(fd, w1.size()) == w1, "first reply"); v->st.add = 0; }
      if (n) mc::net_send(fd, q.substr(0, n));
      if (n == (int)q.size()) {
        S want = w == 0 ? rep(5, enc(1)) : w == 1 ? rep(300, enc(42)) : rep(70000, enc(S("<hello>")));
        S got = mc::net_recv(fd, want.size()); MC_REQUIRE(got == want, "wrong reply of %zu bytes", got.size());
        mc::net_close(fd);
      } else { if (how == 0) { mc::net_half_close(fd); S g = mc::net_recv_all(fd); MC_REQUIRE(g.empty(), "a reply of %zu bytes to a truncated request", g.size()); } mc::net_close(fd, how == 1); }
      { calc_client c("localhost", PORT, 0); MC_REQUIRE(c.call_add(9, 9) == 99, "next client"); }
      int x = w == 0 ? v->st.tick : w == 1 ? v->st.add - 1 : v->st.echo;
      MC_REQUIRE(x == (n == (int)q.size()), "a request cut off after %d of %zu bytes was executed %d times", n, q.size(), x);
      down(v);
    });
  // requests that are not requests: nothing is executed and the server serves on
  mc::add("malformed", L(O(1, 0)), L(O(2, 0)), []() {
    Server *v = new Server(); up(v, 1);
    const S bad[] = {"\xc1", "\x01", "\xc0", enc(S("tick")), arr(0), arr(1) + enc(0), arr(3) + enc(2) + enc(S("tick")) + arr(0), arr(4) + enc(S("x")) + enc(0) + enc(S("tick")) + arr(0), arr(4) + enc(0) + enc(S("id")) + enc(S("tick")) + arr(0), arr(4) + enc(0) + enc(-1) + enc(S("tick")) + arr(0), arr(4) + enc(0) + enc((int64_t)1 << 40) + enc(S("tick")) + arr(0),
      arr(4) + enc(0) + enc(1) + enc(7) + arr(0), arr(4) + enc(0) + enc(1) + "\xc0" + arr(0), arr(4) + enc(0) + enc(1) + arr(1) + enc(S("tick")) + arr(0), arr(4) + enc(1) + enc(1) + enc(S("tick")) + arr(0), arr(4) + enc(2) + enc(1) + enc(S("tick")) + arr(0), arr(4) + enc(255) + enc(1) + enc(S("tick")) + arr(0), arr(4) + enc(256) + enc(1) + enc(S("tick")) + arr(0), "\x84\x01\x02\x03\x04\x05\x06\x07\x08", S("\xc7", 1), S("GET / HTTP/1.0\r\n\r\n"), S("\xdd\xff\xff\xff\xff", 5) + S(40, '\x91')};
    int k = mc::choose(sizeof bad / sizeof *bad), how = mc::choose(3);
    int fd = mc::net_connect(PORT); mc::net_send(fd, bad[k]);
    if (how == 1) mc::net_half_close(fd); else if (how == 2) mc::net_close(fd);
    if (how == 1) { S g = mc::net_recv_all(fd); (void)g; }
    if (how != 2) mc::net_close(fd);
    { calc_client c("localhost", PORT, 0); MC_REQUIRE(c.call_add(9, 9) == 99, "next client"); }
    MC_REQUIRE(v->st.tick == 0 && v->st.echo == 0 && v->st.rev == 0 && v->st.add == 1, "malformed request %d was executed", k);
    down(v);
  });
  // parameters that do not fit the method are refused with an error, and the connection goes on
  mc::add("wrong_parameters", L(O(1, 0)), L(O(2, 0)), []() {
    Server *v = new Server(); up(v, 1);
    struct Q { S name, par; }; const Q bad[] = {{"add", enc(5)}, {"add", "\xc0"}, {"add", arr(2) + enc(S("1")) + enc(2)}, {"add", arr(2) + enc(1) + "\xc0"}, {"add", arr(2) + enc(1) + enc((int64_t)1 << 33)}, {"echo", arr(1) + enc(3)}, {"echo", enc(S("x"))}, {"echo", arr(1) + arr(0)}, {"rev", arr(3) + enc(1) + enc(1) + "\x80"}, {"rev", arr(3) + arr(1) + enc(1) + enc(1) + "\x80"}, {"rev", arr(3) + arr(0) + enc(1) + arr(0)}, {"tick", enc(1)}, {"add", arr(0)}, {"add", arr(1) + enc(1)}, {"echo", arr(0)}, {"rev", arr(0)}, {"rev", arr(1) + arr(0)}, {"rev", arr(2) + arr(0) + enc(1)}};
    int k = mc::choose(sizeof bad / sizeof *bad); int fd = mc::net_connect(PORT); mc::net_send(fd, req(9, bad[k].name, bad[k].par));
    S want = arr(4) + enc(1) + enc(9) + enc(2) + "\xc0", got = mc::net_recv(fd, want.size()); MC_REQUIRE(got == want, "wrong parameters are not reported as a type mismatch");
    mc::net_send(fd, req(10, "add", arr(2) + enc(1) + enc(2))); want = rep(10, enc(12)); got = mc::net_recv(fd, want.size()); MC_REQUIRE(got == want, "wrong reply after a type mismatch");
    MC_REQUIRE(v->st.add == 1 && v->st.echo == 0 && v->st.rev == 0 && v->st.tick == 0, "a method was executed with wrong parameters"); mc::net_close(fd); down(v);
  });
  // every truncation of the reply: the call fails; every two-packet split is harmless; other messages in front are skipped
  for (int w = 0; w < 4; w++)
    mc::add(S("reply.") + std::to_string(w), L(O(1, 0)), L(O(2, 0)), [=]() {
      S q = w == 0 ? req(0, "add", arr(2) + enc(4) + enc(2)) : w == 1 ? req(0, "echo", arr(1) + enc(S("hello"))) : w == 2 ? req(0, "tick", arr(0)) : req(0, "rev", arr(3) + arr(1) + enc(S("k")) + enc(3) + "\x80");
      S r = rep(0, w == 0 ? enc(42) : w == 1 ? enc(S("<hello>")) : w == 2 ? enc(1) : arr(2) + enc(S("k")) + enc(S("3")));
      int pre = mc::choose(7); S front = pre == 0 ? S() : pre == 1 ? rep(1, enc(99)) : pre == 2 ? req(0, "tick", arr(0)) : pre == 3 ? arr(4) + enc(1) + enc(4294967295u) + enc(S("other")) + "\xc0" : pre == 4 ? arr(4) + enc(5) + enc(0) + "\xc0" + enc(3) : rep(pre == 5 ? 256 : 65536, enc(98));
      r = front + r;
      bool cut = mc::choose(2); int n = mc::choose(r.size() + (cut ? 0 : 1)); bool rst = cut && mc::choose(2);
      int l = mc::net_listen(PORT);
      mc::go([=]() {
        int fd = mc::net_accept(l); S g = mc::net_recv(fd, q.size()); MC_REQUIRE(g == q, "wrong request of %zu bytes", g.size());
        if (n) mc::net_send(fd, r.substr(0, n)); if (cut && rst) mc::wait_until([]() { return false; }, "a while", 1.0); if (!cut) { mc::net_send(fd, r.substr(n)); S more = mc::net_recv_all(fd); MC_REQUIRE(more.empty(), "%zu bytes after the request", more.size()); }
        mc::net_close(fd, rst); mc::net_close(l);
      });
      {
        calc_client c("localhost", PORT, 0);
        bool k = attempt([&]() { if (w == 0) MC_REQUIRE(c.call_add(4, 2) == 42, "wrong result"); else if (w == 1) MC_REQUIRE(c.call_echo("hello") == "<hello>", "wrong result"); else if (w == 2) MC_REQUIRE(c.call_tick() == 1, "wrong result"); else { std::vector<S> v = c.call_rev(std::vector<S>(1, "k"), 3, MSI()); MC_REQUIRE(v.size() == 2 && v[0] == "k" && v[1] == "3", "wrong result"); } }, cut, "call");
        MC_REQUIRE(k == !cut, "a call whose reply was cut off after %d of %zu bytes returned", n, r.size());
      }
      mc::join_all(); MC_REQUIRE(mc::net_stat().open_fds == 0, "%d descriptors leaked", mc::net_stat().open_fds);
    });
  // garbage from the server is an RPC error
  mc::add("garbage_reply", L(O(0, 0)), L(O(1, 0)), []() {
    const S bad[] = {"\xc1", "\x01", arr(0), arr(2) + enc(1) + enc(0), arr(4) + enc(S("x")) + enc(0) + "\xc0\xc0", S("HTTP/1.0 400\r\n"), arr(4) + enc(1) + enc(0) + "\xc0" + enc(S("text")), arr(4) + enc(1) + enc(0) + "\xc0\xc0", arr(4) + enc(1) + enc(0) + enc(1) + enc(S("tick")), arr(4) + enc(1) + enc(0) + enc(2) + "\xc0", arr(4) + enc(1) + enc(0) + enc(77) + enc(5), arr(4) + enc(1) + enc(0) + enc(S("oops")) + enc(5), arr(4) + enc(1) + enc(0) + arr(0) + enc(5), arr(4) + enc(1) + enc(0) + "\xc0" + enc((int64_t)1 << 40)};
    int k = mc::choose(sizeof bad / sizeof *bad); int l = mc::net_listen(PORT); int *calls = new int(0);
    mc::go([=]() { int fd = mc::net_accept(l); for (;;) { S q = mc::net_recv(fd, 1); if (q.empty()) break; S more = mc::net_peek(fd); if (!more.empty()) mc::net_recv(fd, more.size()); if (++*calls == 1) { mc::net_send(fd, bad[k]); if (k < 6) mc::net_half_close(fd); } else mc::net_send(fd, rep(1, enc(8))); } mc::net_close(fd); mc::net_close(l); });
    { calc_client c("localhost", PORT, 0); int kind = 0; S text;
      try { c.call_tick(); } catch (method_not_found &e) { kind = 1; MC_REQUIRE(e.name() == "tick", "name %s", e.name().c_str()); } catch (rpc_type_error &) { kind = 2; } catch (rpc_error &e) { kind = 3; text = e.what(); } catch (std::exception &e) { mc::fail("something else than an RPC error: %s", e.what()); }
      int want = k == 8 ? 1 : k == 6 || k == 7 || k == 9 || k == 13 ? 2 : 3; MC_REQUIRE(kind == want, "reply %d gave outcome %d", k, kind); if (k == 11) MC_REQUIRE(text == "oops", "error text %s", text.c_str());
      int r = 0; bool ok = attempt([&]() { r = c.call_tick(); }, true, "second call"); MC_REQUIRE(!ok || r == 8, "wrong result %d after reply %d", r, k); if (k >= 6) MC_REQUIRE(ok, "the connection is unusable after an error reply"); }
    mc::join_all(); delete calls;
  });
  // every way of cutting requests into two packets; requests sent ahead are answered one by one, in order
  for (int w = 0; w < 3; w++)
    mc::add(S("split.") + std::to_string(w), L(O(1, 0)), L(O(2, 0)), [=]() {
      Server *v = new Server(); up(v, 1);
      S q = w == 0 ? req(1, "tick", arr(0)) + req(2, "tick", arr(0)) : w == 1 ? req(7, "add", arr(2) + enc(4) + enc(2)) + req(7, "nosuch", arr(0)) + req(8, "tick", arr(0)) : req(4294967295u, "echo", arr(1) + enc(S(40, 'h')));
      S want = w == 0 ? rep(1, enc(1)) + rep(2, enc(2)) : w == 1 ? rep(7, enc(42)) + arr(4) + enc(1) + enc(7) + enc(1) + enc(S("nosuch")) + rep(8, enc(1)) : rep(4294967295u, enc("<" + S(40, 'h') + ">"));
      int n = mc::choose(q.size() + 1); int fd = mc::net_connect(PORT);
      if (n) mc::net_send(fd, q.substr(0, n)); if (n < (int)q.size()) mc::net_send(fd, q.substr(n)); S got = mc::net_recv(fd, want.size()); MC_REQUIRE(got == want, "wrong reply of %zu bytes to a request split after %d", got.size(), n);
      mc::net_close(fd); down(v);
    });
  // errors reported by the server
  mc::add("errors", L(O(1, 0)), L(O(2, 0)), []() {
    Server *v = new Server(); up(v, 1); int w = mc::choose(4);
    { bad::calc_client c("localhost", PORT, 0); int kind = 0;
      try { if (w == 0) c.call_nosuch(1); else if (w == 1) c.call_add("1", "2"); else if (w == 2) c.call_tick(); else c.call_echo("5"); } catch (method_not_found &e) { kind = 1; MC_REQUIRE(e.name() == "nosuch", "name is %s", e.name().c_str()); } catch (rpc_type_error &) { kind = 2; } catch (rpc_error &) { kind = 3; }
      MC_REQUIRE(kind == (w == 0 ? 1 : 2), "error %d for case %d", kind, w);
      MC_REQUIRE(v->st.add == 0, "executed with parameters of the wrong type"); int kind2 = 0; try { c.call_nosuch(2); } catch (method_not_found &) { kind2 = 1; } catch (rpc_error &) {} MC_REQUIRE(kind2, "the connection is unusable after an error"); }
    { calc_client d("localhost", PORT, 0); MC_REQUIRE(d.call_add(2, 1) == 21, "server unusable after an error"); }
    down(v);
  });
  // a method that throws: the caller gets an error, the server serves on
  for (int n = 1; n <= 2; n++)
    mc::add("method_throws." + std::to_string(n), n == 2 ? D(L(O(1, 0))) : L(O(1, 0)), n == 2 ? D(L(O(3, 0))) : L(O(2, 0)), [=]() {
      Server *v = new Server(); int *k = new int(mc::choose(6)), *runs = new int(0); bool same_client = mc::choose(2);
      v->s->set_tick([=]() -> int { mc::quiet(true); int m = ++*runs; mc::quiet(false); if (m == 1) switch (*k) { case 0: throw rpc_error("method"); case 1: throw std::runtime_error("method"); case 2: throw rpc_timeout_error("method"); case 3: throw rpc_type_error("method"); case 4: throw method_not_found("method"); default: throw 3; } return 70 + m; });
      up(v, n); calc_client *c = new calc_client("localhost", PORT, 0); bool thrown = false; S text;
      try { c->call_tick(); } catch (const rpc_error &e) { thrown = true; text = e.what(); }
      MC_REQUIRE(thrown && *runs == 1, "a call of a method that throws %s after %d runs", thrown ? "failed" : "returned", *runs); if (*k == 1) MC_REQUIRE(text == "method", "the error text is %s", text.c_str());
      if (!same_client) { delete c; c = new calc_client("localhost", PORT, 0); }
      MC_REQUIRE(c->call_tick() == 72 && c->call_add(1, 2) == 12, "wrong result after a method has thrown"); delete c; down(v); delete k; delete runs;
    });
  // accept fails now and then
  for (int n = 1; n <= 2; n++)
    mc::add("accept_fails." + std::to_string(n), L(O(0, 0, 0, false, 2)), L(O(1, 0, 0, false, 2)), [=]() {
      Server *v = new Server(); mc::net.accept_fail = true; up(v, n);
      for (int i = 0; i < 2; i++) { calc_client c("localhost", PORT, 0); MC_REQUIRE(c.call_add(i, 5) == 10 * i + 5, "wrong result"); }
      mc::net.accept_fail = false; down(v);
    });
  mc::add("no_server", L(O(0)), L(O(1)), []() {
    calc_client c("localhost", PORT, 0); bool t = false; try { c.call_tick(); } catch (const rpc_io_error &) { t = true; } MC_REQUIRE(t, "no error although no server runs");
    Server *v = new Server(); up(v, 1); MC_REQUIRE(c.call_tick() == 1, "call once the server is there"); c.~calc_client(); new (&c) calc_client("localhost", PORT, 0); down(v);
  });
  // the other side goes away: errors, never a crash
  mc::add("server_gone", L(O(1, 0)), L(O(2, 0)), []() {
    Server *v = new Server(); up(v, 1); calc_client *c = new calc_client("localhost", PORT, 0); int n = mc::choose(2); if (n) MC_REQUIRE(c->call_tick() == 1, "call");
    else { int fd = mc::net_connect(PORT); mc::net_close(fd); }
    v->s->stop(); if (n) mc::go([=]() { v->s->join(); });
    // the server ends the connection at the next request at the latest
    int bad = 0; for (int i = 0; i < 4; i++) { int before = v->st.tick; int r = 0; bool k = attempt([&]() { r = c->call_tick(); }, true, "call"); if (k) MC_REQUIRE(r == before + 1, "wrong result"); else bad++; }
    MC_REQUIRE(bad >= 3, "%d of 4 calls succeeded after stop", 4 - bad);
    mc::join_all(); delete c; down(v);
  });
  mc::add("client_gone", L(O(1, 0)), L(O(2, 0)), []() {
    Server *v = new Server(); up(v, 1); int k = 1 + mc::choose(3); bool rst = mc::choose(2); S q; for (int i = 0; i < k; i++) q += req(i, "echo", arr(1) + enc(S(20, 'e')));
    int fd = mc::net_connect(PORT); mc::net_send(fd, q); mc::net_close(fd, rst);
    { calc_client c("localhost", PORT, 0); MC_REQUIRE(c.call_add(1, 2) == 12, "next client"); }
    MC_REQUIRE(v->st.echo <= k, "executed too often"); down(v);
  });
  // two clients and two server threads at the same time: no mix-up
  for (int n = 1; n <= 2; n++)
    mc::add("two_clients." + std::to_string(n), D(L(O(2, 0))), D(L(O(3, 0))), [=]() {
      Server *v = new Server(); up(v, n);
      for (int i = 0; i < 2; i++) mc::go([=]() { calc_client c("localhost", PORT, 0); MC_REQUIRE(c.call_add(i, 5) == 10 * i + 5, "mixed-up result"); MC_REQUIRE(c.call_echo(S(1, 'a' + i)) == S("<") + char('a' + i) + ">", "mixed-up result"); });
      mc::join_all(); MC_REQUIRE(v->st.add == 2 && v->st.echo == 2, "executions %d %d", v->st.add, v->st.echo); down(v);
    });
  // time-outs: reported as such, not before the time has passed; a late reply is not taken for the next one
  mc::add("client_timeout", L(O(1, 0)), L(O(2, 1)), []() {
    int l = mc::net_listen(PORT); int late = mc::choose(3); S r0 = rep(0, enc(1000)), r1 = rep(1, enc(1001)), r2 = rep(2, enc(1002)); int part = mc::choose(4) * (int)r0.size() / 4; int *phase = new int(0);
    mc::go([=]() {
      int fd = mc::net_accept(l); S q0 = req(0, "tick", arr(0)); MC_REQUIRE(mc::net_recv(fd, q0.size()) == q0, "request"); if (part) mc::net_send(fd, r0.substr(0, part));
      mc::wait_until([=]() { return *phase == 1; }, "the first call to end"); if (late == 0) mc::net_send(fd, r0.substr(part));
      S q1 = req(1, "tick", arr(0)); S g = mc::net_recv(fd, q1.size());
      if (g.size() == q1.size()) { MC_REQUIRE(g == q1, "second request"); if (late == 1) mc::net_send(fd, r0.substr(part)); if (late < 2) mc::net_send(fd, r1); else { mc::wait_until([=]() { return *phase == 2; }, "the second call to end"); mc::net_send(fd, r0.substr(part) + r1); } }
      S q2 = req(2, "tick", arr(0)); g = mc::net_recv(fd, q2.size()); if (g == q2) mc::net_send(fd, r2);
      mc::net_recv_all(fd); mc::net_close(fd); mc::net_close(l);
    });
    double TO = mc::choose(2) ? 0.5 : 1.5; { calc_client c("localhost", PORT, TO);
      for (int i = 0; i < 3; i++) {
        double t0 = mc::now(); int kind = 0, r = 0; try { r = c.call_tick(); kind = 1; } catch (rpc_timeout_error &) { kind = 2; } catch (rpc_error &) { kind = 3; }
        if (kind == 1) MC_REQUIRE(r == 1000 + i, "call %d returned %d: the reply to another call", i, r);
        if (kind == 2) MC_REQUIRE(mc::now() - t0 >= TO && mc::now() - t0 < 2 * TO + 0.2, "timed out after %g s", mc::now() - t0);
        if (i == 0) MC_REQUIRE(kind == 2, "no time-out although there is no reply: %d", kind); else if (late < 2) MC_REQUIRE(kind == 1, "call %d failed although its reply came", i);
        mc::quiet(true); *phase = i + 1; mc::quiet(false);
      } }
    mc::join_all(); delete phase;
  });
  mc::add("server_timeout", L(O(0, 0)), L(O(1, 1)), []() {
    double TO = mc::choose(2) ? 0.5 : 1.5; Server *v = new Server(TO); up(v, 1); S q = req(3, "tick", arr(0)); int n = mc::choose(q.size());
    int fd = mc::net_connect(PORT); if (n) mc::net_send(fd, q.substr(0, n)); S g = mc::net_recv_all(fd);
    MC_REQUIRE(g.empty() && v->st.tick == 0, "an incomplete request was executed after the time-out");
    MC_REQUIRE(mc::now() >= TO && mc::now() < 2 * TO + 0.2, "dropped after %g s", mc::now());
    mc::net_close(fd); { calc_client c("localhost", PORT, 0); MC_REQUIRE(c.call_tick() == 1, "next client"); } down(v);
  });
  // a message that could not be sent completely is not followed by another one
  for (int cap = 5; cap <= 60; cap += 11)
    mc::add("stuck_request." + std::to_string(cap), L(O(0, 0)), L(O(1, 0)), [=]() {
      int l = mc::net_listen(PORT); mc::net.capacity = cap; bool *go_on = new bool(false); S *got = new S;
      mc::go([=]() { int fd = mc::net_accept(l); mc::wait_until([=]() { return *go_on; }, "the first call to end"); for (;;) { S r = mc::net_recv(fd, 1); if (r.empty()) break; mc::quiet(true); *got += r; mc::quiet(false); } mc::net_close(fd); mc::net_close(l); });
      S q0 = req(0, "echo", arr(1) + enc(S(80, 'x'))), q1 = req(1, "echo", arr(1) + enc(S(80, 'y')));
      { calc_client c("localhost", PORT, 1.0); int kind = 0; double t0 = mc::now(); try { c.call_echo(S(80, 'x')); } catch (rpc_timeout_error &) { kind = 2; } catch (rpc_error &) { kind = 3; } MC_REQUIRE(kind, "a call that could not be sent returned"); if (kind == 2) MC_REQUIRE(mc::now() - t0 >= 1.0, "too early");
        mc::quiet(true); *go_on = true; mc::quiet(false); attempt([&]() { c.call_echo(S(80, 'y')); mc::fail("returned without a server"); }, true, "second call", true); }
      mc::join_all(); mc::quiet(true); S all = q0 + q1; MC_REQUIRE(all.compare(0, got->size(), *got) == 0, "after %d bytes of a request another one was sent", cap); mc::quiet(false); delete go_on; delete got;
    });
  for (int cap : {5, 16, 27, 49, 60, 87, 88, 89, 91, 92, 93})
    mc::add("stuck_reply." + std::to_string(cap), L(O(0, 0)), L(O(1, 0)), [=]() {
      Server *v = new Server(1.0); up(v, 1); mc::net.capacity = cap; int fd = mc::net_connect(PORT); bool *fin = new bool(false);
      mc::net_send(fd, req(0, "echo", arr(1) + enc(S(80, 'x'))) + req(1, "tick", arr(0)) + req(2, "add", arr(2) + enc(1) + enc(2)));
      double t = mc::now(); mc::wait_until([]() { return false; }, "the reply to be given up", 2.5); (void)t;
      S all = rep(0, enc("<" + S(80, 'x') + ">")) + rep(1, enc(1)) + rep(2, enc(12)), got = mc::net_recv_all(fd);
      MC_REQUIRE(all.compare(0, got.size(), got) == 0, "after a part of a reply another one was sent"); MC_REQUIRE(v->st.echo == 1 && v->st.tick <= 1 && v->st.add <= 1, "executions");
      mc::net_close(fd); mc::net.capacity = 1 << 20; { calc_client c("localhost", PORT, 0); MC_REQUIRE(c.call_add(9, 9) == 99, "next client"); } delete fin; down(v);
    });
  // descriptors when something fails while connecting
  mc::add("connect_faults", L(O(0, 0, 0, false, 2)), L(O(1, 0, 0, false, 3)), []() {
    Server *v = new Server(); up(v, 1); mc::net.opt_fail = mc::net.socket_fail = mc::net.connect_fail = true; mc::net.dns_fail = true;
    { calc_client c("localhost", PORT, 1.0); int r = 0; bool k = attempt([&]() { r = c.call_add(3, 4); }, true, "call", true); MC_REQUIRE(!k || r == 34, "wrong result"); MC_REQUIRE(v->st.add == (k ? 1 : 0), "executions %d", v->st.add); mc::outcome(k ? "ok" : "error"); }
    calm(); down(v);
  });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
