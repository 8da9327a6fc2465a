// C40: MessagePack RPC server life cycle
#include "mprpc.h"
static void finish(Server *v, const char *what) { MC_REQUIRE(!v->s->running(), "%s: running after stop", what); down(v); }
static void reg() {
  mprpc::socket::resolve("localhost", PORT);
  for (int n = 0; n <= 3; n++)
    mc::add("start_stop." + std::to_string(n), L(O(n < 3 ? 2 : 1, 0)), L(O(n < 3 ? 3 : 2, 0)), [=]() {
      Server *v = new Server(); MC_REQUIRE(!v->s->running(), "running before run"); MC_REQUIRE(!v->s->run(n, false) && !v->s->running(), "running without a socket");
      MC_REQUIRE(v->s->create(PORT), "create failed"); MC_REQUIRE(mc::net_listening(PORT), "not listening after create"); MC_REQUIRE(v->s->run(n, false), "run failed");
      MC_REQUIRE(v->s->running() && mc::net_listening(PORT), "not running after run"); MC_REQUIRE(!v->s->run(1, false), "ran twice");
      v->s->stop(); MC_REQUIRE(!v->s->running(), "running after stop"); v->s->join(); v->s->join(); v->s->stop(); MC_REQUIRE(!mc::net_listening(PORT), "still listening after stop");
      finish(v, "start/stop");
    });
  for (int n = 1; n <= 2; n++)
    mc::add("serv." + std::to_string(n), L(O(1, 0)), L(O(2, 0)), [=]() {
      Server *v = new Server(); bool sv = mc::choose(2); bool *ret = new bool(false); if (!sv) MC_REQUIRE(v->s->create(PORT), "create");
      mc::go([=]() { MC_REQUIRE(sv ? v->s->serv(PORT, n) : v->s->run(n), "serv failed"); *ret = true; });
      mc::wait_until([=]() { return mc::net_accepting(PORT) == n; }, "the server to accept"); MC_REQUIRE(v->s->running() && !*ret, "returned before the server was stopped");
      { calc_client c("localhost", PORT, 0); MC_REQUIRE(c.call_tick() == 1, "call"); }
      v->s->stop(); mc::join_all(); delete ret; finish(v, "serv");
    });
  mc::add("restart", L(O(1, 0)), L(O(2, 0)), []() {
    Server *v = new Server();
    for (int r = 0; r < 3; r++) {
      MC_REQUIRE(v->s->create(PORT + r % 2) && v->s->run(1 + r % 2, false) && v->s->running(), "start failed");
      { calc_client c("localhost", PORT + r % 2, 0); MC_REQUIRE(c.call_tick() == r + 1, "wrong result"); }
      v->s->stop(); v->s->join(); MC_REQUIRE(!v->s->running() && !mc::net_listening(PORT + r % 2), "not stopped"); MC_REQUIRE(!v->s->run(1, false), "runs without a port");
    }
    finish(v, "restart");
  });
  mc::add("create_twice", L(O(0, 0)), L(O(1, 0)), []() {
    Server *v = new Server(); MC_REQUIRE(v->s->create(PORT), "create"); bool other = mc::choose(2); MC_REQUIRE(v->s->create(PORT + other), "create again"); MC_REQUIRE(mc::net_listening(PORT + other) && (!other || !mc::net_listening(PORT)), "the old port is still open");
    MC_REQUIRE(v->s->run(1, false), "run"); { calc_client c("localhost", PORT + other, 0); MC_REQUIRE(c.call_tick() == 1, "call"); } v->s->stop(); v->s->join(); finish(v, "create twice");
  });
  mc::add("create_and_serv", L(O(0, 0)), L(O(1, 0)), []() {
    Server *v = new Server(); MC_REQUIRE(v->s->create(PORT), "create"); mc::go([=]() { MC_REQUIRE(v->s->serv(PORT + 1, 1), "serv"); });
    mc::wait_until([=]() { return mc::net_accepting(PORT + 1) == 1; }, "the server to accept"); MC_REQUIRE(!mc::net_listening(PORT), "the old port is still open");
    { calc_client c("localhost", PORT + 1, 0); MC_REQUIRE(c.call_tick() == 1, "call"); } v->s->stop(); mc::join_all(); finish(v, "create and serv");
  });
  mc::add("port_in_use", L(O(1, 0)), L(O(2, 0)), []() {
    int l = mc::net_listen(PORT); Server *v = new Server(); if (mc::choose(2)) { MC_REQUIRE(v->s->create(PORT + 1), "create on another port"); bool r = mc::choose(2) ? v->s->serv(PORT, 1) : v->s->create(PORT); MC_REQUIRE(!r && !v->s->running(), "started on a port that is in use"); v->s->stop(); v->s->join(); MC_REQUIRE(!mc::net_listening(PORT + 1), "the other port is still open"); }
    MC_REQUIRE(mc::choose(2) ? !v->s->create(PORT) : !v->s->serv(PORT, 1), "started on a port that is in use");
    MC_REQUIRE(!v->s->running() && !v->s->run(1, false), "running after a failed start"); v->s->stop(); v->s->join(); mc::net_close(l); finish(v, "port in use");
  });
  mc::add("destroyed", L(O(0, 0)), L(O(1, 0)), []() { Server *v = new Server(); int k = mc::choose(3); if (k) MC_REQUIRE(v->s->create(PORT), "create"); if (k == 2) { MC_REQUIRE(v->s->run(1, false), "run"); v->s->stop(); v->s->join(); } delete v->s; delete v; MC_REQUIRE(mc::net_stat().open_fds == 0 && mc::net_stat().listeners == 0, "descriptors left"); });
  // threads that cannot be created
  for (int n = 1; n <= 3; n++)
    mc::add("create_fails." + std::to_string(n), L(O(1, 0, 0, false, 2)), L(O(2, 0, 0, false, 4)), [=]() {
      Server *v = new Server(); mc::net.create_fail = true; MC_REQUIRE(v->s->create(PORT), "create"); bool r = v->s->run(n, false); mc::net.create_fail = false; mc::outcome(r ? "ran" : "failed");
      if (r) { calc_client c("localhost", PORT, 0); MC_REQUIRE(c.call_tick() == 1, "wrong result"); } else { MC_REQUIRE(!v->s->running() && !mc::net_listening(PORT), "half running after a failed run"); MC_REQUIRE(mc::unfinished() == 0, "threads of a server that could not be started still run"); }
      v->s->stop(); v->s->join();
      MC_REQUIRE(v->s->create(PORT) && v->s->run(1, false), "cannot be started afterwards"); { calc_client c("localhost", PORT, 0); MC_REQUIRE(c.call_add(1, 1) == 11, "wrong result"); } v->s->stop(); v->s->join(); finish(v, "thread creation fails");
    });
  // a client that is busy calling while the server is stopped
  for (int n = 1; n <= 2; n++)
    mc::add("client_vs_stop." + std::to_string(n), n == 2 ? D(L(O(2, 0))) : L(O(1, 0)), n == 2 ? D(L(O(3, 0))) : L(O(2, 0)), [=]() {
      Server *v = new Server(); up(v, n); int *ok = new int(0), *bad = new int(0);
      mc::go([=]() { for (int i = 0; i < 2; i++) { calc_client c("localhost", PORT, 0); try { int r = c.call_add(3, i); MC_REQUIRE(r == 30 + i, "wrong result %d", r); ++*ok; } catch (const rpc_error &) { ++*bad; } } });
      v->s->stop(); v->s->join(); mc::join_all();
      MC_REQUIRE(v->st.add >= *ok && v->st.add <= 2, "%d calls succeeded, %d were executed", *ok, v->st.add); mc::outcome(std::to_string(*ok)); delete ok; delete bad; finish(v, "client");
    });
  // the call in progress is answered; then the connection ends
  mc::add("stop_during_call", L(O(1, 0)), L(O(2, 0)), []() {
    Server *v = new Server(); bool *in = new bool(false), *out = new bool(false); v->s->set_tick([=]() { mc::quiet(true); *in = true; mc::quiet(false); mc::wait_until([=]() { return *out; }, "permission to return"); return 5; }); up(v, 1);
    mc::go([=]() { calc_client c("localhost", PORT, 0); int r = 0; attempt([&]() { r = c.call_tick(); }, false, "the call in progress"); MC_REQUIRE(r == 5, "wrong result"); bool k = attempt([&]() { c.call_add(1, 1); }, true, "later call"); MC_REQUIRE(!k, "served after stop"); });
    mc::wait_until([=]() { return *in; }, "the method to run"); v->s->stop(); mc::quiet(true); *out = true; mc::quiet(false); v->s->join(); mc::join_all(); delete in; delete out; finish(v, "stop during a call");
  });
  // stop called by a method running on the server
  for (int n = 1; n <= 2; n++)
    mc::add("stop_from_method." + std::to_string(n), L(O(1, 0)), L(O(2, 0)), [=]() {
      Server *v = new Server(); calc_server *s = v->s; s->set_tick([s]() { s->stop(); return 5; }); up(v, n);
      mc::go([=]() { calc_client c("localhost", PORT, 0); MC_REQUIRE(c.call_tick() == 5, "result of the stopping method"); });
      s->join(); mc::join_all(); finish(v, "stop from a method");
    });
  // idle clients: the server stops once they are gone or have timed out
  mc::add("idle_client", L(O(1, 0)), L(O(2, 0)), []() {
    Server *v = new Server(); up(v, 2); calc_client *c = new calc_client("localhost", PORT, 0); MC_REQUIRE(c->call_tick() == 1, "call"); v->s->stop(); delete c; v->s->join(); finish(v, "idle client");
  });
  mc::add("timeout_client", L(O(1, 1)), L(O(2, 1)), []() {
    Server *v = new Server(2.0); up(v, 1); int fd = mc::net_connect(PORT); MC_REQUIRE(fd >= 0, "connect"); mc::go([=]() { mc::net_recv_all(fd); });
    v->s->stop(); v->s->join(); mc::join_all(); mc::net_close(fd); finish(v, "timeout");
  });
  // environment faults while starting
  for (int how = 0; how < 2; how++)
    mc::add(how ? "serv_fault" : "start_fault", L(O(1, 0, 0, false, 1)), L(O(2, 0, 0, false, 2)), [=]() {
      Server *v = new Server(); mc::net.opt_fail = mc::net.socket_fail = true; bool r = false; bool *done = new bool(false);
      if (how == 0) { r = v->s->create(PORT); calm(); MC_REQUIRE(r == mc::net_listening(PORT), "create returned %d", r); if (r) MC_REQUIRE(v->s->run(1, false), "run"); else MC_REQUIRE(!v->s->run(1, false), "ran although create failed"); mc::outcome(r ? "started" : "failed"); v->s->stop(); }
      else { mc::go([=]() { bool r = v->s->serv(PORT, 1); mc::outcome(r ? "started" : "failed"); mc::quiet(true); *done = true; mc::quiet(false); }); mc::wait_until([=]() { return *done || mc::net_accepting(PORT) == 1; }, "up"); calm(); v->s->stop(); mc::join_all(); }
      v->s->join(); delete done; MC_REQUIRE(v->s->create(PORT) && v->s->run(1, false), "cannot be started afterwards"); { calc_client c("localhost", PORT, 0); MC_REQUIRE(c.call_add(1, 1) == 11, "wrong result"); } v->s->stop(); v->s->join(); finish(v, "fault while starting");
    });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
