// C09: RPC server start / stop / wait life cycle
#include "rpc.h"
static void finish(Server *v, const char *what) {
  MC_REQUIRE(v->s->is_stopped() && !v->s->is_running() && !v->s->is_stopping(), "%s: the server is not in the stopped state after wait_until_stopped", what);
  delete v->s; delete v;
  MC_REQUIRE(mc::unreaped() == 0, "a server thread was neither joined nor detached");
  auto st = mc::net_stat();
  MC_REQUIRE(st.listeners == 0, "the port is still open after the server is gone");
  MC_REQUIRE(st.open_fds == 0, "%d descriptors leaked", st.open_fds);
  MC_REQUIRE(st.bad_closes == 0, "a descriptor was closed twice");
}
static void settle(int n) { mc::wait_until([=]() { return mc::net_accepting(PORT) == n; }, "server threads to accept"); }
static void reg() {
  { stream_socket warm; }
  for (int n = 1; n <= 3; n++)
    mc::add("start_stop." + std::to_string(n), L(O(n < 3 ? 2 : 1, 0)), L(O(n < 3 ? 3 : 2, 0)), [=]() {
      init(); Server *v = new Server();
      MC_REQUIRE(v->s->is_stopped() && !v->s->is_running() && !v->s->is_stopping(), "initial state");
      v->s->stop(); v->s->wait_until_stopped();   // no effect on a server that does not run
      MC_REQUIRE(v->s->start(PORT, n), "start failed");
      MC_REQUIRE(v->s->is_running() && v->s->port() == PORT && mc::net_listening(PORT), "not running after start");
      v->s->stop();
      MC_REQUIRE(!v->s->is_running(), "running after stop");
      v->s->wait_until_stopped();
      finish(v, "start/stop");
    });
  for (int w = 1; w <= 2; w++)
    for (int n = 1; n <= 2; n++)
      mc::add("waiters" + std::to_string(w) + "." + std::to_string(n), L(O(w + n > 3 ? 0 : 1, 0)), L(O(w + n > 3 ? 1 : 2, 0)), [=]() {
        init(); Server *v = new Server();
        MC_REQUIRE(v->s->start(PORT, n), "start failed"); if (w + n > 3) settle(n);
        for (int i = 0; i < w; i++) mc::go([=]() { v->s->wait_until_stopped(); MC_REQUIRE(!v->s->is_running(), "wait_until_stopped returned while running"); });
        v->s->stop();
        mc::join_all();
        finish(v, "waiters");
      });
  for (int n = 1; n <= 2; n++) mc::add("stop_twice." + std::to_string(n), L(O(n == 2 ? 0 : 1, 0)), L(O(n == 2 ? 1 : 2, 0)), [=]() {
    init(); Server *v = new Server(); MC_REQUIRE(v->s->start(PORT, n), "start failed");
    if (n == 2) settle(n);
    mc::go([=]() { v->s->stop(); }); mc::go([=]() { v->s->stop(); });
    v->s->wait_until_stopped(); mc::join_all(); v->s->stop();
    finish(v, "stop twice");
  });
  mc::add("serv", L(O(1, 0)), L(O(2, 0)), []() {
    init(); Server *v = new Server(); int n = 1 + mc::choose(2);
    mc::go([=]() { MC_REQUIRE(v->s->serv(PORT, n), "serv failed"); MC_REQUIRE(v->s->is_stopped(), "serv returned before the server stopped"); });
    while (!v->s->is_running()) { pfi::concurrent::thread::yield(); }
    v->s->stop(); mc::join_all();
    finish(v, "serv");
  });
  mc::add("restart", L(O(1, 0)), L(O(2, 0)), []() {
    init(); Server *v = new Server();
    for (int r = 0; r < 2; r++) {
      MC_REQUIRE(v->s->start(PORT + r, 1 + r), "start failed"); MC_REQUIRE(v->s->is_running() && v->s->port() == PORT + r, "not running");
      { calc_client c("localhost", PORT + r); MC_REQUIRE(c.call_add(1, 2) == 12, "wrong result"); }
      v->s->stop(); v->s->wait_until_stopped(); MC_REQUIRE(v->s->is_stopped(), "not stopped");
    }
    finish(v, "restart");
  });
  mc::add("no_threads", L(O(1, 0)), L(O(2, 0)), []() {
    init(); Server *v = new Server(); MC_REQUIRE(v->s->start(PORT, 0) && v->s->is_running(), "start failed");
    mc::go([=]() { v->s->wait_until_stopped(); }); v->s->stop(); v->s->wait_until_stopped(); mc::join_all(); finish(v, "no threads");
  });
  mc::add("ephemeral", L(O(1, 0)), L(O(2, 0)), []() {
    init(); Server *v = new Server(); MC_REQUIRE(v->s->start(0, 1), "start failed"); uint16_t p = v->s->port();
    MC_REQUIRE(p != 0 && mc::net_listening(p), "port() does not name the port in use");
    { calc_client c("localhost", p); MC_REQUIRE(c.call_tick() == 1, "wrong result"); }
    v->s->stop(); v->s->wait_until_stopped(); finish(v, "ephemeral");
  });
  mc::add("port_in_use", L(O(1, 0)), L(O(2, 0)), []() {
    init(); int l = mc::net_listen(PORT); Server *v = new Server();
    MC_REQUIRE(mc::choose(2) ? !v->s->start(PORT, 1) : !v->s->serv(PORT, 1), "started on a port that is in use");
    MC_REQUIRE(v->s->is_stopped(), "state after a failed start"); v->s->stop(); v->s->wait_until_stopped();
    mc::net_close(l); finish(v, "port in use");
  });
  // threads that cannot be created
  for (int sv = 0; sv < 2; sv++)
    mc::add(sv ? "create_fails.serv" : "create_fails.start", L(O(1, 0, 0, false, 3)), L(O(2, 0, 0, false, 6)), [=]() {
      init(); Server *v = new Server(); int n = 1 + mc::choose(2); mc::net.create_fail = true;
      if (sv) { mc::go([=]() { bool r = v->s->serv(PORT, n); if (r) MC_REQUIRE(v->s->is_stopped(), "serv returned before the server stopped"); mc::outcome(r ? "ran" : "failed"); });
        mc::wait_until([=]() { return mc::unfinished() == 0 || mc::net_accepting(PORT) == n; }, "the server to run or fail"); v->s->stop(); mc::join_all(); v->s->wait_until_stopped(); }
      else { bool r = v->s->start(PORT, n); if (r) { calc_client c("localhost", PORT); MC_REQUIRE(c.call_tick() == 1, "wrong result"); } if (r) mc::wait_until([=]() { return mc::net_accepting(PORT) == n; }, "all threads of a server that started to accept"); v->s->stop(); v->s->wait_until_stopped(); mc::outcome(r ? "ran" : "failed"); }
      mc::net.create_fail = false; finish(v, "thread creation fails");
    });
  // a client that is busy calling while the server is stopped
  for (int n = 1; n <= 2; n++)
    mc::add("client_vs_stop." + std::to_string(n), n == 2 ? D(L(O(2, 0))) : L(O(1, 0)), n == 2 ? D(L(O(3, 0))) : L(O(2, 0)), [=]() {
      init(); Server *v = new Server(); MC_REQUIRE(v->s->start(PORT, n), "start failed"); int *ok = new int(0), *bad = new int(0); if (n == 2) settle(n);
      mc::go([=]() {
        for (int i = 0; i < 2; i++) {
          calc_client c("localhost", PORT);
          try { int r = c.call_add(3, i); MC_REQUIRE(r == 30 + i, "wrong result %d", r); ++*ok; } catch (const rpc_error &) { ++*bad; }
        }
      });
      v->s->stop(); v->s->wait_until_stopped(); mc::join_all();
      MC_REQUIRE(v->st.add >= *ok && v->st.add <= 2, "%d calls succeeded, %d were executed", *ok, v->st.add);
      mc::outcome(std::to_string(*ok)); delete ok; delete bad;
      finish(v, "client");
    });
  // the server waits for a connected client, but its free threads end at once
  mc::add("idle_client", L(O(1, 0)), L(O(2, 0)), []() {
    init(); Server *v = new Server(); MC_REQUIRE(v->s->start(PORT, 2), "start failed");
    calc_client *c = new calc_client("localhost", PORT); MC_REQUIRE(c->call_tick() == 1, "call");
    v->s->stop();
    MC_REQUIRE(v->s->is_stopping() , "expected: stopping while a client is connected");
    MC_REQUIRE(c->call_tick() == 2, "a connected client is served until it disconnects");
    delete c; v->s->wait_until_stopped(); finish(v, "idle client");
  });
  // stop called by a method running on the server
  for (int n = 1; n <= 2; n++)
    mc::add("stop_from_method." + std::to_string(n), L(O(1, 0)), L(O(2, 0)), [=]() {
      init(); Server *v = new Server(); calc_server *s = v->s; s->set_tick([s]() { s->stop(); return 5; });
      MC_REQUIRE(s->start(PORT, n), "start failed");
      mc::go([=]() { calc_client c("localhost", PORT); MC_REQUIRE(c.call_tick() == 5, "result of the stopping method"); });
      s->wait_until_stopped(); mc::join_all(); finish(v, "stop from a method");
    });
  // silent clients are dropped after the time-out, so that the server can stop
  mc::add("timeout_client", L(O(1, 1)), L(O(2, 1)), []() {
    init(); Server *v = new Server(2.0); MC_REQUIRE(v->s->start(PORT, 1), "start failed");
    int fd = mc::net_connect(PORT); MC_REQUIRE(fd >= 0, "connect");
    mc::go([=]() { mc::net_recv_all(fd); });
    v->s->stop(); v->s->wait_until_stopped(); mc::join_all(); mc::net_close(fd); finish(v, "timeout");
  });
  mc::add("timeout_stop", L(O(1, 1)), L(O(1, 2)), []() {
    init(); Server *v = new Server(2.0); MC_REQUIRE(v->s->start(PORT, 2), "start failed"); settle(2);
    v->s->stop(); v->s->wait_until_stopped(); finish(v, "stop with a time-out");
  });
  // a connection that cannot be set up does not cost a server thread
  for (int n = 1; n <= 2; n++) mc::add("setup_fault." + std::to_string(n), L(O(0, 0, 0, false, 2)), L(O(1, 0, 0, false, 3)), [=]() {
    init(); Server *v = new Server(2.0); if (!v->s->start(PORT, n)) { v->s->stop(); v->s->wait_until_stopped(); finish(v, "thread that cannot be started"); return; } settle(n);
    for (int k = 0; k < 2; k++) { mc::net.opt_fail = true; int fd = mc::net_connect(PORT); MC_REQUIRE(fd >= 0, "connect"); mc::net_recv_all(fd); mc::net.opt_fail = false; mc::net_close(fd); settle(n); MC_REQUIRE(v->s->is_running(), "the server stopped by itself"); }
    { calc_client c("localhost", PORT); MC_REQUIRE(c.call_tick() == 1, "call"); }
    v->s->stop(); v->s->wait_until_stopped(); finish(v, "connection that cannot be set up");
  });
  // environment faults while starting
  for (int how = 0; how < 2; how++)
    for (int n = 1; n <= 3; n++)
      mc::add(S(how ? "serv_fault." : "start_fault.") + std::to_string(n), L(O(how && n == 3 ? 0 : 1, 0, 0, false, 1)), L(O(2, 0, 0, false, 2)), [=]() {
        init(); Server *v = new Server(); mc::net.opt_fail = mc::net.socket_fail = true;
        if (how == 0) {
          bool r = v->s->start(PORT, n); mc::net = mc::NetCfg();
          if (r) MC_REQUIRE(v->s->is_running(), "not running after start"); 
          mc::outcome(r ? "started" : "failed");
          v->s->stop(); v->s->wait_until_stopped(); MC_REQUIRE(v->s->is_stopped(), "not stopped");
        } else {
          bool *done = new bool(false);
          mc::go([=]() { bool r = v->s->serv(PORT, n); mc::outcome(r ? "started" : "failed"); mc::quiet(true); *done = true; mc::quiet(false); });
          mc::wait_until([=]() { return *done || mc::net_listening(PORT); }, "up");
          while (!*done && !v->s->is_running()) pfi::concurrent::thread::yield();
          mc::net = mc::NetCfg();
          v->s->stop(); mc::join_all(); v->s->stop(); v->s->wait_until_stopped(); delete done;
        }
        finish(v, "fault while starting");
      });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
