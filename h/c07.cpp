// C07: thread life cycle, sleep/yield/id, singleton
#include "conc.h"
#include <lang/singleton.h>
typedef pfi::concurrent::thread Th;
struct Shared { long begun, ended, alive, seen; bool gate; };
struct Fn {
  Shared *s;
  explicit Fn(Shared *s) : s(s) { mc::quiet(true); s->alive++; mc::quiet(false); }
  Fn(const Fn &o) : s(o.s) { mc::quiet(true); s->alive++; mc::quiet(false); }
  ~Fn() { mc::quiet(true); s->alive--; mc::quiet(false); }
  void operator()() {
    mc::quiet(true); s->begun++; mc::quiet(false);
    mc::point("body");
    mc::quiet(true); s->ended++; mc::quiet(false);
  }
};
// Every sequence of start/join/detach against the running-flag model
static void lifecycle(int len, bool faults) {
  mc::quiet(true); Shared *s = new Shared(); mc::quiet(false);
  int ops[8]; std::string seqs;
  for (int i = 0; i < len; i++) ops[i] = mc::choose(3);
  Th *t;
  { Fn f(s); t = new Th(f); }
  bool running = false; int starts = 0, dets = 0;
  for (int i = 0; i < len; i++) {
    seqs += "sjd"[ops[i]];
    if (ops[i] == 0) {
      bool r = t->start();
      if (running) MC_REQUIRE(!r, "start succeeded on a thread that was already running (ops %s)", seqs.c_str());
      else if (!faults) MC_REQUIRE(r, "start failed although thread creation did not (ops %s)", seqs.c_str());
      if (r) { running = true; starts++; }
    } else if (ops[i] == 1) {
      int e0;
      bool r = t->join();
      mc::quiet(true); e0 = s->ended; int b0 = s->begun; mc::quiet(false);
      MC_REQUIRE(r == running, "join returned %d, expected %d (ops %s)", r, running, seqs.c_str());
      if (r) { MC_REQUIRE(e0 >= starts - dets && b0 <= starts, "join returned before the function did (ops %s)", seqs.c_str());
        running = false; }
    } else { t->detach(); if (running) dets++; running = false; }
  }
  delete t;
  mc::wait_until([=]() { return s->ended >= starts && mc::unfinished() == 0; }, "all started runs");
  MC_REQUIRE(s->begun == starts && s->ended == starts, "%d successful starts but the function ran %ld times (ops %s)", starts, s->begun, seqs.c_str());
  MC_REQUIRE(s->alive == 0, "%ld copies of the function object were not released (ops %s)", s->alive, seqs.c_str());
  MC_REQUIRE(mc::unreaped() == 0, "a thread was neither joined nor detached (ops %s)", seqs.c_str());
  mc::outcome(seqs + std::to_string(starts));
  mc::quiet(true); delete s; mc::quiet(false);
}
struct Single { static int built; static bool fail_next; static bool done; long v;
  Single() { mc::point("constructing"); mc::quiet(true); built++; bool f = fail_next; fail_next = false; mc::quiet(false); if (f) throw 1; v = 7; mc::point("constructed"); } };
int Single::built = 0; bool Single::fail_next = false;
struct Other { long v; Other() : v(9) {} };
static Opts F(Opts o) { o.forkexec = true; return o; }
static void reg() {
  for (int len = 1; len <= 6; len++)
    mc::add("seq" + std::to_string(len), O(len <= 5 ? 3 : 2, 0, 0), O(5, 0, 0), [=]() { lifecycle(len, false); });
  for (int len = 1; len <= 6; len++)
    mc::add("seqfault" + std::to_string(len), O(2, 0, 0, false, 2), O(4, 0, 0, false, 4), [=]() { lifecycle(len, true); });
  mc::add("create_fails", O(1, 0, 0, false, 3), O(2, 0, 0, false, 4), []() {
    // a failed start leaves the object startable; it succeeds exactly when creation does
    mc::quiet(true); Shared *s = new Shared(); mc::quiet(false);
    Th *t; { Fn f(s); t = new Th(f); }
    int n = 0; while (!t->start()) { n++; MC_REQUIRE(!t->join(), "join succeeded although start failed"); t->detach(); MC_REQUIRE(n < 6, "start never succeeds"); }
    MC_REQUIRE(t->join() && s->ended == 1, "function ran %ld times", s->ended);
    delete t; MC_REQUIRE(s->alive == 0, "function object leaked");
    mc::outcome(std::to_string(n));
    mc::quiet(true); delete s; mc::quiet(false);
  });
  mc::add("empty_function", O(1), O(2), []() {
    pfi::lang::function<void()> f; Th t(f);
    MC_REQUIRE(!t.start() && !t.join(), "an empty function was started"); t.detach();
    MC_REQUIRE(!t.start(), "an empty function was started");
  });
  mc::add("two_threads", O(4, 0, 0), O(6, 0, 0), []() {
    long *x = new long[2]; x[0] = x[1] = 0; Th::tid_t *ids = new Th::tid_t[2];
    pfi::lang::function<void()> f0 = [=]() { ids[0] = Th::id(); x[0] = 1; mc::point("w"); x[0] = 2; if (Th::id() != ids[0]) x[0] = -1; };
    pfi::lang::function<void()> f1 = [=]() { ids[1] = Th::id(); x[1] = 1; mc::point("w"); x[1] = 2; };
    Th *a = new Th(f0), *b = new Th(f1);
    f0 = f1; f1 = pfi::lang::function<void()>();   // the thread owns a copy
    Th::tid_t me = Th::id();
    MC_REQUIRE(a->start() && b->start(), "start failed");
    MC_REQUIRE(b->join() && x[1] == 2, "join returned before the function's effects were visible: %ld", x[1]);
    MC_REQUIRE(a->join() && x[0] == 2, "join returned before the function's effects were visible: %ld", x[0]);
    MC_REQUIRE(ids[0] != ids[1] && ids[0] != me && ids[1] != me && Th::id() == me, "thread ids are not distinct");
    MC_REQUIRE(!a->join(), "second join succeeded");
    delete a; delete b; delete[] x; delete[] ids;
  });
  mc::add("join_waits", O(4, 0, 0), O(4, 0, 0), []() {
    // join must not return while the function waits for something a third thread does
    long *x = new long[2]; x[0] = x[1] = 0;
    Th *a = new Th([=]() { mc::wait_until([=]() { return x[0] == 1; }, "gate"); mc::quiet(true); x[1] = 1; mc::quiet(false); });
    MC_REQUIRE(a->start(), "start");
    mc::go([=]() { mc::point("p"); mc::quiet(true); x[0] = 1; mc::quiet(false); });
    MC_REQUIRE(a->join() && x[1] == 1, "join returned early");
    delete a; mc::join_all(); delete[] x;
  });
  // a thread cannot join itself, and the attempt does not spoil the join by its owner
  mc::add("self_join", O(3, 0, 0), O(4, 0, 0), []() {
    long *x = new long[4](); Th **p = new Th *(0); bool det = mc::choose(2);
    *p = new Th([=]() { mc::wait_until([=]() { return x[0] == 1; }, "gate"); bool r = (*p)->join(); mc::quiet(true); x[1] = r; x[2]++; mc::quiet(false); if (mc::choose(2)) { r = (*p)->start(); mc::quiet(true); x[3] = r; mc::quiet(false); } mc::quiet(true); x[0] = 2; mc::quiet(false); });
    MC_REQUIRE((*p)->start(), "start"); mc::quiet(true); x[0] = 1; mc::quiet(false); mc::wait_until([=]() { return x[0] == 2; }, "done");
    MC_REQUIRE(!x[1], "a thread joined itself"); MC_REQUIRE(!x[3], "a running thread was started again");
    if (det) (*p)->detach(); else MC_REQUIRE((*p)->join(), "join by the owner failed after a thread tried to join itself");
    delete *p; mc::wait_until([=]() { return mc::unfinished() == 0; }, "end"); MC_REQUIRE(x[2] == 1, "ran %ld times", x[2]); MC_REQUIRE(mc::unreaped() == 0, "a thread was neither joined nor detached"); delete p; delete[] x;
  });
  mc::add("detached_outlives", O(4, 0, 0), O(4, 0, 0), []() {
    mc::quiet(true); Shared *s = new Shared(); mc::quiet(false);
    { Th t((Fn(s))); MC_REQUIRE(t.start(), "start"); if (mc::choose(2)) t.detach(); }
    mc::wait_until([=]() { return mc::unfinished() == 0; }, "detached thread");
    MC_REQUIRE(s->ended == 1 && s->alive == 0, "ended=%ld alive=%ld", s->ended, s->alive);
    mc::quiet(true); delete s; mc::quiet(false);
  });
  mc::add("yield", O(1, 0, 0), O(2, 0, 0), []() {
    volatile int *x = new int(0);
    Th *a = new Th([=]() { *x = 1; });
    MC_REQUIRE(a->start(), "start");
    while (!*x) Th::yield();
    MC_REQUIRE(a->join(), "join"); delete a; delete x;
  });
  mc::add("sleep", O(0), O(0), []() {
    static const double v[] = {0, 1e-9, 0.001, 0.25, 0.5, 0.999999999, 1, 1.5, 2.75, 59.125, 3600.5, -1, -0.5, 5e-7, 0.1234567, 1e-5, 1.000000125, 86400};
    double s = v[mc::choose(18)]; double t0 = mc::now();
    bool r = Th::sleep(s); double dt = mc::now() - t0;
    MC_REQUIRE(r, "sleep(%g) failed", s);
    MC_REQUIRE(dt >= s - 1e-8 && dt <= (s > 0 ? s : 0) + 1e-3, "sleep(%g) took %g", s, dt);
  });
  mc::add("sleep_interrupted", O(0, 1, 0, false, 1), O(0, 1, 0, false, 1), []() {
    double s = 0.5 + mc::choose(3); double t0 = mc::now();
    bool r = Th::sleep(s); double dt = mc::now() - t0;
    MC_REQUIRE(!r || dt >= s - 1e-8, "sleep(%g) claims to have slept but took %g", s, dt);
    mc::outcome(r ? "full" : "interrupted");
  });
  for (int n = 2; n <= 3; n++)
    mc::add("singleton" + std::to_string(n), F(O(n == 2 ? 3 : 2, 0, 0)), F(O(n == 2 ? 5 : 3, 0, 0)), [=]() {
      Single **p = new Single *[4](); long *v = new long[4]();
      for (int i = 0; i < n; i++) mc::go([=]() { p[i] = &pfi::lang::singleton<Single>::instance(); v[i] = p[i]->v; });
      mc::join_all();
      for (int i = 0; i < n; i++) { MC_REQUIRE(p[i] == p[0], "two instances exist"); MC_REQUIRE(v[i] == 7, "an instance was visible before it was constructed"); }
      MC_REQUIRE(Single::built == 1, "constructed %d times", Single::built);
      MC_REQUIRE(pfi::lang::singleton<Other>::instance().v == 9 && (void *)&pfi::lang::singleton<Other>::instance() != (void *)p[0], "singletons of different types are mixed up");
    });
  mc::add("singleton_throw", F(O(3, 0, 0)), F(O(5, 0, 0)), []() {
    // a constructor that throws leaves no instance; a later caller constructs it
    Single::fail_next = true; int *bad = new int[2](); long *v = new long[2]();
    for (int i = 0; i < 2; i++) mc::go([=]() { try { v[i] = pfi::lang::singleton<Single>::instance().v; } catch (int) { bad[i] = 1; } });
    mc::join_all();
    MC_REQUIRE(bad[0] + bad[1] == 1, "exactly one caller sees the exception (%d)", bad[0] + bad[1]);
    MC_REQUIRE(v[bad[0] ? 1 : 0] == 7 && Single::built == 2, "v=%ld built=%d", v[bad[0] ? 1 : 0], Single::built);
  });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
