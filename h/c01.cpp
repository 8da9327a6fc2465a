// C01: mutex / r_mutex / condition
#include "conc.h"

template <class M> struct Cs {
  M m; int inside; long data; int owner;
  Cs() : inside(0), data(0), owner(-1) {}
};
#define ENTER(c) do { mc::quiet(true); int n_ = ++(c)->inside; mc::quiet(false); MC_REQUIRE(n_ == 1, "%d threads inside the critical section", n_); } while (0)
#define LEAVE(c) do { mc::quiet(true); --(c)->inside; mc::quiet(false); } while (0)

template <class M> static void use(Cs<M> *c, int style) {
  switch (style) {
    case 0: {
      MC_REQUIRE(c->m.lock(), "lock() failed");
      ENTER(c); long v = c->data; mc::point("cs"); c->data = v + 1; LEAVE(c);
      MC_REQUIRE(c->m.unlock(), "unlock() by the holder failed");
      break;
    }
    case 1: {
      scoped_lock lk(c->m);
      MC_REQUIRE(lk.locked() && lk, "scoped_lock did not lock");
      ENTER(c); long v = c->data; mc::point("cs"); c->data = v + 1; LEAVE(c);
      break;
    }
    default: {
      bool in = false;
      synchronized(c->m) { in = true; ENTER(c); long v = c->data; mc::point("cs"); c->data = v + 1; LEAVE(c); }
      MC_REQUIRE(in, "synchronized block was skipped");
    }
  }
}
template <class M> static void excl(int threads, int rounds) {
  Cs<M> *c = new Cs<M>;
  int style = mc::choose(3);
  for (int i = 0; i < threads; i++) mc::go([=]() { for (int r = 0; r < rounds; r++) use(c, (style + i) % 3); });
  mc::join_all();
  MC_REQUIRE(c->data == threads * rounds, "lost update: %ld of %d increments made under the lock survived", c->data, threads * rounds);
  // the lock must be free again
  MC_REQUIRE(c->m.lock() && c->m.unlock(), "lock not free at the end");
  delete c;
}

// recursive mutex: thread 0 nests to depth d (and unlocks step by step), others contend
static void recur(int depth, bool foreign_unlock) {
  Cs<r_mutex> *c = new Cs<r_mutex>;
  mc::go([=]() {
    for (int i = 0; i < depth; i++) MC_REQUIRE(c->m.lock(), "nested lock %d failed", i);
    ENTER(c);
    long v = c->data; mc::point("cs"); c->data = v + 1;
    for (int i = 0; i + 1 < depth; i++) {
      MC_REQUIRE(c->m.unlock(), "unlock %d of %d failed", i, depth);
      mc::point("still inside");
    }
    LEAVE(c);
    MC_REQUIRE(c->m.unlock(), "last unlock failed");
  });
  for (int k = 0; k < 2; k++) mc::go([=]() {
    if (foreign_unlock && k == 1) {
      // not the holder: must be refused and must not release the lock
      MC_REQUIRE(!c->m.unlock(), "unlock() by a thread that does not hold the mutex succeeded");
      return;
    }
    MC_REQUIRE(c->m.lock(), "lock failed");
    MC_REQUIRE(c->m.lock(), "second lock failed");
    ENTER(c); long v = c->data; mc::point("cs"); c->data = v + 1; LEAVE(c);
    MC_REQUIRE(c->m.unlock() && c->m.unlock(), "unlock failed");
    MC_REQUIRE(!c->m.unlock(), "one unlock too many was accepted");
  });
  mc::join_all();
  MC_REQUIRE(c->data == (foreign_unlock ? 2 : 3), "lost update under the recursive mutex");
  MC_REQUIRE(c->m.lock() && c->m.unlock(), "lock not free at the end");
  delete c;
}

// condition: wait until a flag is set; no wakeup may be lost
template <class M> struct Cv { M m; condition c; int flag, inside, woken; long data; Cv() : flag(0), inside(0), woken(0), data(0) {} };

template <class M> static void waiter(Cv<M> *c, int depth, double sec, int need) {
  for (int i = 0; i < depth; i++) MC_REQUIRE(c->m.lock(), "lock failed");
  ENTER(c);
  double t0 = mc::now();
  bool gave_up = false;
  while (c->flag < need) {
    LEAVE(c);
    bool r = true;
    double w0 = mc::now();
    if (sec < 0) c->c.wait(c->m);
    else r = c->c.wait(c->m, sec);
    ENTER(c);  // the mutex is held again, whatever the reason for returning
    if (sec >= 0 && !r) {
      MC_REQUIRE(mc::now() - w0 > sec - 1e-4, "timed wait of %g s reported a timeout after %g s", sec, mc::now() - w0);
      gave_up = true;
      break;
    }
  }
  (void)t0;
  if (!gave_up) { c->flag -= need; c->woken++; }
  long v = c->data; mc::point("cs"); c->data = v + 1;
  for (int i = 0; i + 1 < depth; i++) { MC_REQUIRE(c->m.unlock(), "unlock after wait failed"); mc::point("nested"); }
  LEAVE(c);
  MC_REQUIRE(c->m.unlock(), "unlock after wait failed");
}
template <class M> static void cond(int waiters, int depth, double sec, bool all, bool under_lock) {
  Cv<M> *c = new Cv<M>;
  for (int i = 0; i < waiters; i++) mc::go([=]() { waiter(c, depth, sec, 1); });
  mc::go([=]() {
    for (int i = 0; i < (all ? 1 : waiters); i++) {
      MC_REQUIRE(c->m.lock(), "lock failed");
      ENTER(c); long v = c->data; c->flag += all ? waiters : 1; mc::point("cs"); c->data = v + 1; LEAVE(c);
      if (under_lock) { if (all) c->c.notify_all(); else c->c.notify(); }
      MC_REQUIRE(c->m.unlock(), "unlock failed");
      if (!under_lock) { if (all) c->c.notify_all(); else c->c.notify(); }
    }
  });
  mc::join_all();
  MC_REQUIRE(sec >= 0 || c->woken == waiters, "not every waiter was woken");
  MC_REQUIRE(c->data == waiters + (all ? 1 : waiters), "lost update around condition wait");
  mc::outcome(std::to_string(c->woken));
  delete c;
}
// a timed wait that nobody notifies ends; a notified wait returns true
static void timed_alone(double sec) {
  odd_clock();
  Cv<mutex> *c = new Cv<mutex>;
  MC_REQUIRE(c->m.lock(), "lock");
  double w0 = mc::now();
  bool r = c->c.wait(c->m, sec);
  MC_REQUIRE(!r, "timed wait reported a notification although nobody notified");
  MC_REQUIRE(mc::now() - w0 > sec - 1e-4 && mc::now() - w0 < sec + 1e-3, "timed wait of %g s ended after %g s", sec, mc::now() - w0);
  MC_REQUIRE(c->m.unlock(), "unlock");
  delete c;
}
static void notified_true() {
  Cv<mutex> *c = new Cv<mutex>;
  mc::go([=]() {
    c->m.lock();
    bool r = true;
    double w0 = mc::now();
    while (!c->flag && r) r = c->c.wait(c->m, 5.0);
    MC_REQUIRE(r || mc::now() - w0 > 4.99, "timed wait gave up early although no time passed");
    MC_REQUIRE(c->m.unlock(), "unlock");
  });
  mc::go([=]() { c->m.lock(); c->flag = 1; c->c.notify(); c->m.unlock(); });
  mc::join_all();
  delete c;
}
// waiting without holding the mutex does not block
static void not_holder() {
  Cv<r_mutex> *c = new Cv<r_mutex>;
  c->c.wait(c->m);
  MC_REQUIRE(!c->c.wait(c->m, 1.0), "timed wait without holding the mutex reported a notification");
  MC_REQUIRE(c->m.lock() && c->m.unlock(), "the mutex was disturbed");
  delete c;
}
// a nesting of any depth is undone step by step, a condition wait inside it included
static void deep(int d, bool wait) {
  Cv<r_mutex> *c = new Cv<r_mutex>; odd_clock();
  for (int i = 0; i < d; i++) MC_REQUIRE(c->m.lock(), "nested lock %d failed", i);
  if (wait) MC_REQUIRE(!c->c.wait(c->m, 0.5), "timed wait reported a notification although nobody notified");
  mc::go([=]() { MC_REQUIRE(!c->m.unlock(), "unlock by another thread"); MC_REQUIRE(c->m.lock(), "lock failed"); mc::quiet(true); c->flag = 1; mc::quiet(false); MC_REQUIRE(c->m.unlock(), "unlock failed"); });
  for (int i = 0; i < d; i++) { if (i + 1 == d || i % 50 == 0) mc::point("nested"); MC_REQUIRE(!c->flag, "another thread got in after %d of %d unlocks", i, d); MC_REQUIRE(c->m.unlock(), "unlock %d of %d failed", i + 1, d); }
  MC_REQUIRE(!c->m.unlock(), "one unlock too many was accepted");
  mc::join_all(); MC_REQUIRE(c->flag && c->m.lock() && c->m.unlock(), "the lock is not free at the end"); delete c;
}
// while the owner waits on a condition it does not hold the mutex, and neither does a thread that never locked it
static void foreign_while_waiting(int d, double sec) {
  Cv<r_mutex> *c = new Cv<r_mutex>;
  mc::go([=]() { waiter(c, d, sec, 1); MC_REQUIRE(!c->m.unlock(), "one unlock too many was accepted"); });
  mc::go([=]() {
    MC_REQUIRE(!c->m.unlock(), "unlock() by a thread that does not hold the mutex succeeded");
    MC_REQUIRE(c->m.lock() && c->m.lock(), "lock failed"); ENTER(c); c->flag = 1; mc::point("cs"); LEAVE(c); c->c.notify();
    MC_REQUIRE(c->m.unlock() && c->m.unlock(), "unlock failed"); MC_REQUIRE(!c->m.unlock(), "one unlock too many was accepted");
  });
  mc::join_all(); MC_REQUIRE(c->m.lock() && c->m.unlock() && !c->m.unlock(), "the lock is not free at the end"); delete c;
}
// the guards lock and unlock exactly once, and do not unlock what could not be locked
struct Toy : lockable { int *n; bool ok; Toy(int *n, bool ok) : n(n), ok(ok) { n[2]++; } ~Toy() { n[2]--; } bool lock() { if (ok) n[0]++; return ok; } bool unlock() { n[1]++; return true; } };
static void guards() {
  for (int ok = 0; ok < 2; ok++) {
    int *n = new int[3]();
    { Toy t(n, ok); { scoped_lock g(t); MC_REQUIRE(g.locked() == !!ok && (g ? ok : !ok) && n[0] == ok && n[1] == 0, "scoped_lock: %d locks", n[0]); } MC_REQUIRE(n[1] == ok, "scoped_lock: %d unlocks", n[1]);
      int in = 0; synchronized(t) { in++; } MC_REQUIRE(in == ok && n[0] == 2 * ok && n[1] == 2 * ok, "synchronized: entered %d times, %d locks, %d unlocks", in, n[0], n[1]);
      try { scoped_lock g(t); throw 1; } catch (int) {} MC_REQUIRE(n[0] == 3 * ok && n[1] == 3 * ok, "exception: %d locks, %d unlocks", n[0], n[1]); }
    { scoped_lock g(std::unique_ptr<lockable>(new Toy(n, ok))); MC_REQUIRE(g.locked() == !!ok && (g ? ok : !ok) && n[0] == 4 * ok && n[1] == 3 * ok && n[2] == 1, "owning scoped_lock: %d locks", n[0]); }
    MC_REQUIRE(n[1] == 4 * ok && n[2] == 0, "owning scoped_lock: %d unlocks, %d left", n[1], n[2]); delete[] n;
  }
}
static void reg() {
  mc::add("guards", O(0), O(0), guards);
  for (int d : {1, 4, 7, 130, 300, 70000}) for (int w = 0; w < 2; w++) { Opts o = O(d < 10 ? 2 : 0); o.maxsteps = 400000; mc::add("rmutex.nest" + std::to_string(d) + (w ? ".wait" : ""), o, o, [=]() { deep(d, w); }); }
  for (int d : {1, 2, 4}) for (int t = 0; t < 2; t++) mc::add("cond.foreign" + std::to_string(d) + (t ? ".timed" : ""), O(2, 1, 1), O(3, 1, 1), [=]() { foreign_while_waiting(d, t ? 1.25 : -1); });
  for (int d : {3, 4}) mc::add("cond.rmutex.depth" + std::to_string(d), O(1, 1, 1), O(2, 1, 1), [=]() { cond<r_mutex>(2, d, d == 3 ? -1 : 1.5, true, false); });
  mc::add("mutex.2x2", O(2), O(4), []() { excl<mutex>(2, 2); });
  mc::add("mutex.3x1", O(2), O(4), []() { excl<mutex>(3, 1); });
  mc::add("rmutex.2x2", O(2), O(3), []() { excl<r_mutex>(2, 2); });
  mc::add("rmutex.3x1", O(2), O(3), []() { excl<r_mutex>(3, 1); });
  mc::add("mutex.4x1", O(2), O(3), []() { excl<mutex>(4, 1); }, true);
  for (int d : {1, 2, 3, 5}) {
    mc::add("rmutex.depth" + std::to_string(d), O(2), O(3), [=]() { recur(d, false); });
    mc::add("rmutex.foreign" + std::to_string(d), O(2), O(3), [=]() { recur(d, true); });
  }
  for (int all = 0; all < 2; all++) for (int ul = 0; ul < 2; ul++) {
    std::string s = std::string(all ? ".all" : ".one") + (ul ? ".locked" : ".unlocked");
    mc::add("cond.mutex" + s, O(2, 1, 1), O(3, 1, 1), [=]() { cond<mutex>(2, 1, -1, all, ul); });
    mc::add("cond.rmutex1" + s, O(2, 1, 1), O(3, 1, 1), [=]() { cond<r_mutex>(1, 1, -1, all, ul); });
    mc::add("cond.rmutex2" + s, O(1, 1, 1), O(2, 1, 1), [=]() { cond<r_mutex>(2, 2, -1, all, ul); });
    mc::add("cond.timed.mutex" + s, O(2, 1, 1), O(3, 2, 1), [=]() { cond<mutex>(2, 1, 1.5, all, ul); });
    mc::add("cond.timed.rmutex" + s, O(1, 1, 1), O(2, 2, 1), [=]() { cond<r_mutex>(2, 2, 1.5, all, ul); });
  }
  for (double s : {0.0, 0.0004, 0.0025, 0.25, 0.5, 0.9, 1.0, 3.75})
    mc::add("cond.alone" + std::to_string((int)(s * 10000)), O(1, 1, 0), O(2, 1, 0), [=]() { timed_alone(s); });
  mc::add("cond.notified", O(2, 1, 1), O(3, 1, 1), notified_true);
  mc::add("cond.notholder", O(1), O(1), not_holder);
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
