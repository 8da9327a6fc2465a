// C02: reader/writer mutex
#include "conc.h"
struct Rw { rw_mutex m; int readers, writers; long data; Rw() : readers(0), writers(0), data(0) {} };
// modes: how the lock is requested
enum { R, W, RT, WT, R0, W0, NM };
static const char *const mname[] = {"read_lock", "write_lock", "read_lock(1.0)", "write_lock(1.0)", "read_lock(0)", "write_lock(0)"};
static bool is_w(int m) { return m == W || m == WT || m == W0; }

static void inside(Rw *x, bool w) {
  mc::quiet(true);
  if (w) x->writers++; else x->readers++;
  int r = x->readers, wr = x->writers;
  mc::quiet(false);
  MC_REQUIRE(wr <= 1 && (wr == 0 || r == 0), "%d writers and %d readers inside at once", wr, r);
  long v = x->data;
  mc::point("cs");
  if (w) x->data = v + 1;
  else MC_REQUIRE(x->data == v, "data changed under a read lock");
  mc::quiet(true);
  if (w) x->writers--; else x->readers--;
  mc::quiet(false);
}
// how: 0 direct, 1 scoped_lock(rlock/wlock), 2 scoped_rlock / scoped_wlock
static void user(Rw *x, int m, int how, int *got) {
  bool w = is_w(m);
  double sec = (m == RT || m == WT) ? 1.0 : 0.0;
  bool timed = m >= RT;
  double t0 = mc::now();
  bool ok = false;
  if (how == 0) {
    ok = !timed ? (w ? x->m.write_lock() : x->m.read_lock()) : (w ? x->m.write_lock(sec) : x->m.read_lock(sec));
    if (ok) { inside(x, w); MC_REQUIRE(x->m.unlock(), "unlock failed"); }
  } else if (how == 1) {
    scoped_lock lk(!timed ? (w ? wlock(x->m) : rlock(x->m)) : (w ? wlock(x->m, sec) : rlock(x->m, sec)));
    ok = lk.locked();
    if (ok) inside(x, w);
  } else {
    if (w) { scoped_wlock lk(x->m, timed ? sec : -1); ok = lk.locked(); if (ok) inside(x, w); }
    else { scoped_rlock lk(x->m, timed ? sec : -1); ok = lk.locked(); if (ok) inside(x, w); }
  }
  MC_REQUIRE(ok || timed, "%s failed", mname[m]);
  if (!ok && sec > 0) MC_REQUIRE(mc::now() - t0 > sec - 1e-4, "%s gave up after %g s", mname[m], mc::now() - t0);
  mc::quiet(true); if (ok) got[w]++; mc::quiet(false);
}
static void mix(int a, int b, int c, int how) {
  Rw *x = new Rw; int *got = new int[2](); 
  int ms[3] = {a, b, c};
  for (int i = 0; i < 3; i++) { int m = ms[i]; if (m >= 0) mc::go([=]() { user(x, m, how, got); }); }
  mc::join_all();
  MC_REQUIRE(x->data == got[1], "%ld of %d writes made under the write lock survived", x->data, got[1]);
  // everything released: a zero-timeout writer succeeds, then excludes nobody afterwards
  MC_REQUIRE(x->m.write_lock(0.0), "the lock is still held after everybody released it");
  MC_REQUIRE(x->m.unlock(), "unlock");
  mc::outcome(std::to_string(got[0]) + "r" + std::to_string(got[1]) + "w");
  delete x; delete[] got;
}
// while thread 0 holds the lock (as reader or writer), a try/timed attempt by another thread
// must answer truthfully
static void held(bool hold_w, int m) {
  static const double tv[] = {1.0, 0.5, 0.001, 2.75, 0.0004, 0.9}; double T = m == RT || m == WT ? tv[mc::choose(6)] : 0; if (T) odd_clock();
  Rw *x = new Rw; int *phase = new int(0);
  mc::go([=]() {
    MC_REQUIRE(hold_w ? x->m.write_lock() : x->m.read_lock(), "initial lock failed");
    mc::quiet(true); *phase = 1; mc::quiet(false);
    mc::wait_until([=]() { return *phase == 2; }, "release");
    MC_REQUIRE(x->m.unlock(), "unlock");
  });
  mc::go([=]() {
    mc::wait_until([=]() { return *phase == 1; }, "held");
    bool w = is_w(m), expect = !hold_w && !w;
    double sec = (m == RT || m == WT) ? T : 0.0, t0 = mc::now();
    bool ok = w ? x->m.write_lock(sec) : x->m.read_lock(sec);
    MC_REQUIRE(ok == expect, "%s while a %s holds the lock returned %d", mname[m], hold_w ? "writer" : "reader", (int)ok);
    if (!ok) MC_REQUIRE(mc::now() - t0 > sec - 1e-4 && mc::now() - t0 < sec + 1e-3, "%s with %g s gave up after %g s", mname[m], sec, mc::now() - t0);
    if (ok) MC_REQUIRE(x->m.unlock(), "unlock");
    mc::quiet(true); *phase = 2; mc::quiet(false);
  });
  mc::join_all();
  for (int k : {(int)RT, (int)WT, (int)R0, (int)W0}) {
    bool ok = is_w(k) ? x->m.write_lock(k == WT ? 1.0 : 0.0) : x->m.read_lock(k == RT ? 1.0 : 0.0);
    MC_REQUIRE(ok, "%s on a free lock failed", mname[k]);
    MC_REQUIRE(x->m.unlock(), "unlock");
  }
  delete x; delete phase;
}
// two readers can be inside at the same time
static void share(int m1, int m2) {
  Rw *x = new Rw; int *n = new int(0);
  for (int m : {m1, m2}) mc::go([=]() {
    bool ok = m == R ? x->m.read_lock() : m == RT ? x->m.read_lock(1.0) : x->m.read_lock(0.0);
    MC_REQUIRE(ok, "a reader was refused while only readers are present");
    mc::quiet(true); ++*n; mc::quiet(false);
    mc::wait_until([=]() { return *n == 2; }, "other reader");
    MC_REQUIRE(x->m.unlock(), "unlock");
  });
  mc::join_all();
  delete x; delete n;
}
static void reg() {
  for (int how = 0; how < 3; how++)
    for (int a = 0; a < NM; a++) {
      mc::add("mix." + std::to_string(how) + "." + std::to_string(a), O(2, 1), O(3, 2), [=]() {
        int b = a + mc::choose(NM - a), c = b + mc::choose(NM - b);
        mix(a, b, c, how);
      });
    }
  for (int w = 0; w < 2; w++) for (int m = RT; m < NM; m++)
    mc::add("held." + std::to_string(w) + "." + std::to_string(m), O(2, 1), O(3, 1), [=]() { held(w, m); });
  for (int m1 : {(int)R, (int)RT, (int)R0}) for (int m2 : {(int)R, (int)RT, (int)R0})
    mc::add("share." + std::to_string(m1) + "." + std::to_string(m2), O(2, 0), O(3, 0), [=]() { share(m1, m2); });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
