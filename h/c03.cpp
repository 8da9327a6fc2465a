// C03: quantity semaphore = atomic counter
#include "conc.h"

enum { WAIT, SIGNAL, LOCK, UNLOCK };
static const char *const names[] = {"wait", "signal", "lock", "unlock"};

static bool step(std::vector<long> &s, int op, long a, long ret) {
  if (ret != -999999 && ret != 1) return false;  // every completed call reports success
  switch (op) {
    case LOCK: case WAIT: if (s[0] < a) return false; s[0] -= a; return true;
    case UNLOCK: case SIGNAL: s[0] += a; return true;
  }
  return false;
}
static void call(qsem *q, mc::History *h, Op o) {
  int i = h->invoke(o.op, o.arg);
  bool r = false;
  switch (o.op) {
    case WAIT: r = o.arg == 1 ? q->wait() : q->wait(o.arg); break;
    case SIGNAL: r = o.arg == 1 ? q->signal() : q->signal(o.arg); break;
    case LOCK: r = q->lock(); break;
    case UNLOCK: r = q->unlock(); break;
  }
  h->respond(i, r);
}
static const Op alphabet[] = {{WAIT, 1}, {WAIT, 2}, {SIGNAL, 1}, {SIGNAL, 2}};

// program: per thread a list of ops
static void run(int init, const std::vector<std::vector<Op> > &prog) {
  qsem *q = new qsem(init);
  std::shared_ptr<mc::History> h(new mc::History);
  for (auto &p : prog) mc::go([=]() { for (size_t i = 0; i < p.size(); i++) call(q, h.get(), p[i]); });
  mc::at_end([=]() {
    auto fin = [=](const std::vector<long> &s) {
      // whoever is still waiting must really lack quantity
      for (auto &c : h->calls) if (c.t1 == ~0ul) { if (c.op != WAIT && c.op != LOCK) return false; if (s[0] >= c.arg) return false; }
      return true;
    };
    if (!mc::linearizable(*h, {init}, step, fin, false))
      mc::fail("semaphore history is not that of an atomic counter starting at %d: %s", init, mc::show(*h, names).c_str());
    mc::outcome(mc::show(*h, names).substr(0, 0) + std::to_string(h->calls.size()) + (mc::blocked_at_end() ? "/blocked" : "/done"));
    delete q;
  });
}

static void reg() {
  Opts q = O(2, 1, 1, true), t = O(3, 1, 1, true);
  // all programs: 3 threads x 1 op, 2 threads x 2 ops, init 0..2
  for (int init = 0; init <= 2; init++)
    for (int a = 0; a < 4; a++) {
      char n[64];
      snprintf(n, sizeof n, "p3x1.i%d.a%d", init, a);
      mc::add(n, q, t, [=]() {
        std::vector<std::vector<Op> > p(3);
        int b = mc::choose(4 - a) + a, c = mc::choose(4 - b) + b;
        p[0].push_back(alphabet[a]); p[1].push_back(alphabet[b]); p[2].push_back(alphabet[c]);
        run(init, p);
      });
      snprintf(n, sizeof n, "p2x2.i%d.a%d", init, a);
      mc::add(n, O(2, 1, 0, true), t, [=]() {
        std::vector<std::vector<Op> > p(2);
        p[0].push_back(alphabet[a]); p[0].push_back(alphabet[mc::choose(4)]);
        p[1].push_back(alphabet[mc::choose(4)]); p[1].push_back(alphabet[mc::choose(4)]);
        run(init, p);
      });
      snprintf(n, sizeof n, "p3x2.i%d.a%d", init, a);
      mc::add(n, q, O(2, 1, 0, true), [=]() {
        std::vector<std::vector<Op> > p(3);
        p[0].push_back(alphabet[a]); 
        p[1].push_back(alphabet[mc::choose(4)]); p[1].push_back(alphabet[mc::choose(4)]);
        p[2].push_back(alphabet[mc::choose(4)]); p[2].push_back(alphabet[mc::choose(4)]);
        run(init, p);
      }, true);
    }
  // waiters for different quantities, some of it there already
  static const Op wide[] = {{WAIT, 1}, {WAIT, 2}, {WAIT, 3}, {SIGNAL, 1}, {SIGNAL, 2}, {SIGNAL, 3}};
  for (int init = 0; init <= 3; init++) for (int n = 3; n <= 4; n++) for (int a = 0; a < 3; a++) {
    char nm[64]; snprintf(nm, sizeof nm, "wide%d.i%d.a%d", n, init, a);
    mc::add(nm, O(n == 3 ? 1 : 0, 1, 0, true), O(n == 3 ? 3 : 1, 1, 0, true), [=]() {
      std::vector<std::vector<Op> > p(n); int k = a; p[0].push_back(wide[a]);
      for (int i = 1; i < n; i++) { k += mc::choose(6 - k); p[i].push_back(wide[k]); }
      run(init, p);
    });
  }
  // lock/unlock are wait(1)/signal(1)
  for (int init = 0; init <= 1; init++) {
    char n[64]; snprintf(n, sizeof n, "lock.i%d", init);
    mc::add(n, O(2, 1, 0, true), t, [=]() {
      std::vector<std::vector<Op> > p(3);
      Op l = {LOCK, 1}, u = {UNLOCK, 1}, w2 = {WAIT, 2};
      p[0].push_back(u); p[1].push_back(l); p[2].push_back(mc::choose(2) ? u : w2);
      run(init, p);
    });
  }
  // as a lock: bounded number of holders
  for (int cap = 1; cap <= 2; cap++) {
    char n[64]; snprintf(n, sizeof n, "holders.%d", cap);
    mc::add(n, O(2, 1, 1), O(3, 1, 1), [=]() {
      std::shared_ptr<qsem> q(new qsem(cap));
      int *inside = new int(0);
      for (int i = 0; i < 3; i++) mc::go([=]() {
        scoped_lock lk(*q);
        MC_REQUIRE(lk.locked(), "scoped_lock on a semaphore did not lock");
        mc::quiet(true); int n = ++*inside; mc::quiet(false);
        MC_REQUIRE(n <= cap, "%d holders of a semaphore of quantity %d", n, cap);
        mc::point("inside");
        mc::quiet(true); --*inside; mc::quiet(false);
      });
      mc::join_all();
      delete inside;
    });
  }
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
