// C06: bounded producer/consumer buffer
#include "conc.h"
enum { PUSH, PUSHT, PUSH0, POP, POPT, POP0, CLEAR, SIZE, EMPTY, NOP };
static const char *const names[] = {"push", "push(1s)", "push(0s)", "pop", "pop(1s)", "pop(0s)", "clear", "size", "empty"};
static int g_cap;
// state: queue contents.  ret: pops: value or -1 (timed out); pushes: 1/0
static bool step(std::vector<long> &s, int op, long a, long r) {
  switch (op) {
    case PUSH: case PUSHT: case PUSH0:
      if ((int)s.size() >= g_cap) return op != PUSH && r == 0;
      s.push_back(a); return r == 1;
    case POP: case POPT: case POP0:
      if (s.empty()) return op != POP && r == -1;
      if (s[0] != r) return false;
      s.erase(s.begin()); return true;
    case CLEAR: s.clear(); return true;
    case SIZE: return r == (long)s.size();
    case EMPTY: return r == s.empty();
  }
  return false;
}
static void call(pcbuf<long> *v, mc::History *h, int op, long a) {
  int i = h->invoke(op, a);
  long r = 1; double t0 = mc::now();
  double sec = (op == PUSHT || op == POPT) ? 1.0 : 0.0;
  switch (op) {
    case PUSH: v->push(a); break;
    case PUSHT: case PUSH0: r = v->push(a, sec); break;
    case POP: { long x = -5; v->pop(x); r = x; break; }
    case POPT: case POP0: { long x = -5; r = v->pop(x, sec) ? x : -1; if (r == -1) MC_REQUIRE(x == -5, "a pop that timed out changed its output"); break; }
    case CLEAR: v->clear(); break;
    case SIZE: r = v->size(); break;
    case EMPTY: r = v->empty(); break;
  }
  if (((op == PUSHT && r == 0) || (op == POPT && r == -1)))
    MC_REQUIRE(mc::now() - t0 > 0.9999, "%s gave up after %g s", names[op], mc::now() - t0);
  h->respond(i, r);
  long n = v->capacity(); (void)n;
}
static void run(int cap, int pre, const std::vector<std::vector<int> > &prog) {
  g_cap = cap;
  pcbuf<long> *v = new pcbuf<long>(cap);
  MC_REQUIRE((int)v->capacity() == cap, "capacity() is wrong");
  std::vector<long> init;
  for (int i = 0; i < pre; i++) { v->push(100 + i); init.push_back(100 + i); }
  std::shared_ptr<mc::History> h(new mc::History);
  for (size_t t = 0; t < prog.size(); t++) {
    std::vector<int> p = prog[t];
    mc::go([=]() { for (size_t i = 0; i < p.size(); i++) call(v, h.get(), p[i], 10 * (t + 1) + i); });
  }
  mc::at_end([=]() {
    auto fin = [=](const std::vector<long> &s) {
      for (auto &c : h->calls) if (c.t1 == ~0ul) {
        if (c.op == PUSH ? (int)s.size() < cap : c.op == POP ? !s.empty() : true) return false;
      }
      return true;
    };
    if (!mc::linearizable(*h, init, step, fin, false))
      mc::fail("history does not fit a FIFO of capacity %d (initial size %d): %s", cap, pre, mc::show(*h, names).c_str());
    mc::outcome(std::to_string(h->calls.size()) + (mc::blocked_at_end() ? "/blocked" : "/done"));
    delete v;
  });
}
static void reg() {
  for (int cap = 1; cap <= 2; cap++)
    for (int pre = 0; pre <= cap; pre += cap)
      for (int a = 0; a < NOP; a++) {
        std::string sfx = "." + std::to_string(cap) + "." + std::to_string(pre) + "." + names[a];
        mc::add("p3x1" + sfx, O(1, 1, 1, true), O(2, 1, 1, true), [=]() {
          int b = a + mc::choose(NOP - a), c = b + mc::choose(NOP - b);
          run(cap, pre, {{a}, {b}, {c}});
        });
        mc::add("p2x2" + sfx, O(1, 1, 0, true), O(2, 1, 0, true), [=]() {
          int b = mc::choose(NOP), c = mc::choose(NOP), d = mc::choose(NOP);
          run(cap, pre, {{a, b}, {c, d}});
        });
      }
  for (int cap = 1; cap <= 2; cap++) {
    mc::add("flow" + std::to_string(cap), O(2, 1, 1), O(3, 1, 1), [=]() {
      pcbuf<long> *v = new pcbuf<long>(cap); std::vector<long> *got = new std::vector<long>;
      mc::go([=]() { for (long i = 1; i <= 3; i++) v->push(i); });
      mc::go([=]() { for (long i = 1; i <= 3; i++) { long x = 0; v->pop(x); mc::quiet(true); got->push_back(x); mc::quiet(false); } });
      mc::join_all();
      MC_REQUIRE(got->size() == 3 && (*got)[0] == 1 && (*got)[1] == 2 && (*got)[2] == 3, "order broken");
      delete v; delete got;
    });
    mc::add("many" + std::to_string(cap), O(1, 1, 0), O(2, 1, 0), [=]() {
      pcbuf<long> *v = new pcbuf<long>(cap); long *sum = new long(0);
      for (int t = 0; t < 2; t++) mc::go([=]() { v->push(1 + t); });
      for (int t = 0; t < 2; t++) mc::go([=]() { long x = 0; v->pop(x); mc::quiet(true); *sum += x * x * 10; mc::quiet(false); });
      mc::join_all();
      MC_REQUIRE(*sum == 50 && v->empty(), "values were lost or duplicated");
      delete v; delete sum;
    });
  }
  // woken by others who take the value (or the room) themselves: still gives up at its own time
  for (int pop = 0; pop < 2; pop++)
    mc::add(pop ? "stolen.pop" : "stolen.push", O(2, 0, 1), O(3, 0, 2), [=]() {
      pcbuf<long> *v = new pcbuf<long>(1); if (!pop) v->push(1);
      mc::go([=]() { long x = 0; double t = mc::now(); bool ok = pop ? v->pop(x, 1.0) : v->push(5, 1.0); if (!ok) MC_REQUIRE(mc::now() - t > 0.9999 && mc::now() - t < 1.001, "%s(1s) gave up after %g s", pop ? "pop" : "push", mc::now() - t); mc::outcome(ok ? "got" : "gave up"); });
      mc::go([=]() { for (int i = 0; i < 2; i++) { mc::wait_until([]() { return false; }, "0.3 s", 0.3); long x = 0; if (pop) { v->push(7, 0.0); v->pop(x, 0.0); } else { v->pop(x, 0.0); v->push(8, 0.0); } } });
      mc::join_all(); delete v;
    });
  // a timed operation that nobody helps returns after its time
  for (double s : {0.0, 0.0004, 0.5, 0.9, 2.25, -1.0})
    mc::add("alone" + std::to_string((int)(s * 10000)), O(1, 1, 0), O(1, 1, 0), [=]() {
      odd_clock();
      pcbuf<long> *v = new pcbuf<long>(1); long x = 9;
      double t0 = mc::now(), e = s < 0 ? 0 : s;
      MC_REQUIRE(!v->pop(x, s) && x == 9, "pop on an empty buffer succeeded");
      MC_REQUIRE(mc::now() - t0 > e - 1e-4 && mc::now() - t0 < e + 1e-3, "pop(%g) took %g s", s, mc::now() - t0);
      MC_REQUIRE(v->push(1, s), "push on a buffer with room failed");
      t0 = mc::now();
      MC_REQUIRE(!v->push(2, s), "push on a full buffer succeeded");
      MC_REQUIRE(mc::now() - t0 > e - 1e-4 && mc::now() - t0 < e + 1e-3, "push(%g) took %g s", s, mc::now() - t0);
      MC_REQUIRE(v->pop(x, s) && x == 1 && v->size() == 0, "pop");
      delete v;
    });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
