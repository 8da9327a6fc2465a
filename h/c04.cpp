// C04: mvar = one-place buffer
#include "conc.h"
enum { TAKE, PUT, READ, TRY_TAKE, TRY_PUT, SWAP, EMPTY, NOP };
static const char *const names[] = {"take", "put", "read", "try_take", "try_put", "swap", "empty"};
// state: {full, value}
static bool step(std::vector<long> &s, int op, long a, long r) {
  switch (op) {
    case TAKE: if (!s[0] || r != s[1]) return false; s[0] = 0; s[1] = 0; return true;
    case PUT: if (s[0]) return false; s[0] = 1; s[1] = a; return true;
    case READ: return s[0] && r == s[1];
    case TRY_TAKE: if (!s[0]) return r == -1; if (r != s[1]) return false; s[0] = 0; s[1] = 0; return true;
    case TRY_PUT: if (s[0]) return r == 0; s[0] = 1; s[1] = a; return r == 1;
    case SWAP: if (!s[0] || r != s[1]) return false; s[1] = a; return true;
    case EMPTY: return r == !s[0];
  }
  return false;
}
static void call(mvar<long> *v, mc::History *h, int op, long a) {
  int i = h->invoke(op, a);
  long r = 0;
  switch (op) {
    case TAKE: r = v->take(); break;
    case PUT: v->put(a); break;
    case READ: r = v->read(); break;
    case TRY_TAKE: { long o = -7; r = v->try_take(o) ? o : -1; if (r == -1 && o != -7) r = -2; break; }
    case TRY_PUT: r = v->try_put(a); break;
    case SWAP: r = v->swap(a); break;
    case EMPTY: r = v->empty(); break;
  }
  h->respond(i, r);
}
static void run(int full, const std::vector<std::vector<int> > &prog) {
  mvar<long> *v = full ? new mvar<long>(100) : new mvar<long>();
  std::shared_ptr<mc::History> h(new mc::History);
  for (size_t t = 0; t < prog.size(); t++) {
    std::vector<int> p = prog[t];
    mc::go([=]() { for (size_t i = 0; i < p.size(); i++) call(v, h.get(), p[i], 10 * (t + 1) + i); });
  }
  mc::at_end([=]() {
    auto fin = [=](const std::vector<long> &s) {
      for (auto &c : h->calls) if (c.t1 == ~0ul) {
        if (c.op == PUT ? !s[0] : (c.op == TAKE || c.op == READ || c.op == SWAP) ? s[0] != 0 : true) return false;
      }
      return true;
    };
    if (!mc::linearizable(*h, {full, full ? 100 : 0}, step, fin, false))
      mc::fail("history does not fit a one-place buffer (initially %s): %s", full ? "full" : "empty", mc::show(*h, names).c_str());
    mc::outcome(std::to_string(h->calls.size()) + (mc::blocked_at_end() ? "/blocked" : "/done"));
    delete v;
  });
}
static void reg() {
  for (int full = 0; full < 2; full++) {
    for (int a = 0; a < NOP; a++) {
      std::string sfx = "." + std::to_string(full) + "." + names[a];
      for (int b0 = a; b0 < NOP; b0++)
        mc::add("p3x1" + sfx + "." + names[b0], O(1, 1, 1, true), O(2, 1, 1, true), [=]() {
          int c = b0 + mc::choose(NOP - b0);
          run(full, {{a}, {b0}, {c}});
        });
      for (int b0 = 0; b0 < NOP; b0++)
        mc::add("p2x2" + sfx + "." + names[b0], O(1, 1, 0, true), O(2, 1, 1, true), [=]() {
          int c = mc::choose(NOP), d = mc::choose(NOP);
          run(full, {{a, b0}, {c, d}});
        });
    }
  }
  // producers / consumers: nothing is lost or duplicated and everybody finishes
  mc::add("pc2x2", O(1, 1, 1), O(2, 1, 1), []() {
    mvar<long> *v = new mvar<long>(); long *sum = new long(0);
    for (int t = 0; t < 2; t++) mc::go([=]() { v->put(1 + t); });
    for (int t = 0; t < 2; t++) mc::go([=]() { long x = v->take(); mc::quiet(true); *sum += x * x * 10; mc::quiet(false); });
    mc::join_all();
    MC_REQUIRE(*sum == 50, "values were lost or duplicated");
    MC_REQUIRE(v->empty(), "not empty at the end");
    delete v; delete sum;
  });
  mc::add("pc1x2", O(2, 1, 1), O(3, 1, 1), []() {
    mvar<long> *v = new mvar<long>(); std::vector<long> *got = new std::vector<long>;
    mc::go([=]() { for (long i = 1; i <= 3; i++) v->put(i); });
    mc::go([=]() { for (long i = 1; i <= 3; i++) { long x = v->take(); mc::quiet(true); got->push_back(x); mc::quiet(false); } });
    mc::join_all();
    MC_REQUIRE(got->size() == 3 && (*got)[0] == 1 && (*got)[1] == 2 && (*got)[2] == 3, "order broken");
    delete v; delete got;
  });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
