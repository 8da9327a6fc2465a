// C05: chan = unbounded FIFO, multicast to all duplicates
#include "conc.h"
#include <map>
enum { WRITE, READ, UNGET, SIZE, EMPTY, NOP };
static const char *const names[] = {"write", "read", "unget", "size", "empty"};
static bool step(std::vector<long> &s, int op, long a, long r) {
  switch (op) {
    case WRITE: s.push_back(a); return true;
    case READ: if (s.empty() || s[0] != r) return false; s.erase(s.begin()); return true;
    case UNGET: s.insert(s.begin(), a); return true;
    case SIZE: return r == (long)s.size();
    case EMPTY: return r == (long)s.empty();
  }
  return false;
}
static void call(chan<long> *c, mc::History *h, int op, long a) {
  int i = h->invoke(op, a);
  long r = 0;
  switch (op) {
    case WRITE: c->write(a); break;
    case READ: r = c->read(); break;
    case UNGET: c->unget(a); break;
    case SIZE: r = c->size(); break;
    case EMPTY: r = c->empty(); break;
  }
  h->respond(i, r);
}
static bool fin(const mc::History &h, const std::vector<long> &s) {
  for (auto &c : h.calls) if (c.t1 == ~0ul && (c.op != READ || !s.empty())) return false;
  return true;
}
// one channel, arbitrary programs
static void run(int pre, const std::vector<std::vector<int> > &prog) {
  chan<long> *c = new chan<long>();
  std::vector<long> init;
  for (int i = 0; i < pre; i++) { c->write(100 + i); init.push_back(100 + i); }
  std::shared_ptr<mc::History> h(new mc::History);
  for (size_t t = 0; t < prog.size(); t++) {
    std::vector<int> p = prog[t];
    mc::go([=]() { for (size_t i = 0; i < p.size(); i++) call(c, h.get(), p[i], 10 * (t + 1) + i); });
  }
  mc::at_end([=]() {
    if (!mc::linearizable(*h, init, step, [=](const std::vector<long> &s) { return fin(*h, s); }, false))
      mc::fail("history does not fit a FIFO channel (initially %d values): %s", pre, mc::show(*h, names).c_str());
    mc::outcome(std::to_string(h->calls.size()) + (mc::blocked_at_end() ? "/blocked" : "/done"));
    delete c;
  });
}
static std::string S(const std::vector<long> &v) { std::string r = "["; for (long x : v) r += std::to_string(x) + " "; return r + "]"; }

static void reg() {
  for (int pre = 0; pre < 3; pre++)
    for (int a = 0; a < NOP; a++)
      for (int b = 0; b < NOP; b++)
        mc::add("p2x2." + std::to_string(pre) + "." + names[a] + "." + names[b], O(pre == 0 ? 2 : 1, 1, 0, true), O(2, 1, 1, true), [=]() {
          int c = mc::choose(NOP), d = mc::choose(NOP);
          run(pre, {{a, b}, {c, d}});
        });
  for (int pre = 0; pre < 2; pre++)
    for (int a = 0; a < NOP; a++)
      for (int b = a; b < NOP; b++)
        mc::add("p3x1." + std::to_string(pre) + "." + names[a] + "." + names[b], O(1, 1, 1, true), O(2, 1, 1, true), [=]() {
          int c = b + mc::choose(NOP - b);
          run(pre, {{a}, {b}, {c}});
        });
  // groups: the channels of a group see the same writes in the same order
  for (int mode = 0; mode < 3; mode++)
    mc::add("group" + std::to_string(mode), O(2, 1, 0), O(3, 1, 0), [=]() {
      // two writers through different members; every member of the group gets both writes in one common order
      chan<long> *a = new chan<long>();
      pfi::lang::shared_ptr<chan<long> > *b = new pfi::lang::shared_ptr<chan<long> >(a->dup());
      pfi::lang::shared_ptr<chan<long> > *c = new pfi::lang::shared_ptr<chan<long> >((*b)->dup());
      chan<long> *pb = b->get(), *pc = c->get();
      mc::go([=]() { a->write(1); if (mode == 1) a->write(2); });
      mc::go([=]() { pb->write(3); });
      if (mode == 2) mc::go([=]() { pc->unget(9); });
      mc::join_all();
      std::vector<long> r[3]; chan<long> *cs[3] = {a, pb, pc};
      for (int i = 0; i < 3; i++) while (!cs[i]->empty()) { long x = cs[i]->read(); if (x == 9 && i == 2 && mode == 2) { mode == 2 ? (void)0 : (void)0; continue; } r[i].push_back(x); }
      size_t want = mode == 1 ? 3 : 2;
      for (int i = 0; i < 3; i++) MC_REQUIRE(r[i] == r[0] && r[i].size() == want, "the channels of a group disagree: %s %s %s", S(r[0]).c_str(), S(r[1]).c_str(), S(r[2]).c_str());
      if (mode == 1) { long p1 = 0, p2 = 0; for (size_t i = 0; i < 3; i++) { if (r[0][i] == 1) p1 = i; if (r[0][i] == 2) p2 = i; } MC_REQUIRE(p1 < p2, "one writer's values were reordered"); }
      mc::outcome(S(r[0]));
      delete c; delete b; delete a;
    });
  // two concurrent readers of different members, both get the value
  mc::add("readers", O(2, 1, 0), O(2, 1, 1), []() {
    chan<long> *a = new chan<long>();
    pfi::lang::shared_ptr<chan<long> > *b = new pfi::lang::shared_ptr<chan<long> >(a->dup());
    chan<long> *pb = b->get();
    long *x = new long[2]; x[0] = x[1] = 0;
    mc::go([=]() { x[0] = a->read(); });
    mc::go([=]() { x[1] = pb->read(); });
    mc::go([=]() { pb->write(5); });
    mc::join_all();
    MC_REQUIRE(x[0] == 5 && x[1] == 5, "a reader got %ld/%ld instead of 5", x[0], x[1]);
    MC_REQUIRE(a->empty() && pb->empty(), "left-over value");
    delete b; delete a; delete[] x;
  });
  // two readers of one channel, two writes: nobody stays blocked
  mc::add("wakeup", O(2, 1, 0), O(2, 1, 1), []() {
    chan<long> *a = new chan<long>(); long *x = new long[2];
    mc::go([=]() { x[0] = a->read(); });
    mc::go([=]() { x[1] = a->read(); });
    mc::go([=]() { a->write(1); a->write(2); });
    mc::join_all();
    MC_REQUIRE(x[0] + x[1] == 3 && x[0] * x[1] == 2, "readers got %ld and %ld", x[0], x[1]);
    delete a; delete[] x;
  });
  mc::add("wakeup_unget", O(1, 1, 1), O(2, 1, 1), []() {
    chan<long> *a = new chan<long>(); long *x = new long[2];
    mc::go([=]() { x[0] = a->read(); });
    mc::go([=]() { x[1] = a->read(); });
    mc::go([=]() { a->unget(1); });
    mc::go([=]() { a->unget(2); });
    mc::join_all();
    MC_REQUIRE(x[0] + x[1] == 3 && x[0] * x[1] == 2, "readers got %ld and %ld", x[0], x[1]);
    delete a; delete[] x;
  });
  // duplication concurrent with writes: a suffix of the common order, everything written after dup() returned
  mc::add("dup_vs_write", O(2, 1, 0), O(4, 1, 0), []() {
    chan<long> *a = new chan<long>();
    pfi::lang::shared_ptr<chan<long> > *b = new pfi::lang::shared_ptr<chan<long> >();
    int *done = new int(0);  // writes that had started when dup returned
    int *started = new int(0);
    mc::go([=]() { for (int i = 1; i <= 3; i++) { mc::quiet(true); *started = i; mc::quiet(false); a->write(i); } });
    mc::go([=]() { pfi::lang::shared_ptr<chan<long> > p = a->dup(); mc::quiet(true); *done = *started; mc::quiet(false); *b = p; });
    mc::join_all();
    std::vector<long> ra, rb;
    while (!a->empty()) ra.push_back(a->read());
    while (!(*b)->empty()) rb.push_back((*b)->read());
    MC_REQUIRE(ra == (std::vector<long>{1, 2, 3}), "the original channel holds %s", S(ra).c_str());
    MC_REQUIRE(rb.size() <= 3 && std::equal(rb.begin(), rb.end(), ra.end() - rb.size()), "the duplicate holds %s, not a suffix", S(rb).c_str());
    MC_REQUIRE((int)rb.size() >= 3 - *done, "the duplicate missed a value written after it existed: %s", S(rb).c_str());
    mc::outcome(S(rb));
    delete b; delete a; delete done; delete started;
  });
  // a duplicate of a channel with unread values starts empty
  mc::add("dup_empty", O(1), O(2), []() {
    chan<long> *a = new chan<long>(); a->write(1); a->unget(0);
    pfi::lang::shared_ptr<chan<long> > b = a->dup();
    MC_REQUIRE(b->empty() && b->size() == 0, "a duplicate starts with values in it");
    b->write(2);
    MC_REQUIRE(a->size() == 3 && b->size() == 1, "sizes %d/%d", a->size(), b->size());
    long x = a->read(), y = a->read(), z = a->read(), w = b->read();
    MC_REQUIRE(x == 0 && y == 1 && z == 2 && w == 2, "values %ld %ld %ld %ld", x, y, z, w);
    b->unget(7); MC_REQUIRE(a->empty() && b->size() == 1, "unget leaked to another channel");
    b.reset(); a->write(3); MC_REQUIRE(a->read() == 3, "write after a member died");
    delete a;
  });
  // the original may die first; members keep working
  for (int which = 0; which < 2; which++)
    mc::add("die_vs_write" + std::to_string(which), O(2, 1, 0), O(4, 1, 0), [=]() {
      chan<long> *a = new chan<long>();
      pfi::lang::shared_ptr<chan<long> > *b = new pfi::lang::shared_ptr<chan<long> >(a->dup());
      chan<long> *pb = b->get();
      if (which == 0) {
        mc::go([=]() { delete a; });
        mc::go([=]() { pb->write(1); pb->write(2); });
        mc::join_all();
        MC_REQUIRE(pb->size() == 2 && pb->read() == 1 && pb->read() == 2, "the surviving channel lost a value");
        delete b;
      } else {
        mc::go([=]() { b->reset(); });
        mc::go([=]() { a->write(1); a->write(2); });
        mc::join_all();
        MC_REQUIRE(a->size() == 2 && a->read() == 1 && a->read() == 2, "the surviving channel lost a value");
        delete b; delete a;
      }
    });
  // dup and death at the same time
  mc::add("dup_vs_die", O(2, 1, 0), O(4, 1, 0), []() {
    chan<long> *a = new chan<long>();
    pfi::lang::shared_ptr<chan<long> > *b = new pfi::lang::shared_ptr<chan<long> >(a->dup());
    pfi::lang::shared_ptr<chan<long> > *c = new pfi::lang::shared_ptr<chan<long> >();
    mc::go([=]() { b->reset(); });
    mc::go([=]() { *c = a->dup(); (*c)->write(4); });
    mc::go([=]() { a->write(5); });
    mc::join_all();
    MC_REQUIRE(a->size() == 2, "size %d", a->size());
    long x = a->read(), y = a->read();
    MC_REQUIRE(x + y == 9 && x * y == 20, "values %ld %ld", x, y);
    MC_REQUIRE((*c)->size() >= 1, "the duplicate missed its own write");
    delete b; delete c; delete a;
  });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
