#ifndef MC_INTERNAL_H_
#define MC_INTERNAL_H_
#include "mc.h"
#include <pthread.h>
#include <csignal>

namespace mc {
enum Kind { K_STEP, K_LOCK, K_RD, K_WR, K_COND, K_JOIN, K_SLEEP, K_PRED, K_YIELD };
static const int MAXF = 12;

struct VC { uint32_t c[MAXF]; };

struct Fiber {
  int id;
  char *stack;
  size_t stksz;
  void *sp;
  std::function<void()> fn;
  void *(*pfn)(void *);
  void *parg;
  bool finished, detached, joined, harness;
  // pending operation
  Kind kind;
  const char *what;
  void *obj;
  std::function<bool()> pred;
  double deadline;     // <0: none
  bool timed_out, signalled, spurious;
  unsigned long condseq;
  long accesses;
  int err;
  void *eh_caught; unsigned eh_uncaught;
  VC vc;
};

extern int g_eng;       // >0: executing engine code
extern bool g_active;   // an execution is in progress
extern Fiber *g_cur;

struct Eng { bool on; Eng() : on(g_eng) { g_eng = 1; } ~Eng() { g_eng = on; } };

// block the current fiber with the given pending operation until it is scheduled
void block(Kind k, const char *what, void *obj, double deadline = -1,
           std::function<bool()> pred = std::function<bool()>());
int pick(int n, const char *what);            // free choice
int pick_cost(int n, int budget_kind, const char *what);  // alternatives 1.. cost 1 unit of faults
void acquire(void *obj);   // happens-before
void release(void *obj);
int spawn(std::function<void()> fn, void *(*pfn)(void *), void *parg, bool harness);
Fiber *fiber(int id);
void net_reset();
double vnow();
void vfail(const char *msg) __attribute__((noreturn));
}
#endif
