// Stateless model checker for real multi-threaded C++ code.
//
// Every thread of the program under test becomes a fiber of one OS thread.  pthread, time,
// socket and resolver entry points are replaced (link-time interposition), so a controlled
// scheduler decides who runs at each synchronisation operation, atomic access and (learned)
// racing plain access.  A depth-first search enumerates every schedule within the given
// preemption / timeout / spurious-wakeup / fault budgets.
#ifndef MC_H_
#define MC_H_
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Opts {
  int preempt = 2;      // preemptive context switches
  int timeouts = 1;     // timed waits allowed to expire although somebody else could run
  int spurious = 1;     // spurious condition-variable wakeups
  int faults = 0;       // injected environment faults (thread creation, short I/O ...)
  int maxsteps = 4000;  // scheduling steps per execution before it counts as a livelock
  long maxexec = 0;     // 0: no cap
  int forced_timeouts = 40;  // consecutive timeouts with nothing else runnable => no progress
  bool allow_blocked = false;  // threads may be left blocked when the body has returned
  bool delay = false;          // delay bounding: leaving the default order costs a preemption unit even when blocked
  bool daemon = false;         // threads that only wait for timeouts when the body has returned are abandoned
  bool forkexec = false;       // run every execution in a forked child (static state)
};

// ---- called from the scenario body -----------------------------------------------------
void go(std::function<void()> f);        // start a thread
void join_all();                         // wait for all threads started with go()
int choose(int n);                       // enumerated data nondeterminism (free)
bool fault(const char *what);            // enumerated fault: true costs one unit of budget
int self();                              // fiber number
void point(const char *what);            // explicit scheduling point
void wait_until(std::function<bool()> p, const char *what);  // block until p() (not timed)
bool wait_until(std::function<bool()> p, const char *what, double sec);  // false: expired
double now();                            // virtual time, seconds
void advance(double sec);                // let virtual time pass
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
#define MC_REQUIRE(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)
void outcome(const std::string &s);      // record an observable outcome of this execution
void quiet(bool on);                     // suppress instrumentation (harness bookkeeping)
bool active();
void touch(const void *p, size_t n, bool write, void *pc);  // an access the compiler did not instrument
void at_end(std::function<void()> f);    // checked after the execution is over (set from the body)
bool blocked_at_end();                   // some threads were left blocked
int unreaped();                          // library threads neither joined nor detached
int unfinished();                        // threads (besides the main one) still running
unsigned long step_no();

// ---- scenario registry -------------------------------------------------------------------
struct Scenario {
  std::string name;
  Opts quick, thorough;
  bool thorough_only;
  std::function<void()> body;
};
void add(const std::string &name, const Opts &q, const Opts &t, std::function<void()> body,
         bool thorough_only = false);
int main(int argc, char **argv, void (*reg)());

// ---- linearizability ----------------------------------------------------------------------
struct Call {
  int thread, op;
  long arg, ret;
  unsigned long t0, t1;  // invocation / response (t1==~0ul : still pending)
};
struct History {
  std::vector<Call> calls;
  int invoke(int op, long arg);
  void respond(int idx, long ret);
};
// State = vector<long>.  step(state, op, arg, ret): true and updates the state if the call
// may return ret in that state.  Pending calls may or may not have taken effect.
typedef std::function<bool(std::vector<long> &, int, long, long)> StepFn;
typedef std::function<bool(const std::vector<long> &)> FinalFn;
bool linearizable(const History &h, const std::vector<long> &init, const StepFn &step,
                  const FinalFn &fin = FinalFn(), bool pending_may_act = true);
std::string show(const History &h, const char *const *opnames);

}  // namespace mc
#endif
