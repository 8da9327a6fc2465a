// helpers shared by the concurrency harnesses
#ifndef H_CONC_H_
#define H_CONC_H_
#include "../mc/mc.h"
#include <cstdio>
#include <memory>
#include <string>
#include <vector>
#include <concurrent/mutex.h>
#include <concurrent/condition.h>
#include <concurrent/rwmutex.h>
#include <concurrent/lock.h>
#include <concurrent/qsem.h>
#include <concurrent/mvar.h>
#include <concurrent/chan.h>
#include <concurrent/pcbuf.h>
#include <concurrent/thread.h>

using namespace pfi::concurrent;
using mc::Opts;

inline Opts O(int pb, int tb = 1, int sb = 0, bool blocked = false, int fb = 0) {
  Opts o; o.preempt = pb; o.timeouts = tb; o.spurious = sb; o.allow_blocked = blocked; o.faults = fb; return o;
}

// delay-bounded exploration (for scenarios with many threads)
inline Opts D(Opts o) { o.delay = true; return o; }

// An object under test together with the history of calls on it.  Lives on the heap so that
// threads share it; released after the execution.
template <class T> struct Sub {
  T *obj; mc::History h; bool deleted;
  Sub() : obj(0), deleted(false) {}
  void destroy() { if (!deleted) { deleted = true; delete obj; } }
};
// the clock seldom shows whole seconds
inline void odd_clock() { static const double v[] = {0, 0.123456, 0.6, 0.9999}; int k = mc::choose(4); if (k) mc::advance(v[k]); }
struct Op { int op; long arg; };
#endif
