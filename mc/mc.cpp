#include "mc_internal.h"
#include "net.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <link.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <new>
#include <set>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <exception>

extern "C" char __libc_single_threaded;

namespace mc {

int g_eng = 0;
bool g_active = false;
Fiber *g_cur = 0;

// ------------------------------------------------------------------ raw system calls
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static double real_now() {
  struct timespec ts;
  raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------ fibers
__asm__(
    ".text\n.globl mc_switch\n.type mc_switch,@function\nmc_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size mc_switch,.-mc_switch\n");
extern "C" void mc_switch(void **save, void *to);

static Fiber g_fibers[MAXF];
static int g_nfib = 0;
static void *g_main_sp;
static const size_t STK = 256 * 1024;

struct Choice { uint16_t n, idx; uint8_t cost[3 * 14 + 2][4]; };  // costs: preempt, timeout, spurious, fault
struct Node { int n, idx; std::vector<uint32_t> cost; int used[4]; };
static std::vector<Node> g_trace;      // choices of this execution
static std::vector<int> g_prefix;      // choices to replay
static int g_used[4];
static int g_budget[4];
static size_t g_pos;
static unsigned long g_steps, g_condseq;
static int g_forced;
static double g_time;
static Opts g_opts;
static std::string g_scn;
static bool g_abandon;  // execution ended with blocked threads (allowed)
static bool g_complete;
static std::function<void()> g_atend;
void at_end(std::function<void()> f) { Eng e; g_atend = f; }
bool blocked_at_end() { return g_abandon; }
int unreaped() { int n = 0; for (int i = 1; i < g_nfib; i++) if (!g_fibers[i].harness && !g_fibers[i].joined && !g_fibers[i].detached) n++; return n; }
int unfinished() { int n = 0; for (int i = 1; i < g_nfib; i++) if (!g_fibers[i].finished) n++; return n; }
static std::set<std::string> g_outcomes;
static long g_execs, g_total_steps, g_nodes;
static size_t g_maxdepth;
static bool g_newracy;
static int g_rescans;
static bool g_verbose = false;
static int g_outfd = 1;
static volatile unsigned long *g_heartbeat = 0;

static const double T0 = 1700000000.0;
double vnow() { return T0 + g_time; }
double now() { return g_time; }
void advance(double s) { g_time += s; }
bool active() { return g_active; }
unsigned long step_no() { return g_steps; }
int self() { return g_cur ? g_cur->id : -1; }
Fiber *fiber(int id) { return &g_fibers[id]; }
void quiet(bool on) { g_eng = on; }

static void wr(const std::string &s) { 
  const char *p = s.c_str(); size_t n = s.size();
  while (n) { long k = raw_syscall(SYS_write, g_outfd, (long)p, n); if (k <= 0) break; p += k; n -= k; }
}
static std::string esc(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) r += (s[i] == '\n' || s[i] == '\r') ? ' ' : s[i];
  return r;
}
static std::set<void *> g_racy;
static char g_trytag;   // learned like a racing access: some thread polls a lock
static void saw_trylock() { if (g_racy.insert(&g_trytag).second) g_newracy = true; }
void vfail(const char *msg) __attribute__((noreturn));
static std::string choices_text() {
  std::string r;
  size_t last = g_trace.size();
  while (last > 0 && g_trace[last - 1].idx == 0) last--;
  for (size_t i = 0; i < last; i++) { if (i) r += ","; char b[16]; snprintf(b, sizeof b, "%d", g_trace[i].idx); r += b; }
  if (r.empty()) r = "-";
  if (!g_racy.empty()) {
    Dl_info di; dladdr((void *)&vfail, &di);
    char sep = '@';
    for (std::set<void *>::iterator it = g_racy.begin(); it != g_racy.end(); ++it) { char b[32]; snprintf(b, sizeof b, "%c%lx", sep, (unsigned long)((char *)*it - (char *)di.dli_fbase)); r += b; sep = ','; }
  }
  return r;
}
void vfail(const char *msg) {
  g_eng = 1;
  std::string s = "VIOL scenario=" + g_scn + " choices=" + choices_text() + " :: " + esc(msg) + "\n";
  wr(s);
  _exit(41);
}
void fail(const char *fmt, ...) {
  g_eng = 1;
  char buf[4000];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  vfail(buf);
}
void outcome(const std::string &s) { Eng e; g_outcomes.insert(s); }

static void on_signal(int sig) {
  g_eng = 1;
  char buf[200];
  snprintf(buf, sizeof buf, "the program was terminated by signal %d (%s) at step %lu in thread %d", sig,
           sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "abort/uncaught exception/assertion" : sig == SIGFPE ? "SIGFPE" : "signal",
           g_steps, self());
  if (!g_active) { std::string s = std::string("ENGINE-ERROR ") + buf + "\n"; wr(s); _exit(42); }
  vfail(buf);
}

static bool enabled(Fiber &f) {
  if (f.finished) return false;
  switch (f.kind) {
    case K_STEP: case K_YIELD: return true;
    case K_LOCK: {
      pthread_mutex_t *m = (pthread_mutex_t *)f.obj;
      return m->__data.__owner == 0 || (m->__data.__owner == f.id + 1 && m->__data.__kind != 0);
    }
    case K_RD: case K_WR: case K_PRED: return f.pred();
    case K_COND: return false;
    case K_JOIN: return ((Fiber *)f.obj)->finished;
    case K_SLEEP: return false;
  }
  return false;
}

static int choose_node(int n, const uint32_t *cost /* packed 8 bits each */, const char *what) {
  int idx = 0;
  if (n > 1) {
    if (g_pos < g_prefix.size()) {
      idx = g_prefix[g_pos];
      if (idx >= n) {
        std::string s = "ENGINE-ERROR divergence in " + g_scn + "\n";
        wr(s); _exit(42);
      }
    }
    Node nd;
    nd.n = n; nd.idx = idx; nd.cost.assign(cost, cost + n);
    memcpy(nd.used, g_used, sizeof g_used);
    for (int k = 0; k < 4; k++) g_used[k] += (cost[idx] >> (8 * k)) & 255;
    g_trace.push_back(nd);
    g_pos++;
    if (g_pos > g_prefix.size()) g_nodes++;
    if (g_verbose) { char b[200]; snprintf(b, sizeof b, "  choice %zu: %s n=%d -> %d\n", g_pos - 1, what, n, idx); wr(b); }
  }
  return idx;
}
int pick(int n, const char *what) {
  std::vector<uint32_t> c(n, 0);
  return choose_node(n, c.data(), what);
}
int pick_cost(int n, int k, const char *what) {
  if (g_used[k] >= g_budget[k]) return 0;
  std::vector<uint32_t> c(n, 1u << (8 * k));
  c[0] = 0;
  return choose_node(n, c.data(), what);
}
int choose(int n) { Eng e; return pick(n, "data"); }
bool fault(const char *what) { Eng e; return pick_cost(2, 3, what) == 1; }

// the program's thread-local variables: every fiber has its own
static char *g_tls; static size_t g_tlsn; static std::string g_tls0, g_tlsof[MAXF];
static int find_tls(struct dl_phdr_info *i, size_t, void *) {
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { g_tls = (char *)i->dlpi_tls_data; g_tlsn = i->dlpi_phdr[k].p_memsz; }
  return 1;  // the program itself comes first
}
static void tls_setup() { dl_iterate_phdr(find_tls, 0); if (g_tlsn) g_tls0.assign(g_tls, g_tlsn); }
static bool thread_local_var(uintptr_t a) { return a - (uintptr_t)g_tls < g_tlsn || a == (uintptr_t)&errno; }
static void switch_to(Fiber *to) {
  Fiber *from = g_cur;
  if (from == to) return;
  if (g_tlsn) { g_tlsof[from->id].assign(g_tls, g_tlsn); memcpy(g_tls, g_tlsof[to->id].data(), g_tlsn); }
  abi::__cxa_eh_globals *g = abi::__cxa_get_globals();
  void **gp = (void **)g;
  from->err = errno;
  from->eh_caught = gp[0]; from->eh_uncaught = ((unsigned *)(gp + 1))[0];
  g_cur = to;
  gp[0] = to->eh_caught; ((unsigned *)(gp + 1))[0] = to->eh_uncaught;
  errno = to->err;
  mc_switch(&from->sp, to->sp);
}
static void to_main() {
  abi::__cxa_eh_globals *g = abi::__cxa_get_globals();
  void **gp = (void **)g;
  gp[0] = 0; ((unsigned *)(gp + 1))[0] = 0;
  void *dummy;
  mc_switch(&dummy, g_main_sp);
}

static const char *kname(Kind k) {
  static const char *n[] = {"step", "lock", "rdlock", "wrlock", "condwait", "join", "sleep", "wait", "yield"};
  return n[k];
}
static std::string blocked_text() {
  std::string r;
  for (int i = 0; i < g_nfib; i++) if (!g_fibers[i].finished) {
    char b[160]; snprintf(b, sizeof b, " [T%d blocked in %s %s]", i, kname(g_fibers[i].kind), g_fibers[i].what ? g_fibers[i].what : "");
    r += b;
  }
  return r;
}

struct Alt { int f; int how; };  // how: 0 normal 1 timeout 2 spurious

// decide who runs next; returns when the current fiber is scheduled again
static void schedule() {
  Fiber *cur = g_cur;
  for (;;) {
    g_steps++;
    if (g_heartbeat) ++*g_heartbeat;
    if (g_steps > (unsigned long)g_opts.maxsteps) {
      std::string s = "no progress: the step bound was exceeded (livelock);" + blocked_text();
      vfail(s.c_str());
    }
    Alt alts[3 * MAXF]; uint32_t cost[3 * MAXF]; int n = 0;
    bool curen = !cur->finished && enabled(*cur);
    bool free_switch = !curen || cur->kind == K_YIELD;
    if (curen && cur->kind != K_YIELD) { alts[n].f = cur->id; alts[n].how = 0; cost[n++] = 0; }
    for (int i = 0; i < g_nfib; i++) {
      if (i == cur->id || g_fibers[i].finished) continue;
      if (enabled(g_fibers[i])) { alts[n].f = i; alts[n].how = 0; cost[n++] = free_switch ? 0 : 1; }
    }
    if (curen && cur->kind == K_YIELD) { alts[n].f = cur->id; alts[n].how = 0; cost[n++] = 0; }
    // the yielding fiber itself is only offered when nobody else can run (fairness)
    if (curen && cur->kind == K_YIELD && n > 1) n--;
    int nnormal = n;
    // timeouts, earliest deadline first
    bool idle_yield = nnormal == 1 && curen && cur->kind == K_YIELD;
    int to[MAXF], nt = 0;
    for (int i = 0; i < g_nfib; i++) if (!g_fibers[i].finished && g_fibers[i].deadline >= 0 && !enabled(g_fibers[i])) to[nt++] = i;
    for (int i = 0; i < nt; i++) for (int j = i + 1; j < nt; j++) if (g_fibers[to[j]].deadline < g_fibers[to[i]].deadline) std::swap(to[i], to[j]);
    for (int i = 0; i < nt; i++) { alts[n].f = to[i]; alts[n].how = 1; cost[n++] = ((nnormal && !idle_yield) || i > 0) ? 1u << 8 : 0; }
    if (idle_yield && nt) { std::swap(alts[0], alts[1]); std::swap(cost[0], cost[1]); nnormal = 0; }
    for (int i = 0; i < g_nfib; i++) if (!g_fibers[i].finished && g_fibers[i].kind == K_COND && n > 0) { alts[n].f = i; alts[n].how = 2; cost[n++] = 1u << 16; }
    if (n == 0) {
      bool all = true;
      for (int i = 0; i < g_nfib; i++) if (!g_fibers[i].finished) all = false;
      g_complete = true;
      if (all) { to_main(); }
      if (g_opts.allow_blocked && g_fibers[0].finished) { g_abandon = true; to_main(); }
      std::string s = "deadlock: no thread can make progress;" + blocked_text();
      vfail(s.c_str());
    }
    if (nnormal == 0 && g_opts.daemon && g_fibers[0].finished) { g_complete = true; g_abandon = true; to_main(); }
    if (nnormal == 0) {
      if (++g_forced > g_opts.forced_timeouts) {
        if (g_opts.allow_blocked && g_fibers[0].finished) { g_complete = true; g_abandon = true; to_main(); }
        std::string s = "no progress: only timeouts keep firing;" + blocked_text();
        vfail(s.c_str());
      }
    } else g_forced = 0;
    if (g_opts.delay) for (int i = 1; i < nnormal; i++) if (cost[i] == 0) cost[i] = 1;
    // drop alternatives that are beyond the budget (keeps replay deterministic)
    Alt a2[3 * MAXF]; uint32_t c2[3 * MAXF]; int m = 0;
    for (int i = 0; i < n; i++) {
      bool ok = true;
      if (i > 0) for (int k = 0; k < 4; k++) { int c = (cost[i] >> (8 * k)) & 255; if (c && g_used[k] + c > g_budget[k]) ok = false; }
      if (ok) { a2[m] = alts[i]; c2[m++] = cost[i]; }
    }
    int idx = choose_node(m, c2, "sched");
    Fiber *nx = &g_fibers[a2[idx].f];
    if (g_verbose) { char b[220]; snprintf(b, sizeof b, "step %lu: T%d %s %s%s\n", g_steps, nx->id, kname(nx->kind), nx->what ? nx->what : "", a2[idx].how == 1 ? " TIMEOUT" : a2[idx].how == 2 ? " SPURIOUS" : ""); wr(b); }
    if (a2[idx].how == 1) {
      if (nx->deadline > g_time) g_time = nx->deadline;
      nx->timed_out = true; nx->deadline = -1;
      if (nx->kind == K_COND) { nx->kind = K_LOCK; continue; }  // must reacquire the mutex first
    } else if (a2[idx].how == 2) {
      nx->spurious = true; nx->deadline = -1; nx->kind = K_LOCK; continue;
    }
    nx->deadline = -1;
    if (nx == cur) return;
    switch_to(nx);
    return;
  }
}

void block(Kind k, const char *what, void *obj, double deadline, std::function<bool()> pred) {
  Fiber *f = g_cur;
  f->kind = k; f->what = what; f->obj = obj; f->deadline = deadline; f->pred = pred;
  f->timed_out = false; f->spurious = false; f->accesses = 0;
  schedule();
  f->accesses = 0;
}

static void fiber_main() {
  g_eng = 0;
  Fiber *f = g_cur;
  if (f->fn) f->fn();
  else f->pfn(f->parg);
  g_eng = 1;
  release(f);
  f->finished = true;
  schedule();
  abort();
}

int spawn(std::function<void()> fn, void *(*pfn)(void *), void *parg, bool harness) {
  if (g_nfib >= MAXF) { wr("ENGINE-ERROR too many threads\n"); _exit(42); }
  int id = g_nfib++;
  Fiber &f = g_fibers[id];
  if (!f.stack) {
    f.stksz = STK;
    f.stack = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f.stack, 4096, PROT_NONE);
  }
  f.id = id; f.fn = fn; f.pfn = pfn; f.parg = parg;
  f.finished = f.detached = f.joined = false; f.harness = harness;
  f.kind = K_STEP; f.what = "start"; f.obj = 0; f.deadline = -1; f.timed_out = f.signalled = false;
  if (g_tlsn) { g_tlsof[id] = g_tls0; if (!id) memcpy(g_tls, g_tls0.data(), g_tlsn); }
  f.accesses = 0; f.err = 0; f.eh_caught = 0; f.eh_uncaught = 0;
  memset(&f.vc, 0, sizeof f.vc);
  if (g_cur) { f.vc = g_cur->vc; g_cur->vc.c[g_cur->id]++; }
  f.vc.c[id]++;
  void **sp = (void **)(f.stack + STK - 64);
  *--sp = 0;                       // alignment / fake return address
  *--sp = (void *)fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f.sp = sp;
  return id;
}

void go(std::function<void()> fn) {
  Eng e;
  spawn(fn, 0, 0, true);
}
void join_all() {
  Eng e;
  for (int i = 0; i < g_nfib; i++)
    if (i != g_cur->id && g_fibers[i].harness) { block(K_JOIN, "join", &g_fibers[i]); acquire(&g_fibers[i]); }
}
void point(const char *what) { Eng e; block(K_STEP, what, 0); }
void wait_until(std::function<bool()> p, const char *what) { Eng e; block(K_PRED, what, 0, -1, p); }
bool wait_until(std::function<bool()> p, const char *what, double sec) {
  Eng e; block(K_PRED, what, 0, g_time + sec, p); return !g_cur->timed_out;
}

// ------------------------------------------------------------------ happens-before
struct VCMap { std::map<void *, VC> m; };
static std::map<void *, VC> g_objvc;
void acquire(void *o) {
  std::map<void *, VC>::iterator it = g_objvc.find(o);
  if (it == g_objvc.end() || !g_cur) return;
  for (int i = 0; i < MAXF; i++) if (it->second.c[i] > g_cur->vc.c[i]) g_cur->vc.c[i] = it->second.c[i];
}
void release(void *o) {
  if (!g_cur) return;
  std::map<void *, VC>::iterator it = g_objvc.find(o);
  if (it == g_objvc.end()) it = g_objvc.insert(std::make_pair(o, g_cur->vc)).first;
  else for (int i = 0; i < MAXF; i++) if (g_cur->vc.c[i] > it->second.c[i]) it->second.c[i] = g_cur->vc.c[i];
  g_cur->vc.c[g_cur->id]++;
}

// shadow memory: one cell per 8 bytes
struct Cell { uintptr_t key; uint32_t gen; bool freed; int wf; uint32_t wc; void *wpc; uint32_t rc[MAXF]; void *rpc[MAXF]; };
static const size_t NCELL = 1 << 16;
static Cell *g_cells = 0;
static uint32_t g_gen = 0;
static Cell *cell(uintptr_t key, bool create) {
  size_t h = (key * 0x9E3779B97F4A7C15ull) >> 48;
  for (size_t i = 0; i < 64; i++) {
    Cell &c = g_cells[(h + i) & (NCELL - 1)];
    if (c.gen == g_gen) { if (c.key == key) return &c; continue; }
    if (!create) return 0;
    memset((void *)&c, 0, sizeof c);
    c.gen = g_gen; c.key = key; c.wf = -1;
    return &c;
  }
  return 0;
}
static void learn(void *pc) { if (pc && g_racy.insert(pc).second) g_newracy = true; }

static void access(uintptr_t a, size_t sz, bool write, void *pc) {
  Fiber *f = g_cur;
  if (++f->accesses > 200000) {  // busy waiting without any synchronisation: let others run
    block(K_YIELD, "spin", 0);
  }
  if (a >= (uintptr_t)f->stack && a < (uintptr_t)f->stack + f->stksz) return;
  if (thread_local_var(a)) return;
  if (!g_racy.empty() && g_racy.count(pc)) block(K_STEP, "racy access", 0);
  if (sz > 256) sz = 256;
  for (uintptr_t k = a >> 3; k <= (a + sz - 1) >> 3; k++) {
    Cell *c = cell(k, true);
    if (!c) return;
    if (c->freed) vfail("memory was used after it had been released");
    if (c->wf >= 0 && c->wf != f->id && c->wc > f->vc.c[c->wf]) { learn(pc); learn(c->wpc); }
    if (write) {
      for (int i = 0; i < g_nfib; i++) if (i != f->id && c->rc[i] > f->vc.c[i]) { learn(pc); learn(c->rpc[i]); }
      c->wf = f->id; c->wc = f->vc.c[f->id]; c->wpc = pc;
    } else { c->rc[f->id] = f->vc.c[f->id]; c->rpc[f->id] = pc; }
  }
}
void touch(const void *p, size_t n, bool write, void *pc) { if (g_active && !g_eng && g_cur && n) { Eng e; access((uintptr_t)p, n, write, pc); } }
static void forget(void *p, size_t n) {
  if (!g_active || !p || !g_cells) return;
  if (n > 8192) n = 8192;
  uintptr_t a = (uintptr_t)p;
  for (uintptr_t k = a >> 3; n && k <= (a + n - 1) >> 3; k++) {
    Cell *c = cell(k, false);
    if (c) { uintptr_t key = c->key; memset((void *)c, 0, sizeof *c); c->gen = g_gen; c->key = key; c->wf = -1; }
  }
}

// memory released by the code under test is kept until the end of the execution, so that a
// later use of it is seen
extern "C" void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), __libc_free(void *);
static std::vector<void *> g_quarantine;
static void release_memory(void *p) {
  if (!p) return;
  if (!g_active || g_eng || !g_cur) { __libc_free(p); return; }
  Eng e;
  size_t n = malloc_usable_size(p);
  if (n > 8192) n = 8192;
  for (uintptr_t k = (uintptr_t)p >> 3; n && k <= ((uintptr_t)p + n - 1) >> 3; k++) {
    Cell *c = cell(k, true);
    if (c) {
      if (c->freed) vfail("memory was released twice");
      c->freed = true;
    }
  }
  g_quarantine.push_back(p);
}
static void check_live(void *p) {
  Cell *c = g_cells ? cell((uintptr_t)p >> 3, false) : 0;
  if (c && c->freed) vfail("a synchronisation object was used after it had been released");
}
// atomics: scheduling points where two threads touch the same location
struct ACell { int first; bool shared; };
static std::map<std::pair<void *, int>, int> g_dummy;
static std::map<uintptr_t, int> g_atomfirst;
static void atomic_op(void *a, void *pc) {
  Fiber *f = g_cur;
  if (++f->accesses > 200000) block(K_YIELD, "spin", 0);
  // learned by location users: a second thread touching the location makes both PCs points
  std::map<uintptr_t, int>::iterator it = g_atomfirst.find((uintptr_t)a);
  if (it == g_atomfirst.end()) g_atomfirst[(uintptr_t)a] = f->id;
  static std::map<uintptr_t, std::set<void *> > pcs;
  if (g_racy.count(pc)) block(K_STEP, "atomic", 0);
  Cell *c = cell((uintptr_t)a >> 3, true);
  if (c) {
    if (c->wf >= 0 && c->wf != f->id && c->wc > f->vc.c[c->wf]) { learn(pc); learn(c->wpc); }
    c->wf = f->id; c->wc = f->vc.c[f->id]; c->wpc = pc;
    for (int i = 0; i < MAXF; i++) { c->rc[i] = 0; }
  }
  acquire(a); release(a);
}

}  // namespace mc

// ------------------------------------------------------------------ instrumentation callbacks
using namespace mc;
#define RET __builtin_return_address(0)
#define ACC(n)                                                                              \
  extern "C" void __tsan_read##n(void *a) { if (g_active && !g_eng) { Eng e; access((uintptr_t)a, n, false, RET); } }   \
  extern "C" void __tsan_write##n(void *a) { if (g_active && !g_eng) { Eng e; access((uintptr_t)a, n, true, RET); } }   \
  extern "C" void __tsan_unaligned_read##n(void *a) { if (g_active && !g_eng) { Eng e; access((uintptr_t)a, n, false, RET); } } \
  extern "C" void __tsan_unaligned_write##n(void *a) { if (g_active && !g_eng) { Eng e; access((uintptr_t)a, n, true, RET); } }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
extern "C" void __tsan_read_range(void *a, size_t n) { if (g_active && !g_eng && n) { Eng e; access((uintptr_t)a, n, false, RET); } }
extern "C" void __tsan_write_range(void *a, size_t n) { if (g_active && !g_eng && n) { Eng e; access((uintptr_t)a, n, true, RET); } }
extern "C" void __tsan_vptr_update(void **, void *) {}
extern "C" void __tsan_vptr_read(void **) {}
extern "C" void __tsan_func_entry(void *) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_init() {}
#define ATOM(a) if (g_active && !g_eng) { Eng e; atomic_op((void *)(a), RET); }
#define ATOMS(bits, T)                                                                        \
  extern "C" T __tsan_atomic##bits##_load(const volatile T *a, int) { ATOM(a); return *a; }     \
  extern "C" void __tsan_atomic##bits##_store(volatile T *a, T v, int) { ATOM(a); *a = v; }     \
  extern "C" T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { ATOM(a); T o = *a; *a = v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { ATOM(a); T o = *a; *a = o + v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { ATOM(a); T o = *a; *a = o - v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { ATOM(a); T o = *a; *a = o & v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { ATOM(a); T o = *a; *a = o | v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { ATOM(a); T o = *a; *a = o ^ v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { ATOM(a); T o = *a; *a = ~(o & v); return o; } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { ATOM(a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { ATOM(a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { ATOM(a); T o = *a; if (o == c) *a = v; return o; }
ATOMS(8, uint8_t) ATOMS(16, uint16_t) ATOMS(32, uint32_t) ATOMS(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// memory from the C allocator is treated the same way
extern "C" void *malloc(size_t n) { void *p = mc::__libc_malloc(n); if (g_active && !g_eng) mc::forget(p, n); return p; }
extern "C" void *calloc(size_t k, size_t n) { void *p = mc::__libc_calloc(k, n); if (g_active && !g_eng && p) mc::forget(p, k * n); return p; }
extern "C" void *realloc(void *o, size_t n) {
  if (!g_active || g_eng || !o) { void *p = mc::__libc_realloc(o, n); if (g_active && !g_eng) mc::forget(p, n); return p; }
  if (!n) { mc::release_memory(o); return 0; }
  void *p = malloc(n); if (!p) return 0;
  size_t k = malloc_usable_size(o); memcpy(p, o, k < n ? k : n); mc::release_memory(o);
  return p;
}
extern "C" void free(void *p) { mc::release_memory(p); }
#ifndef MC_NO_NEW
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); mc::forget(p, n); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); mc::forget(p, n); return p; }
void operator delete(void *p) noexcept { mc::release_memory(p); }
void operator delete[](void *p) noexcept { mc::release_memory(p); }
void operator delete(void *p, size_t) noexcept { mc::release_memory(p); }
void operator delete[](void *p, size_t) noexcept { mc::release_memory(p); }
#endif

// ------------------------------------------------------------------ exploration
namespace mc {

static void run_one(const std::function<void()> &body) {
  g_trace.clear(); g_pos = 0; g_steps = 0; g_condseq = 0; g_forced = 0; g_time = 0;
  memset(g_used, 0, sizeof g_used);
  g_objvc.clear(); g_atomfirst.clear(); g_nfib = 0; g_cur = 0; g_abandon = false; g_complete = false;
  g_gen++;
  net_reset();
  g_eng = 1;
  spawn(body, 0, 0, false);
  g_cur = &g_fibers[0];
  g_active = true;
  g_atend = std::function<void()>();
  mc_switch(&g_main_sp, g_fibers[0].sp);
  g_active = false;
  g_eng = 1;
  for (size_t i = 0; i < g_quarantine.size(); i++) __libc_free(g_quarantine[i]);
  g_quarantine.clear();
  if (g_atend) { g_atend(); g_atend = std::function<void()>(); }
  g_execs++;
  g_total_steps += g_steps;
  if (g_trace.size() > g_maxdepth) g_maxdepth = g_trace.size();
}

static bool next_prefix() {
  // deepest node with an untried alternative inside the budget
  for (size_t i = g_trace.size(); i-- > 0;) {
    Node &n = g_trace[i];
    for (int j = n.idx + 1; j < n.n; j++) {
      bool ok = true;
      for (int k = 0; k < 4; k++) if (n.used[k] + (int)((n.cost[j] >> (8 * k)) & 255) > g_budget[k] && ((n.cost[j] >> (8 * k)) & 255)) ok = false;
      if (!ok) continue;
      g_prefix.resize(i + 1);
      for (size_t q = 0; q < i; q++) g_prefix[q] = g_trace[q].idx;
      g_prefix[i] = j;
      return true;
    }
  }
  return false;
}

// one execution in a forked child (for code with static state); the trace comes back by pipe
static void put(int fd, const void *p, size_t n) { const char *q = (const char *)p; while (n) { long k = raw_syscall(SYS_write, fd, (long)q, n); if (k <= 0) _exit(42); q += k; n -= k; } }
static bool get(int fd, void *p, size_t n) { char *q = (char *)p; while (n) { long k = raw_syscall(SYS_read, fd, (long)q, n); if (k <= 0) return false; q += k; n -= k; } return true; }
static void run_forked(const std::function<void()> &body) {
  int pp[2]; if (pipe(pp)) _exit(42);
  size_t nr0 = g_racy.size();
  pid_t pid = fork();
  if (pid == 0) {
    close(pp[0]);
    run_one(body);
    size_t n = g_trace.size(); put(pp[1], &n, sizeof n);
    for (auto &nd : g_trace) { put(pp[1], &nd.n, sizeof nd.n); put(pp[1], &nd.idx, sizeof nd.idx); put(pp[1], nd.used, sizeof nd.used); put(pp[1], nd.cost.data(), nd.cost.size() * 4); }
    n = g_racy.size(); put(pp[1], &n, sizeof n); for (void *v : g_racy) put(pp[1], &v, sizeof v);
    put(pp[1], &g_newracy, sizeof g_newracy); put(pp[1], &g_steps, sizeof g_steps); put(pp[1], &g_nodes, sizeof g_nodes);
    n = g_outcomes.size(); put(pp[1], &n, sizeof n); for (auto &o : g_outcomes) { size_t l = o.size(); put(pp[1], &l, sizeof l); put(pp[1], o.data(), l); }
    _exit(0);
  }
  close(pp[1]);
  bool ok = true; size_t n = 0;
  ok = get(pp[0], &n, sizeof n); g_trace.clear();
  for (size_t i = 0; ok && i < n; i++) { Node nd; ok = get(pp[0], &nd.n, sizeof nd.n) && get(pp[0], &nd.idx, sizeof nd.idx) && get(pp[0], nd.used, sizeof nd.used); if (ok) { nd.cost.resize(nd.n); ok = get(pp[0], nd.cost.data(), nd.n * 4); g_trace.push_back(nd); } }
  ok = ok && get(pp[0], &n, sizeof n);
  for (size_t i = 0; ok && i < n; i++) { void *v; ok = get(pp[0], &v, sizeof v); g_racy.insert(v); }
  ok = ok && get(pp[0], &g_newracy, sizeof g_newracy) && get(pp[0], &g_steps, sizeof g_steps) && get(pp[0], &g_nodes, sizeof g_nodes) && get(pp[0], &n, sizeof n);
  for (size_t i = 0; ok && i < n; i++) { size_t l; ok = get(pp[0], &l, sizeof l); std::string s(l, 0); ok = ok && get(pp[0], &s[0], l); g_outcomes.insert(s); }
  close(pp[0]);
  int st; while (waitpid(pid, &st, 0) < 0) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 41) _exit(41);
  if (!ok || !WIFEXITED(st) || WEXITSTATUS(st)) { char b[200]; snprintf(b, sizeof b, "the process under test ended abnormally (wait status 0x%x)", st); vfail(b); }
  (void)nr0;
  g_execs++; g_total_steps += g_steps;
  if (g_trace.size() > g_maxdepth) g_maxdepth = g_trace.size();
}

static void explore_child(const Scenario &sc, const Opts &o, double time_limit) {
  g_opts = o; g_scn = sc.name;
  g_budget[0] = o.preempt; g_budget[1] = o.timeouts; g_budget[2] = o.spurious; g_budget[3] = o.faults;
  bool capped = false;
  double t0 = real_now();
  long lastexecs = 0, lastnodes = 0, laststeps = 0;
  for (g_rescans = 0; g_rescans < 40; g_rescans++) {
    g_prefix.clear(); g_newracy = false;
    lastexecs = g_execs; lastnodes = g_nodes; laststeps = g_total_steps;
    g_outcomes.clear();
    bool more = true;
    capped = false;
    while (more) {
      if (o.forkexec) run_forked(sc.body); else run_one(sc.body);
      if (g_newracy) break;
      more = next_prefix();
      if (o.maxexec && g_execs - lastexecs >= o.maxexec) { capped = more; break; }
      if ((g_execs & 63) == 0 && real_now() - t0 > time_limit) { capped = more; break; }
    }
    if (!g_newracy) break;
  }
  char b[900];
  std::string oc;
  int k = 0;
  for (std::set<std::string>::iterator it = g_outcomes.begin(); it != g_outcomes.end() && k < 6; ++it, ++k) { if (k) oc += " | "; oc += esc(*it).substr(0, 60); }
  snprintf(b, sizeof b, "SCN name=%s execs=%ld nodes=%ld steps=%ld maxdepth=%zu racy=%zu rescans=%d capped=%d outcomes=%zu pb=%d tb=%d sb=%d fb=%d wall=%.2f sample=%s\n",
           sc.name.c_str(), g_execs - lastexecs, g_nodes - lastnodes, g_total_steps - laststeps, g_maxdepth, g_racy.size(), g_rescans, (int)capped, g_outcomes.size(),
           o.preempt, o.timeouts, o.spurious, o.faults, real_now() - t0, oc.c_str());
  wr(b);
}

static std::vector<Scenario> g_scns;
void add(const std::string &name, const Opts &q, const Opts &t, std::function<void()> body, bool thorough_only) {
  Scenario s; s.name = name; s.quick = q; s.thorough = t; s.body = body; s.thorough_only = thorough_only;
  g_scns.push_back(s);
}

static void child_setup() {
  tls_setup();
  __libc_single_threaded = 0;
  static char alt[65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
  int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL};
  for (int s : sigs) sigaction(s, &sa, 0);
  if (!g_cells) g_cells = (Cell *)mmap(0, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}

int main(int argc, char **argv, void (*reg)()) {
  std::string tier = "quick", only, replay;
  double tl = 1e9, hang = 60;
  int jobs = 8; bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier") tier = argv[++i];
    else if (a == "--scenario") only = argv[++i];
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--time") tl = atof(argv[++i]);
    else if (a == "--hang") hang = atof(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--list") list = true;
    else if (a == "--verbose") g_verbose = true;
  }
  g_eng = 1;
  reg();
  if (list) { for (auto &s : g_scns) printf("%s\n", s.name.c_str()); return 0; }
  std::vector<Scenario> run;
  for (auto &s : g_scns) { if (!only.empty() && s.name != only) continue; if (s.thorough_only && tier != "thorough" && only.empty()) continue; run.push_back(s); }
  if (!replay.empty()) {
    child_setup();
    Scenario &sc = run.at(0);
    Opts o = tier == "thorough" ? sc.thorough : sc.quick;
    // learn racy points first by running the default schedule, then replay
    g_opts = o; g_scn = sc.name;
    g_budget[0] = o.preempt; g_budget[1] = o.timeouts; g_budget[2] = o.spurious; g_budget[3] = o.faults;
    g_verbose = true;
    const char *p = replay.c_str();
    // "choices@pc,pc,..." : learned racing addresses relative to the image base
    size_t at = replay.find('@');
    if (replay[0] != '-') while (*p && *p != '@') { g_prefix.push_back(strtol(p, (char **)&p, 10)); if (*p == ',') p++; }
    if (at != std::string::npos) {
      p = replay.c_str() + at + 1;
      Dl_info di; dladdr((void *)&child_setup, &di);
      while (*p) { g_racy.insert((char *)di.dli_fbase + strtol(p, (char **)&p, 16)); if (*p == ',') p++; }
    }
    run_one(sc.body);
    wr("replay: execution finished without violation\n");
    return 0;
  }
  struct Ch { pid_t pid; int scn; int fd; std::string out; double last; unsigned long hb; volatile unsigned long *shm; };
  std::vector<Ch> live;
  size_t nexti = 0;
  int viol = 0, err = 0;
  while (nexti < run.size() || !live.empty()) {
    while ((int)live.size() < jobs && nexti < run.size()) {
      int pp[2]; if (pipe(pp)) return 2;
      volatile unsigned long *shm = (volatile unsigned long *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      pid_t pid = fork();
      if (pid == 0) {
        close(pp[0]); g_outfd = pp[1]; g_heartbeat = shm;
        int dn = open("/dev/null", O_RDWR); dup2(dn, 1); dup2(dn, 0); 
        if (!getenv("MC_STDERR")) dup2(dn, 2);
        child_setup();
        const Scenario &sc = run[nexti];
        explore_child(sc, tier == "thorough" ? sc.thorough : sc.quick, tl);
        _exit(0);
      }
      close(pp[1]);
      fcntl(pp[0], F_SETFL, O_NONBLOCK);
      Ch c; c.pid = pid; c.scn = nexti++; c.fd = pp[0]; c.last = real_now(); c.hb = 0; c.shm = shm;
      live.push_back(c);
    }
    raw_syscall(SYS_poll, 0, 0, 5);
    for (size_t i = 0; i < live.size();) {
      Ch &c = live[i];
      char buf[4096]; long k;
      while ((k = raw_syscall(SYS_read, c.fd, (long)buf, sizeof buf)) > 0) c.out.append(buf, k);
      int st; pid_t w = waitpid(c.pid, &st, WNOHANG);
      if (w == c.pid) {
        while ((k = raw_syscall(SYS_read, c.fd, (long)buf, sizeof buf)) > 0) c.out.append(buf, k);
        fwrite(c.out.data(), 1, c.out.size(), stdout);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {}
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 41) viol++;
        else if (c.out.find("ENGINE-ERROR") != std::string::npos) err++;
        else if (WIFSIGNALED(st) || WIFEXITED(st)) {
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { printf("ENGINE-ERROR scenario %s killed\n", run[c.scn].name.c_str()); err++; }
          else { printf("VIOL scenario=%s choices=? :: the process under test ended abnormally (wait status 0x%x)\n", run[c.scn].name.c_str(), st); viol++; }
        }
        close(c.fd); munmap((void *)c.shm, 4096);
        live.erase(live.begin() + i);
        continue;
      }
      unsigned long h = *c.shm;
      double t = real_now();
      if (h != c.hb) { c.hb = h; c.last = t; }
      else if (t - c.last > hang) {
        kill(c.pid, SIGKILL); waitpid(c.pid, &st, 0);
        printf("VIOL scenario=%s choices=? :: a thread ran %.0f s without reaching any synchronisation point (endless loop)\n", run[c.scn].name.c_str(), hang);
        viol++;
        close(c.fd); live.erase(live.begin() + i);
        continue;
      }
      i++;
    }
    if (viol && nexti < run.size()) nexti = run.size();  // stop starting new scenarios
  }
  fflush(stdout);
  if (viol) return 1;
  return err ? 2 : 0;
}

// ------------------------------------------------------------------ linearizability
static unsigned long g_clock;
int History::invoke(int op, long arg) {
  Eng e; Call c; c.thread = self(); c.op = op; c.arg = arg; c.ret = 0; c.t0 = ++g_clock; c.t1 = ~0ul;
  calls.push_back(c); return calls.size() - 1;
}
void History::respond(int i, long ret) { Eng e; calls[i].ret = ret; calls[i].t1 = ++g_clock; }

struct Lin {
  const History &h; const StepFn &step; const FinalFn &fin; bool pend;
  std::set<std::pair<unsigned, std::vector<long> > > seen;
  Lin(const History &h, const StepFn &s, const FinalFn &f, bool p) : h(h), step(s), fin(f), pend(p) {}
  bool go(unsigned done, const std::vector<long> &st) {
    bool allreturned = true;
    for (size_t i = 0; i < h.calls.size(); i++) if (!(done >> i & 1) && h.calls[i].t1 != ~0ul) allreturned = false;
    if (allreturned && (!fin || fin(st))) return true;
    if (!seen.insert(std::make_pair(done, st)).second) return false;
    unsigned long lim = ~0ul;
    for (size_t i = 0; i < h.calls.size(); i++) if (!(done >> i & 1)) lim = std::min(lim, h.calls[i].t1);
    for (size_t i = 0; i < h.calls.size(); i++) {
      if (done >> i & 1) continue;
      if (h.calls[i].t0 > lim) continue;
      if (h.calls[i].t1 == ~0ul && !pend) continue;
      std::vector<long> s2 = st;
      if (h.calls[i].t1 == ~0ul) {
        // pending: unknown return value; let the model accept any by passing a wildcard
        if (step(s2, h.calls[i].op, h.calls[i].arg, -999999) && go(done | 1u << i, s2)) return true;
      } else if (step(s2, h.calls[i].op, h.calls[i].arg, h.calls[i].ret) && go(done | 1u << i, s2)) return true;
    }
    return false;
  }
};
bool linearizable(const History &h, const std::vector<long> &init, const StepFn &step, const FinalFn &fin, bool pend) {
  Eng e; Lin l(h, step, fin, pend); return l.go(0, init);
}
std::string show(const History &h, const char *const *names) {
  Eng e; std::string r;
  for (auto &c : h.calls) {
    char b[128];
    if (c.t1 == ~0ul) snprintf(b, sizeof b, "T%d:%s(%ld)=pending@%lu ", c.thread, names[c.op], c.arg, c.t0);
    else snprintf(b, sizeof b, "T%d:%s(%ld)=%ld@[%lu,%lu] ", c.thread, names[c.op], c.arg, c.ret, c.t0, c.t1);
    r += b;
  }
  return r;
}

}  // namespace mc

// ------------------------------------------------------------------ pthread interposition
#define ACT (g_active && g_cur)
static double abs2v(const struct timespec *ts) {  // absolute CLOCK_REALTIME -> virtual
  double d = (ts->tv_sec - (time_t)T0) + ts->tv_nsec * 1e-9;
  return d < 0 ? 0 : d;
}
static bool bad_ts(const struct timespec *ts) { return ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000l; }

extern "C" {

// mutex: owner field: fiber id + 1, count for recursive, kind as glibc
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  memset((void *)m, 0, sizeof *m);
  int k = 0;
  if (a) { k = ((const int *)a)[0] & 3; }
  m->__data.__kind = k == 3 ? 0 : k;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) { return m->__data.__owner ? EBUSY : 0; }
static void own(pthread_mutex_t *m) {
  if (m->__data.__owner == g_cur->id + 1) { m->__data.__count++; return; }
  m->__data.__owner = g_cur->id + 1; m->__data.__count = 1; acquire(m);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!ACT) { m->__data.__count++; return 0; }
  Eng e;
  check_live(m);
  if (m->__data.__kind == 2 && m->__data.__owner == g_cur->id + 1) return EDEADLK;
  block(K_LOCK, "mutex", m);
  check_live(m);
  own(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!ACT) { m->__data.__count++; return 0; }
  Eng e;
  check_live(m);
  saw_trylock();
  block(K_STEP, "trylock", m);
  if (m->__data.__owner == 0 || (m->__data.__kind == 1 && m->__data.__owner == g_cur->id + 1)) { own(m); return 0; }
  return EBUSY;
}
static int mtimed(pthread_mutex_t *m, const struct timespec *ts) {
  if (!ACT) { m->__data.__count++; return 0; }
  Eng e;
  check_live(m);
  if (m->__data.__kind == 2 && m->__data.__owner == g_cur->id + 1) return EDEADLK;
  if (bad_ts(ts)) return EINVAL;
  saw_trylock();
  block(K_LOCK, "mutex(timed)", m, abs2v(ts));
  if (g_cur->timed_out) return ETIMEDOUT;
  own(m);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return mtimed(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return mtimed(m, ts); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!ACT) { if (m->__data.__count) m->__data.__count--; m->__data.__owner = 0; return 0; }
  Eng e;
  // an unlock commutes with everything other threads can do meanwhile unless they look at the
  // lock without waiting for it; only then is it a scheduling point
  if (g_racy.count(&g_trytag)) block(K_STEP, "unlock", m);
  check_live(m);
  if (m->__data.__kind != 0 && m->__data.__owner != g_cur->id + 1) return EPERM;
  if (m->__data.__kind == 1 && --m->__data.__count > 0) return 0;
  m->__data.__owner = 0; m->__data.__count = 0;
  release(m);
  return 0;
}

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset((void *)c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, double dl) {
  if (!ACT) { fprintf(stderr, "cond_wait outside of an execution\n"); abort(); }
  Eng e;
  block(K_STEP, "cond_wait", c);
  Fiber *f = g_cur;
  unsigned cnt = m->__data.__count; int owner = m->__data.__owner;
  m->__data.__owner = 0; m->__data.__count = 0;
  release(m);
  (void)owner;
  f->signalled = false; f->condseq = ++g_condseq;
  // K_COND carries the condition in pred-less form: obj is the mutex, cond kept in parg-like slot
  f->kind = K_COND; f->what = "condition"; f->obj = m; f->deadline = dl; f->timed_out = false; f->spurious = false; f->pred = std::function<bool()>();
  f->accesses = 0;
  // remember the condition variable
  extern void *g_condof[];
  g_condof[f->id] = c;
  schedule();
  g_condof[f->id] = 0;
  m->__data.__owner = f->id + 1; m->__data.__count = cnt ? cnt : 1;
  acquire(m);
  if (f->signalled) acquire(c);
  return f->timed_out ? ETIMEDOUT : 0;
}
void *g_condof[MAXF];
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (bad_ts(ts)) return EINVAL;
  return cwait(c, m, abs2v(ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) {
  if (bad_ts(ts)) return EINVAL;
  return cwait(c, m, abs2v(ts));
}
static void wake(Fiber &f) { f.signalled = true; f.deadline = -1; f.kind = K_LOCK; f.what = "mutex(after wait)"; }
int pthread_cond_signal(pthread_cond_t *c) {
  if (!ACT) return 0;
  Eng e;
  check_live(c);
  block(K_STEP, "signal", c);
  check_live(c);
  release(c);
  int w[MAXF], n = 0;
  for (int i = 0; i < g_nfib; i++) if (!g_fibers[i].finished && g_fibers[i].kind == K_COND && g_condof[i] == c) w[n++] = i;
  if (n) wake(g_fibers[w[n > 1 ? pick(n, "signal whom") : 0]]);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!ACT) return 0;
  Eng e;
  check_live(c);
  block(K_STEP, "broadcast", c);
  check_live(c);
  release(c);
  for (int i = 0; i < g_nfib; i++) if (!g_fibers[i].finished && g_fibers[i].kind == K_COND && g_condof[i] == c) wake(g_fibers[i]);
  return 0;
}

// rwlock: __readers = number of readers (bitmask of owners in __writers), __cur_writer = owner+1
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset((void *)l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *l) { return (l->__data.__readers || l->__data.__cur_writer) ? EBUSY : 0; }
static bool rd_free(pthread_rwlock_t *l) { return l->__data.__cur_writer == 0; }
static bool wr_free(pthread_rwlock_t *l) { return l->__data.__cur_writer == 0 && l->__data.__readers == 0; }
static int rwl(pthread_rwlock_t *l, bool w, double dl, bool tryl) {
  if (!ACT) { if (w) l->__data.__cur_writer = 1; else l->__data.__readers++; return 0; }
  Eng e;
  if (tryl) {
    block(K_STEP, w ? "trywrlock" : "tryrdlock", l);
    if (!(w ? wr_free(l) : rd_free(l))) return EBUSY;
  } else {
    if (l->__data.__cur_writer == g_cur->id + 1) return EDEADLK;
    block(w ? K_WR : K_RD, "rwlock", l, dl, [l, w]() { return w ? wr_free(l) : rd_free(l); });
    if (g_cur->timed_out) return ETIMEDOUT;
  }
  if (w) l->__data.__cur_writer = g_cur->id + 1; else l->__data.__readers++;
  acquire(l);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rwl(l, false, -1, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rwl(l, true, -1, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rwl(l, false, -1, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rwl(l, true, -1, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *t) { if (bad_ts(t)) return EINVAL; return rwl(l, false, abs2v(t), false); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *t) { if (bad_ts(t)) return EINVAL; return rwl(l, true, abs2v(t), false); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t, const struct timespec *t) { if (bad_ts(t)) return EINVAL; return rwl(l, false, abs2v(t), false); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t, const struct timespec *t) { if (bad_ts(t)) return EINVAL; return rwl(l, true, abs2v(t), false); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!ACT) { l->__data.__cur_writer = 0; if (l->__data.__readers) l->__data.__readers--; return 0; }
  Eng e;
  block(K_STEP, "rwunlock", l);
  if (l->__data.__cur_writer) l->__data.__cur_writer = 0;
  else if (l->__data.__readers) l->__data.__readers--;
  release(l);
  return 0;
}

int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!ACT) { fprintf(stderr, "pthread_create outside of an execution\n"); abort(); }
  Eng e;
  if (mc::net.create_fail && pick_cost(2, 3, "pthread_create fails") == 1) return EAGAIN;
  int id = spawn(std::function<void()>(), fn, arg, false);
  if (at) { int ds = 0; pthread_attr_getdetachstate(at, &ds); if (ds == PTHREAD_CREATE_DETACHED) g_fibers[id].detached = true; }
  *t = (pthread_t)(id + 1);
  return 0;
}
static Fiber *ft(pthread_t t) { long i = (long)t - 1; return i >= 0 && i < g_nfib ? &g_fibers[i] : 0; }
int pthread_join(pthread_t t, void **rv) {
  Eng e;
  Fiber *f = ACT ? ft(t) : 0;
  if (!f) return ESRCH;
  if (f->joined) vfail("a thread was joined twice (undefined behaviour)");
  if (f->detached) return EINVAL;
  if (f == g_cur) return EDEADLK;
  block(K_JOIN, "pthread_join", f);
  f->joined = true;
  acquire(f);
  if (rv) *rv = 0;
  return 0;
}
int pthread_detach(pthread_t t) {
  Eng e;
  Fiber *f = ACT ? ft(t) : 0;
  if (!f) return ESRCH;
  if (f->joined) vfail("a joined thread was detached (undefined behaviour)");
  if (f->detached) return EINVAL;
  block(K_STEP, "detach", f);
  f->detached = true;
  return 0;
}
pthread_t pthread_self() { return ACT ? (pthread_t)(g_cur->id + 1) : (pthread_t)100; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_once(pthread_once_t *o, void (*fn)()) {
  if (!ACT) { if (*o != 2) { *o = 2; fn(); } return 0; }
  if (*o == 2) { Eng e; acquire(o); return 0; }
  { Eng e; block(K_STEP, "once", o); acquire(o);
    if (*o == 2) return 0;
    if (*o == 1) { block(K_PRED, "once", o, -1, [o]() { return *o == 2; }); acquire(o); return 0; }
    *o = 1; }
  bool s = g_eng; g_eng = 0; fn(); g_eng = s;
  Eng e; *o = 2; release(o);
  return 0;
}
// first use of a function-local static object: others wait until it has been built
int mc_guard_acquire(uint64_t *g) __asm__("__cxa_guard_acquire");
void mc_guard_release(uint64_t *g) __asm__("__cxa_guard_release");
void mc_guard_abort(uint64_t *g) __asm__("__cxa_guard_abort");
int mc_guard_acquire(uint64_t *g) {
  volatile char *b = (volatile char *)g;
  if (b[0]) { if (ACT) { Eng e; acquire(g); } return 0; }
  if (ACT && b[1]) { Eng e; block(K_PRED, "static initialisation", g, -1, [b]() { return !b[1]; }); acquire(g); if (b[0]) return 0; }
  b[1] = 1;
  return 1;
}
void mc_guard_release(uint64_t *g) { volatile char *b = (volatile char *)g; b[1] = 0; b[0] = 1; if (ACT) { Eng e; release(g); } }
void mc_guard_abort(uint64_t *g) { volatile char *b = (volatile char *)g; b[1] = 0; if (ACT) { Eng e; release(g); } }
int sem_init(sem_t *s, int, unsigned v) __THROW { ((long *)s)[0] = v; return 0; }
int sem_destroy(sem_t *) __THROW { return 0; }
int sem_post(sem_t *s) __THROW { if (!ACT) { ((long *)s)[0]++; return 0; } Eng e; block(K_STEP, "sem_post", s); release(s); ((long *)s)[0]++; return 0; }
int sem_wait(sem_t *s) { Eng e; block(K_PRED, "sem_wait", s, -1, [s]() { return ((long *)s)[0] > 0; }); acquire(s); ((long *)s)[0]--; return 0; }
int sem_trywait(sem_t *s) __THROW { Eng e; block(K_STEP, "sem_trywait", s); if (((long *)s)[0] <= 0) { errno = EAGAIN; return -1; } acquire(s); ((long *)s)[0]--; return 0; }
int sem_timedwait(sem_t *s, const struct timespec *t) { Eng e; block(K_PRED, "sem_timedwait", s, abs2v(t), [s]() { return ((long *)s)[0] > 0; }); if (g_cur->timed_out) { errno = ETIMEDOUT; return -1; } acquire(s); ((long *)s)[0]--; return 0; }
int pthread_spin_init(pthread_spinlock_t *l, int) __THROW { *(volatile int *)l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) __THROW { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) __THROW { volatile int *p = (volatile int *)l; if (!ACT) { *p = 1; return 0; } Eng e; block(K_PRED, "spin_lock", (void *)l, -1, [p]() { return *p == 0; }); acquire((void *)l); *p = 1; return 0; }
int pthread_spin_trylock(pthread_spinlock_t *l) __THROW { volatile int *p = (volatile int *)l; if (ACT) { Eng e; block(K_STEP, "spin_trylock", 0); } if (*p) return EBUSY; *p = 1; if (ACT) acquire((void *)l); return 0; }
int pthread_spin_unlock(pthread_spinlock_t *l) __THROW { volatile int *p = (volatile int *)l; if (ACT) { Eng e; block(K_STEP, "spin_unlock", 0); release((void *)l); } *p = 0; return 0; }
int sched_yield() { if (ACT) { Eng e; block(K_YIELD, "yield", 0); } return 0; }

long syscall(long n, ...) __THROW;
long syscall(long n, ...) __THROW {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_gettid && ACT) return 1000 + g_cur->id;
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
pid_t gettid() __THROW;
pid_t gettid() __THROW { return ACT ? 1000 + g_cur->id : (pid_t)raw_syscall(SYS_gettid); }

static void v2ts(double v, struct timespec *ts) {
  ts->tv_sec = (time_t)T0 + (time_t)v; ts->tv_nsec = (long)((v - (time_t)v) * 1e9);
}
int gettimeofday(struct timeval *tv, void *) __THROW;
int gettimeofday(struct timeval *tv, void *) __THROW {
  struct timespec ts;
  if (ACT) v2ts(g_time, &ts); else raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) __THROW;
int clock_gettime(clockid_t c, struct timespec *ts) __THROW {
  if (ACT) { v2ts(g_time, ts); return 0; }
  return raw_syscall(SYS_clock_gettime, c, (long)ts);
}
time_t time(time_t *t) __THROW;
time_t time(time_t *t) __THROW {
  struct timespec ts;
  if (ACT) v2ts(g_time, &ts); else raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
static int vsleep(double s) { Eng e; block(K_SLEEP, "sleep", 0, g_time + s); return 0; }
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (ACT) { if (bad_ts(r)) { errno = EINVAL; return -1; } { Eng e; if (pick_cost(2, 3, "nanosleep interrupted") == 1) { double half = (r->tv_sec + r->tv_nsec * 1e-9) / 2; block(K_SLEEP, "sleep", 0, g_time + half); if (rem) { rem->tv_sec = (time_t)half; rem->tv_nsec = (long)((half - (time_t)half) * 1e9); } errno = EINTR; return -1; } } if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; } return vsleep(r->tv_sec + r->tv_nsec * 1e-9); }
  return raw_syscall(SYS_nanosleep, (long)r, (long)rem);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  if (ACT) { if (fl & TIMER_ABSTIME) { double d = abs2v(r) - g_time; return vsleep(d > 0 ? d : 0); } return vsleep(r->tv_sec + r->tv_nsec * 1e-9); }
  return -raw_syscall(SYS_clock_nanosleep, c, fl, (long)r, (long)rem);
}
int usleep(useconds_t u) { if (ACT) return vsleep(u * 1e-6); struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return raw_syscall(SYS_nanosleep, (long)&t, 0); }
unsigned sleep(unsigned s) { if (ACT) { vsleep(s); return 0; } struct timespec t = {(time_t)s, 0}; raw_syscall(SYS_nanosleep, (long)&t, 0); return 0; }

}  // extern "C"
