// Bounded exhaustive exploration of sequential behaviour: every input / operation sequence /
// fault position of a stated finite space is run on the real code and compared with an oracle.
// Units of work run in forked children, so a crash or an endless loop in the code under test is
// observed (and attributed to the case that was running) instead of ending the check.
#ifndef SEQ_H_
#define SEQ_H_
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace seq {

struct Counters {
  volatile unsigned long cases, ops, states, nontrivial, hb;
  volatile unsigned long nsamples;
  char marker[6000];
  char samples[6][400];
  volatile int overflow;
};
extern Counters *C;
extern bool thorough;

inline std::string show(const std::string &s) {  // printable
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < 300; i++) {
    unsigned char c = s[i];
    char b[8];
    if (c == '\\' || c == '"') { r += '\\'; r += c; }
    else if (c >= 32 && c < 127) r += c;
    else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  if (s.size() > 300) { char b[40]; snprintf(b, sizeof b, "...(%zu bytes)", s.size()); r += b; }
  return r + "\"";
}

// Start a new case.  The text is what a violation report (or a crash / hang) will show.
void begin(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void begin_s(const std::string &s);
inline void op(unsigned long n = 1) { C->ops += n; C->hb++; }
inline void state(unsigned long n = 1) { C->states += n; }
inline void nontrivial() { C->nontrivial++; }
void sample(const std::string &s);
// record the observable result / model state reached (distinct ones are counted)
void observe(const void *p, size_t n);
inline void observe(const std::string &s) { observe(s.data(), s.size()); }
inline void observe_u(uint64_t v) { observe(&v, sizeof v); }
// Report a violation in the current case.  key identifies the kind of failure.
void viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define SEQ_CHECK(c, key, ...) do { if (!(c)) { seq::viol(key, __VA_ARGS__); return; } } while (0)

typedef std::function<void(int part, int nparts)> Fn;
void task(const std::string &name, int parts_quick, int parts_thorough, Fn fn);  // parts 0: skip tier
int main(int argc, char **argv, void (*reg)());

// ---- enumeration helpers -------------------------------------------------------------------
// all strings over the alphabet with length in [lo,hi]; split over parts by index
inline void strings(const std::vector<std::string> &alpha, int lo, int hi, int part, int nparts,
                    const std::function<void(const std::string &)> &f) {
  unsigned long idx = 0;
  for (int len = lo; len <= hi; len++) {
    std::vector<int> d(len, 0);
    for (;;) {
      if ((int)(idx++ % nparts) == part) {
        std::string s;
        for (int i = 0; i < len; i++) s += alpha[d[i]];
        f(s);
      }
      int i = len - 1;
      while (i >= 0 && ++d[i] == (int)alpha.size()) d[i--] = 0;
      if (i < 0) break;
    }
  }
}
inline std::vector<std::string> chars(const char *s) {
  std::vector<std::string> r;
  for (; *s; s++) r.push_back(std::string(1, *s));
  return r;
}
// all index vectors of length len over [0,n)
inline void tuples(int n, int len, int part, int nparts, const std::function<void(const std::vector<int> &)> &f) {
  unsigned long idx = 0;
  std::vector<int> d(len, 0);
  for (;;) {
    if ((int)(idx++ % nparts) == part) f(d);
    int i = len - 1;
    while (i >= 0 && ++d[i] == n) d[i--] = 0;
    if (i < 0) break;
  }
}
}  // namespace seq
#endif
