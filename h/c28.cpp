// C28: random numbers: MT19937 exactly; documented ranges for every raw draw; samples uniform over all choice sequences
#include "../mc/seq.h"
#include <math/random.h>
#include <algorithm>
#include <random>
#include <cmath>
#include <climits>
#include <cfloat>
using namespace std;
typedef string S;
static S tos(long v) { char b[24]; snprintf(b, sizeof b, "%ld", v); return b; }
// a generator whose raw 32-bit draws are given
static vector<uint32_t> script; static size_t at;
struct Gen { Gen(uint32_t) {} uint32_t next() { uint32_t r = script[at % script.size()]; at++; return r; } };
typedef pfi::math::random::random<Gen> R;
static R rnd(uint32_t a, uint32_t b, uint32_t c = 0, uint32_t d = 0) { script = {a, b, c, d}; at = 0; return R(1u); }
static vector<uint32_t> raws() { vector<uint32_t> r = {0, 1, 31, 32, 63, 64, 0x7fffffff, 0x80000000u, 0x80000001u, ~0u - 63, ~0u - 32, ~0u - 31, ~0u - 1, ~0u}; for (int i = 0; i < 32; i += 3) { r.push_back(1u << i); r.push_back(~(1u << i)); } return r; }
static void mt(int p, int np) {
  vector<uint32_t> seeds = {0, 1, 2, 5489, 19650218, 4357, 0x7fffffff, 0x80000000u, ~0u}; for (int i = 0; i < 32; i++) seeds.push_back(1u << i); if (seq::thorough) for (int i = 0; i < 5000; i++) seeds.push_back(i);
  for (size_t s = p; s < seeds.size(); s += np) { seq::begin("Mersenne twister seeded with %u", seeds[s]); pfi::math::random::mersenne_twister m(seeds[s]); pfi::math::random::mtrand r(seeds[s]); mt19937 w(seeds[s]); 
    for (int i = 0; i < 2600; i++) { uint32_t e = w(), g = m.next(), h = i & 1 ? r.next_int() : r(); SEQ_CHECK(g == e && h == e, "mt", "draw %d is %u / %u instead of %u", i, g, h, e); seq::op(); if (i == 700) { pfi::math::random::mersenne_twister c(m); for (int k = 0; k < 5; k++) c.next(); } if (i % 400 == 0) seq::observe_u(g); } seq::nontrivial(); }
  for (size_t s = p; s < seeds.size(); s += np) { seq::begin("first values of a generator seeded with %u", seeds[s]); seq::op(6); mt19937 w(seeds[s]); script.clear(); for (int i = 0; i < 40; i++) script.push_back(w()); at = 0; R r(123457u); pfi::math::random::mtrand m(seeds[s]); for (int i = 0; i < 5; i++) { double a = m.next_gaussian(), b = r.next_gaussian(); SEQ_CHECK(a == b, "seeded", "gaussian %d is %g instead of %g", i, a, b); } SEQ_CHECK(m.next_double() == r.next_double(), "seeded", "real"); SEQ_CHECK(m.next_int(1000) == r.next_int(1000), "seeded", "integer"); }
}
static void ints(int p, int np) {
  vector<uint32_t> rs = raws(), as = {1, 2, 3, 4, 5, 6, 7, 10, 100, 255, 256, 257, 1000003, 0x7fffffff, 0x80000000u, 0x80000001u, ~0u - 1, ~0u}; unsigned n = 0;
  for (uint32_t a : as) for (uint32_t x : rs) { if (n++ % np != (unsigned)p) continue; for (uint32_t y : rs) {
    seq::begin("raw draws %08x %08x, bound %u", x, y, a); seq::op(2); { R r = rnd(x, y); uint32_t v = r.next_int(a); SEQ_CHECK(v < a, "int-range", "next_int(a) is %u", v); R q = rnd(x, y); SEQ_CHECK(q(a) == v, "int-call", "r(a) differs from next_int(a)"); seq::observe_u(v);
      for (uint32_t lo : {1u, 77u, 0x80000000u}) if (lo + a > lo) { R t = rnd(x, y); uint32_t u = t.next_int(lo, lo + a); SEQ_CHECK(u >= lo && u < lo + a, "int-range", "next_int(%u,%u) is %u", lo, lo + a, u); R s = rnd(x, y); SEQ_CHECK(s(lo, lo + a) == u, "int-call", "r(a,b) differs from next_int(a,b)"); } }
    { R r = rnd(x, y); uint32_t v = r.next_int(); SEQ_CHECK(v == x, "int-raw", "next_int() is %08x", v); }
    seq::nontrivial(); } }
  // every bucket of a small bound gets its share of an even grid of draws, both ends included
  if (p == 0) for (uint32_t a = 1; a <= 40; a++) { seq::begin("even grid of draws, bound %u", a); vector<long> cnt(a); const int G = 4096; for (int i = 0; i < G; i++) { seq::op(); R r = rnd((uint32_t)i << 20 | 1u << 19, 0x80000000u); uint32_t v = r.next_int(a); SEQ_CHECK(v < a, "int-range", "out of range"); cnt[v]++; } for (uint32_t k = 0; k < a; k++) SEQ_CHECK(labs(cnt[k] * (long)a - G) <= (long)2 * a, "int-uniform", "%u is drawn %ld times of %d", k, cnt[k], G); }
}
static void doubles(int p, int np) {
  vector<uint32_t> rs = raws(); vector<double> as = {1, 0.1, 0.3, 3, 1e-300, DBL_MIN, 4e-320, 5e-324, 1e300, DBL_MAX, 2, 1 + DBL_EPSILON, 7.7}; vector<pair<double, double> > ab = {{0, 1}, {1, 2}, {-1, 1}, {-2, -1}, {1, 1 + DBL_EPSILON}, {1, 1 + 2 * DBL_EPSILON}, {1e16, 1e16 + 2}, {-1e16, 1e16}, {1e300, 1.1e300}, {0.1, 0.3}, {5, 6}, {1023.5, 1e6}, {-0.1, 0.2}, {-1e-300, 1}, {1, DBL_MAX}};
  unsigned n = 0;
  for (uint32_t x : rs) { if (n++ % np != (unsigned)p) continue; for (uint32_t y : rs) {
    seq::begin("raw draws %08x %08x as a real", x, y); seq::op(3); R r = rnd(x, y); double d = r.next_double(); SEQ_CHECK(d >= 0 && d < 1, "real-range", "next_double() is %.17g", d); long double w = ((long double)(x >> 5) * 67108864.0L + (y >> 6)) / 9007199254740992.0L; SEQ_CHECK((long double)d == w, "real-53", "next_double() is %.17g, the 53 bits drawn are %.17Lg", d, w); SEQ_CHECK(at == 2, "real-draws", "%zu raw draws used", at); seq::observe(&d, sizeof d);
    for (double a : as) { R q = rnd(x, y); double v = q.next_double(a); SEQ_CHECK(v >= 0 && v < a, "real-range", "next_double(%g) is %.17g", a, v); SEQ_CHECK(a < 1e-300 || fabs(v / a - d) < 1e-15, "real-scale", "next_double(%g) is %.17g", a, v); }
    for (auto &b : ab) { R q = rnd(x, y); double v = q.next_double(b.first, b.second); SEQ_CHECK(v >= b.first && v < b.second, "real-range", "next_double(%.17g,%.17g) is %.17g", b.first, b.second, v); double e = b.first + d * (b.second - b.first), tol = (fabs(b.first) + fabs(b.second - b.first)) * 4e-16; SEQ_CHECK(fabs(v - e) <= tol, "real-scale", "next_double(%g,%g) is %.17g instead of %.17g", b.first, b.second, v, e); }
    seq::nontrivial(); } }
}
static double Phi(double x) { return 0.5 * erfc(-x / sqrt(2.0)); }
static void gauss(int p, int) {
  if (p == 0) { vector<uint32_t> rs = raws(); for (uint32_t x : rs) for (uint32_t y : rs) for (uint32_t z : {0u, ~0u, 0x40000000u, 0xc0000000u, 123456789u}) { seq::begin("gaussian from raw draws %08x %08x %08x", x, y, z); seq::op(2); R r = rnd(x, y, z, z); double a = r.next_gaussian(), b = r.next_gaussian(); size_t used = at; SEQ_CHECK(isfinite(a) && isfinite(b) && fabs(a) < 9 && fabs(b) < 9, "gauss-finite", "%g and %g", a, b); SEQ_CHECK(used == 4, "gauss-draws", "%zu raw draws for two values", used);
      R q = rnd(x, y, z, z); double c = q.next_gaussian(10, 3), d = q.next_gaussian(-4, 0.5); SEQ_CHECK(fabs(c - (10 + 3 * a)) < 1e-12 && fabs(d - (-4 + 0.5 * b)) < 1e-12, "gauss-scale", "with mean and deviation: %g %g from %g %g", c, d, a, b); 
      R s = rnd(x, y, z, z); s.next_gaussian(); R t(s); double e = s.next_gaussian(); SEQ_CHECK(e == b, "gauss-pair", "second value differs"); SEQ_CHECK(t.next_gaussian() == b, "gauss-copy", "a copy forgets the second value"); double f; { script = {0x31234567, 5, 0x71234567, 5}; at = 0; f = s.next_gaussian(); } R u = rnd(0x31234567, 5, 0x71234567, 5); SEQ_CHECK(f == u.next_gaussian(), "gauss-pair", "the third value does not come from fresh draws"); double g; memcpy(&g, &a, sizeof g); seq::observe(&g, sizeof g); } return; }
  // an even grid over the unit square of draws: both values must be standard normal and uncorrelated
  const int G = seq::thorough ? 1024 : 256; seq::begin("even %dx%d grid of draws", G, G); vector<double> A, B; double ab = 0;
  for (int i = 0; i < G; i++) for (int j = 0; j < G; j++) { auto raw = [&](int k) { return (uint32_t)(((unsigned long)(2 * k + 1) << 31) / G); }; R r = rnd(raw(i), 0x80000000u, raw(j), 0x80000000u); double a = r.next_gaussian(), b = r.next_gaussian(); A.push_back(a); B.push_back(b); ab += a * b; seq::op(); }
  for (vector<double> *v : {&A, &B}) { sort(v->begin(), v->end()); double m = 0, s = 0; for (double x : *v) m += x, s += x * x; m /= v->size(); s /= v->size(); SEQ_CHECK(fabs(m) < 0.01 && fabs(s - 1) < 0.02, "gauss-moments", "mean %g, variance %g", m, s); for (double x = -3; x <= 3; x += 0.25) { double f = (upper_bound(v->begin(), v->end(), x) - v->begin()) / (double)v->size(); SEQ_CHECK(fabs(f - Phi(x)) < 0.01, "gauss-distribution", "P(X<=%g) is %g instead of %g", x, f, Phi(x)); } }
  SEQ_CHECK(fabs(ab / A.size()) < 0.01, "gauss-correlation", "the two values are correlated"); seq::nontrivial();
}
// all sequences of choices, with their exact probabilities
struct Choice { vector<int> c; vector<uint32_t> n; size_t i; bool bad; long double prob; 
  uint32_t pick(uint32_t k) { if (k == 0) { bad = true; return 0; } if (i == c.size()) { c.push_back(0); n.push_back(k); } n[i] = k; prob /= k; return c[i++]; }
  uint32_t operator()(uint32_t k) { return pick(k); } uint32_t operator()(uint32_t a, uint32_t b) { return a + pick(b - a); } uint32_t next_int(uint32_t k) { return pick(k); } uint32_t next_int(uint32_t a, uint32_t b) { return a + pick(b - a); }
  bool next() { c.resize(i); n.resize(i); while (!c.empty() && ++c.back() == (int)n.back()) { c.pop_back(); n.pop_back(); } return !c.empty(); } };
static void samples(bool with) {
  int N = seq::thorough ? 7 : 6;
  for (int n = 1; n <= N; n++) for (int k = 0; k <= (with ? 4 : n); k++) for (int pre : {0, 2, 9}) {
    S nm = S(with ? "with" : "without") + " replacement: " + tos(k) + " of " + tos(n) + ", vector held " + tos(pre); map<vector<int>, long double> P; Choice g; long double total = 0; vector<vector<long double> > pos(k, vector<long double>(n));
    do { g.i = 0; g.bad = false; g.prob = 1; seq::begin_s(nm); seq::op(); vector<int> res(pre, -5); bool ok = with ? pfi::math::random::sample_with_replacement(g, n, k, res) : pfi::math::random::sample_without_replacement(g, n, k, res);
      SEQ_CHECK(ok, "sample-refused", "refused"); SEQ_CHECK(!g.bad, "sample-draw", "a draw from an empty range"); SEQ_CHECK((int)res.size() == k, "sample-size", "%zu values", res.size()); for (int i = 0; i < k; i++) { SEQ_CHECK(res[i] >= 0 && res[i] < n, "sample-range", "value %d", res[i]); pos[i][res[i]] += g.prob; }
      vector<int> s = res; sort(s.begin(), s.end()); if (!with) SEQ_CHECK(unique(s.begin(), s.end()) == s.end(), "sample-distinct", "a value was drawn twice"); P[with ? res : s] += g.prob; total += g.prob; S o; for (int v : res) o += tos(v); seq::observe(o); if (k > 1) seq::nontrivial(); } while (g.next());
    double cnt = 1; if (with) cnt = pow(n, k); else { for (int i = 0; i < k; i++) cnt = cnt * (n - i) / (i + 1); }
    SEQ_CHECK(fabsl(total - 1) < 1e-12L, "sample-total", "probabilities sum to %Lg", total); SEQ_CHECK((double)P.size() == round(cnt), "sample-uniform", "%zu of %g outcomes are possible", P.size(), cnt); for (auto &e : P) SEQ_CHECK(fabsl(e.second * cnt - 1) < 1e-9L, "sample-uniform", "an outcome has probability %Lg instead of 1/%g", e.second, cnt);
    for (int i = 0; i < k; i++) for (int v = 0; v < n; v++) SEQ_CHECK(fabsl(pos[i][v] * n - 1) < 1e-9L, "sample-position", "value %d stands at position %d with probability %Lg", v, i, pos[i][v]);
  }
  for (int n = -2; n <= 3; n++) for (int k = -2; k <= 6; k++) { bool w = !(n <= 0 || k < 0 || (!with && k > n)); seq::begin_s(S(with ? "with" : "without") + " replacement: " + tos(k) + " of " + tos(n)); seq::op(); pfi::math::random::mtrand r(7); vector<int> res; bool ok = with ? pfi::math::random::sample_with_replacement(r, n, k, res) : pfi::math::random::sample_without_replacement(r, n, k, res); SEQ_CHECK(ok == w, "sample-refused", "%s", ok ? "accepted" : "refused"); }
  for (int n : {1, 2, 10, 1000, 1000000, INT_MAX}) for (int k : {0, 1, 2, 10, 200}) for (uint32_t s = 0; s < 20; s++) if (with || k <= n) { seq::begin_s(S(with ? "with" : "without") + " replacement, Mersenne twister " + tos(s) + ": " + tos(k) + " of " + tos(n)); seq::op(); pfi::math::random::mtrand r(s); vector<int> res; bool ok = with ? pfi::math::random::sample_with_replacement(r, n, k, res) : pfi::math::random::sample_without_replacement(r, n, k, res); SEQ_CHECK(ok && (int)res.size() == k, "sample-size", "refused or wrong size"); for (int v : res) SEQ_CHECK(v >= 0 && v < n, "sample-range", "value %d", v); if (!with) { sort(res.begin(), res.end()); SEQ_CHECK(unique(res.begin(), res.end()) == res.end(), "sample-distinct", "a value was drawn twice"); } }
}
static void reg() {
  seq::task("mersenne twister", 2, 8, mt); seq::task("integers", 2, 2, ints); seq::task("reals", 2, 2, doubles); seq::task("gaussian", 2, 2, gauss);
  seq::task("with replacement", 1, 1, [](int, int) { samples(true); }); seq::task("without replacement", 1, 1, [](int, int) { samples(false); });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
