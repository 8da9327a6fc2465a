// C27: rational numbers, Fourier transforms and small vectors against their definitions
#include "../mc/seq.h"
#include <math/ratio.h>
#include <math/fft.h>
#include <math/vector.h>
#include <complex>
#include <deque>
#include <limits>
#include <sstream>
#include <climits>
using namespace std;
typedef string S; typedef __int128 I;
static S dec(I v) { bool n = v < 0; if (n) v = -v; S r; do r.insert(r.begin(), '0' + (int)(v % 10)); while (v /= 10); return n ? "-" + r : r; }
// ---- ratio ------------------------------------------------------------------------------------
struct Q { I n, d; };
static I gcd(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static Q norm(I n, I d) { if (d < 0) n = -n, d = -d; I g = gcd(n, d); return {n / g, d / g}; }
template <class T> static bool eq(const pfi::math::ratio::ratio<T> &r, const Q &q) { return (I)r.num() == q.n && (I)r.den() == q.d; }
template <class T> static S sh(const pfi::math::ratio::ratio<T> &r) { return dec(r.num()) + "/" + dec(r.den()); }
template <class T> static bool fits(I v) { return v >= (I)numeric_limits<T>::min() + 1 && v <= (I)numeric_limits<T>::max(); }
template <class T> static void rone(const char *tn, T a, T b) {
  typedef pfi::math::ratio::ratio<T> R; seq::begin_s(S("ratio<") + tn + "> " + dec(a) + "/" + dec(b)); seq::op();
  R r(a, b); Q q = norm(a, b); SEQ_CHECK(eq(r, q), "ratio-reduce", "is %s instead of %s/%s", sh(r).c_str(), dec(q.n).c_str(), dec(q.d).c_str());
  ostringstream os; os << r; SEQ_CHECK(os.str() == dec(q.n) + "/" + dec(q.d), "ratio-print", "printed as %s", os.str().c_str());
  { R x = r; x += x; if (fits<T>(q.n * 2 * q.d) && fits<T>(q.d * 2)) SEQ_CHECK(eq(x, norm(2 * q.n, q.d)), "ratio-alias", "added to itself: %s", sh(x).c_str()); }
  { R x = r; x -= x; SEQ_CHECK(eq(x, Q{0, 1}), "ratio-alias", "subtracted from itself: %s", sh(x).c_str()); }
  if (fits<T>(q.n * q.n) && fits<T>(q.d * q.d)) { R x = r; x *= x; SEQ_CHECK(eq(x, Q{q.n * q.n, q.d * q.d}), "ratio-alias", "multiplied by itself: %s", sh(x).c_str()); }
  if (q.n) { R x = r; x /= x; SEQ_CHECK(eq(x, Q{1, 1}), "ratio-alias", "divided by itself: %s", sh(x).c_str()); }
  if (b == 1) { R x(a); SEQ_CHECK(eq(x, Q{a, 1}), "ratio-int", "whole number becomes %s", sh(x).c_str()); }
  seq::observe(sh(r));
}
template <class T> static void rtwo(const char *tn, T an, T ad, T bn, T bd) {
  typedef pfi::math::ratio::ratio<T> R; seq::begin_s(S("ratio<") + tn + "> " + dec(an) + "/" + dec(ad) + " and " + dec(bn) + "/" + dec(bd)); seq::op(8);
  const R a(an, ad), b(bn, bd); Q p = norm(an, ad), q = norm(bn, bd);
  I g = gcd(p.d, q.d), l = p.d / g * q.d;
  if (fits<T>(p.n * (q.d / g)) && fits<T>(q.n * (p.d / g)) && fits<T>(l)) {
    I s = p.n * (q.d / g) + q.n * (p.d / g), d = p.n * (q.d / g) - q.n * (p.d / g);
    if (fits<T>(s)) { R r = a + b; SEQ_CHECK(eq(r, norm(s, l)), "ratio-add", "sum is %s", sh(r).c_str()); R x = a; R &y = (x += b); SEQ_CHECK(eq(x, norm(s, l)) && &y == &x, "ratio-add", "+= gives %s", sh(x).c_str()); }
    if (fits<T>(d)) { R r = a - b; SEQ_CHECK(eq(r, norm(d, l)), "ratio-sub", "difference is %s", sh(r).c_str()); R x = a; R &y = (x -= b); SEQ_CHECK(eq(x, norm(d, l)) && &y == &x, "ratio-sub", "-= gives %s", sh(x).c_str()); }
  }
  Q m = norm(p.n * q.n, p.d * q.d); if (fits<T>(m.n) && fits<T>(m.d)) { R r = a * b; SEQ_CHECK(eq(r, m), "ratio-mul", "product is %s", sh(r).c_str()); R x = a; R &y = (x *= b); SEQ_CHECK(eq(x, m) && &y == &x, "ratio-mul", "*= gives %s", sh(x).c_str()); }
  if (q.n) { Q v = norm(p.n * q.d, p.d * q.n); if (fits<T>(v.n) && fits<T>(v.d)) { R r = a / b; SEQ_CHECK(eq(r, v), "ratio-div", "quotient is %s", sh(r).c_str()); R x = a; R &y = (x /= b); SEQ_CHECK(eq(x, v) && &y == &x, "ratio-div", "/= gives %s", sh(x).c_str()); } }
  SEQ_CHECK((a == b) == (p.n == q.n && p.d == q.d), "ratio-equal", "== is %d", a == b);
  SEQ_CHECK(eq(a, p) && eq(b, q), "ratio-operand", "an operand changed");
  if (g > 1) seq::nontrivial();
}
template <class T> static void ratios(const char *tn, int lim, const vector<T> &big, int p, int np) {
  vector<T> vs; for (int i = -lim; i <= lim; i++) vs.push_back(i); vector<T> bs = big; for (int i : {-3, -1, 0, 1, 2, 6}) bs.push_back(i);
  unsigned long n = 0;
  for (T a : vs) for (T b : vs) if (b) { if (n++ % np != (unsigned)p) continue; rone<T>(tn, a, b); for (T c : vs) for (T d : vs) if (d) rtwo<T>(tn, a, b, c, d); }
  for (T a : bs) for (T b : bs) if (b) { if (n++ % np != (unsigned)p) continue; rone<T>(tn, a, b); for (T c : bs) for (T d : bs) if (d) rtwo<T>(tn, a, b, c, d); }
}
template <class T> static vector<T> bigs() { T m = numeric_limits<T>::max(); T h = (T)1 << (sizeof(T) * 4); return {m, (T)-m, (T)(m - 1), (T)(m / 2), (T)(m / 3), (T)h, (T)(-h), (T)(h / 2), (T)(h * 3), (T)(h + 1)}; }
// ---- FFT --------------------------------------------------------------------------------------
template <class T> static vector<complex<T> > dft(const vector<complex<T> > &a, int sgn) {
  size_t n = a.size(); vector<complex<T> > r(n); long double pi = acosl(-1);
  for (size_t k = 0; k < n; k++) { complex<long double> s = 0; for (size_t j = 0; j < n; j++) { long double t = sgn * 2 * pi * ((j * k) % n) / n; s += complex<long double>(cosl(t), sinl(t)) * complex<long double>(a[j].real(), a[j].imag()); } r[k] = complex<T>((T)s.real(), (T)s.imag()); }
  return r;
}
template <class T> static bool close(const vector<complex<T> > &a, const vector<complex<T> > &b, T eps) { for (size_t i = 0; i < a.size(); i++) if (!(abs(a[i] - b[i]) <= eps)) return false; return true; }
template <class T> static void fftone(const vector<complex<T> > &v, T eps, const S &nm) {
  seq::begin_s("FFT of " + nm); seq::op(4); size_t n = v.size(); T scale = 1; for (auto &x : v) scale += abs(x); T e = eps * scale;
  vector<complex<T> > a = v; pfi::math::fft(a.begin(), a.end()); SEQ_CHECK(close(a, dft(v, 1), e), "fft", "the transform differs from its definition");
  vector<complex<T> > b = v; pfi::math::ifft(b.begin(), b.end()); SEQ_CHECK(close(b, dft(v, -1), e), "ifft", "the inverse transform differs from its definition");
  pfi::math::ifft(a.begin(), a.end()); for (auto &x : a) x /= (T)n; SEQ_CHECK(close(a, v, e), "fft-inverse", "transforming back and dividing by the length does not give the input");
  deque<complex<T> > d(v.begin(), v.end()); pfi::math::fft(d.begin(), d.end()); SEQ_CHECK(close(vector<complex<T> >(d.begin(), d.end()), dft(v, 1), e), "fft", "in a deque: differs");
  vector<complex<T> > arr(n + 2, complex<T>(7, 7)); copy(v.begin(), v.end(), arr.begin() + 1); pfi::math::fft(&arr[1], &arr[1] + n); SEQ_CHECK(close(vector<complex<T> >(arr.begin() + 1, arr.end() - 1), dft(v, 1), e) && arr[0] == complex<T>(7, 7) && arr[n + 1] == complex<T>(7, 7), "fft", "in place: differs or writes outside");
  S o; for (size_t i = 0; i < n && i < 8; i++) o += dec((long)(b[i].real() * 16)) + ","; seq::observe(o);
}
template <class T> static void ffts(T eps, int p, int np) {
  unsigned c = 0; bool t = seq::thorough;
  for (size_t n = 1; n <= (t ? 512u : 128u); n *= 2) for (size_t i = 0; i < n; i++) for (int k = 0; k < 2; k++) { if (c++ % np != (unsigned)p) continue; vector<complex<T> > v(n); v[i] = k ? complex<T>(0, 1) : complex<T>(1, 0); fftone(v, eps, "basis vector " + dec(i) + " of " + dec(n)); if (n > 2) seq::nontrivial(); }
  for (int n : {1, 2, 4}) { seq::tuples(n == 4 ? 4 : 5, n, p, np, [&](const vector<int> &ix) { static const complex<T> D[] = {complex<T>(0, 0), complex<T>(1, 0), complex<T>(0, -2), complex<T>(-1.5, 0.5), complex<T>(100, 3)}; vector<complex<T> > v; S nm; for (int i : ix) { v.push_back(D[i]); nm += dec(i); } fftone(v, eps, "combination " + nm); }); }
  if (t || p == 0) for (size_t n : {8u, 16u, 32u, 256u, 1024u}) for (int s = 0; s < 3; s++) { vector<complex<T> > v(n); for (size_t i = 0; i < n; i++) v[i] = complex<T>((T)((int)(i * (7 + s) % 13) - 6), (T)((int)(i * i % 11) - 5)); fftone(v, eps, "pattern " + dec(s) + " of " + dec(n)); }
  if (p == 0) for (int n = 0; n <= 130; n++) { seq::begin("FFT of length %d", n); seq::op(); bool pow2 = n > 0 && !(n & (n - 1)); for (int k = 0; k < 2; k++) { vector<complex<T> > v(n, complex<T>(1, 2)), w = v; bool threw = false; try { if (k) pfi::math::ifft(v.begin(), v.end()); else pfi::math::fft(v.begin(), v.end()); } catch (const length_error &) { threw = true; } SEQ_CHECK(threw == !pow2, "fft-length", "length %d is %s", n, threw ? "refused" : "accepted"); if (threw) SEQ_CHECK(v == w, "fft-length", "refused but changed"); } }
}
typedef complex<double> C; typedef vector<C> VC;
// large lengths against the closed form of the transform of a basis vector
static void big() {
  for (size_t n : {1u << 15, 1u << 16, 1u << 17}) for (size_t i : {(size_t)0, (size_t)1, n / 2 + 1, n - 1}) { seq::begin("FFT of basis vector %zu of %zu", i, n); seq::op(2); VC v(n); v[i] = 1; for (int inv = 0; inv < 2; inv++) { VC a = v; if (inv) pfi::math::ifft(a.begin(), a.end()); else pfi::math::fft(a.begin(), a.end()); for (size_t k = 0; k < n; k++) { double t = (inv ? -1 : 1) * 2 * M_PI * (double)((unsigned long)i * k % n) / n; SEQ_CHECK(abs(a[k] - C(cos(t), sin(t))) < 1e-9, inv ? "ifft" : "fft", "coefficient %zu differs from its definition", k); } } seq::nontrivial(); }
}
static VC dft2(const VC &a, size_t w, int sgn) { size_t h = a.size() / w; VC r(a.size()); for (size_t y = 0; y < h; y++) { VC row(a.begin() + y * w, a.begin() + (y + 1) * w); row = dft(row, sgn); copy(row.begin(), row.end(), r.begin() + y * w); } for (size_t x = 0; x < w; x++) { VC col(h); for (size_t y = 0; y < h; y++) col[y] = r[y * w + x]; col = dft(col, sgn); for (size_t y = 0; y < h; y++) r[y * w + x] = col[y]; } return r; }
static void fft2one(const VC &v, size_t w, const S &nm) {
  seq::begin_s("2-d FFT " + nm); seq::op(4); size_t h = v.size() / w; double e = 1e-9;
  for (int inv = 0; inv < 2; inv++) { VC want = dft2(v, w, inv ? -1 : 1), a = v; if (inv) pfi::math::ifft2d(a.begin(), a.end(), w); else pfi::math::fft2d(a.begin(), a.end(), w); SEQ_CHECK(close(a, want, e), "fft2d", "%s transform of a flat %zux%zu array differs", inv ? "inverse" : "forward", h, w);
    vector<VC> m(h, VC(w)); for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) m[y][x] = v[y * w + x]; if (inv) pfi::math::ifft2d(m); else pfi::math::fft2d(m); VC f; for (auto &r : m) f.insert(f.end(), r.begin(), r.end()); SEQ_CHECK(close(f, want, e), "fft2d", "%s transform of a %zux%zu matrix differs", inv ? "inverse" : "forward", h, w); }
}
static void fft2s(int p, int np) {
  unsigned c = 0;
  for (size_t h = 1; h <= 8; h *= 2) for (size_t w = 1; w <= 8; w *= 2) for (size_t i = 0; i < h * w; i++) { if (c++ % np != (unsigned)p) continue; VC v(h * w); v[i] = 1; fft2one(v, w, dec(h) + "x" + dec(w) + " basis " + dec(i)); v[i] = C(0, 2); v[(i * 5 + 3) % (h * w)] += C(1, -1); fft2one(v, w, dec(h) + "x" + dec(w) + " pair " + dec(i)); seq::nontrivial(); }
  if (p) return;
  for (size_t n = 0; n <= 20; n++) for (size_t w = 1; w <= 10; w++) { seq::begin("2-d FFT of %zu values with pitch %zu", n, w); seq::op(); size_t h = n / w; bool ok = h * w == n && h && !(h & (h - 1)) && !(w & (w - 1)); if (n == 0) continue; VC v(n, C(1, 1)); bool threw = false; try { pfi::math::fft2d(v.begin(), v.end(), w); } catch (const length_error &) { threw = true; } SEQ_CHECK(threw == !ok, "fft2d-length", "%s", threw ? "refused" : "accepted"); }
  for (size_t h = 0; h <= 6; h++) for (size_t w = 1; w <= 6; w++) for (size_t k = 0; k <= h; k++) { seq::begin("2-d FFT of a %zux%zu matrix, row %zu longer", h, w, k); seq::op(); vector<VC> m(h, VC(w)); if (k < h) m[k].push_back(C()); bool ok = h && !(h & (h - 1)) && !(w & (w - 1)) && k == h; if (k < h && h == 1) ok = !((w + 1) & w); bool threw = false; try { pfi::math::fft2d(m); } catch (const length_error &) { threw = true; } SEQ_CHECK(threw == !ok, "fft2d-length", "%s", threw ? "refused" : "accepted"); }
}
// ---- vectors -----------------------------------------------------------------------------------
template <class V, class T> static S vs(V v, int n) { S r = "("; for (int i = 0; i < n; i++) r += (i ? "," : "") + dec((long)(v[i] * 4)) ; return r + ")/4"; }
template <class T> static bool near(T a, T b) { return numeric_limits<T>::is_integer ? a == b : std::fabs((double)(a - b)) <= 1e-12 * (1 + std::fabs((double)b)); }
template <class V, class T> struct Vec {
  int n; const char *nm; vector<vector<T> > dom;
  V mk(const vector<T> &c) { vector<T> t = c; return V(&t[0]); }
  bool is(V v, const vector<T> &c) { for (int i = 0; i < n; i++) if (!(v[i] == c[i])) return false; return true; }
  void two(const vector<T> &a, const vector<T> &b) {
    V u = mk(a), v = mk(b); seq::begin_s(S(nm) + " " + vs<V, T>(u, n) + " " + vs<V, T>(v, n)); seq::op(10);
    vector<T> s(n), d(n); T in = 0; for (int i = 0; i < n; i++) { s[i] = a[i] + b[i]; d[i] = a[i] - b[i]; in += a[i] * b[i]; }
    SEQ_CHECK(is(u, a) && is(v, b), "vector-components", "components read back differently");
    SEQ_CHECK(is(u + v, s), "vector-add", "sum is %s", (vs<V, T>(u + v, n)).c_str()); SEQ_CHECK(is(u - v, d), "vector-sub", "difference is %s", (vs<V, T>(u - v, n)).c_str());
    SEQ_CHECK(u * v == in, "vector-inner", "inner product is %g instead of %g", (double)(u * v), (double)in);
    { V x = u; V &y = (x += v); SEQ_CHECK(is(x, s) && &y == &x, "vector-add", "+="); } { V x = u; V &y = (x -= v); SEQ_CHECK(is(x, d) && &y == &x, "vector-sub", "-="); }
    SEQ_CHECK((u == v) == (a == b), "vector-equal", "== is %d", u == v); SEQ_CHECK((u < v) == (a < b), "vector-order", "< is %d", u < v);
    T bb = 0; for (int i = 0; i < n; i++) bb += b[i] * b[i]; if (bb != 0) SEQ_CHECK(near<T>(u / v, in / bb), "vector-project", "projection factor is %g instead of %g", (double)(u / v), (double)(in / bb));
    SEQ_CHECK(is(u, a) && is(v, b), "vector-operand", "an operand changed"); if (in != 0) seq::nontrivial();
  }
  void one(const vector<T> &a) {
    V u = mk(a); seq::begin_s(S(nm) + " " + vs<V, T>(u, n)); seq::op(10);
    vector<T> g(n); T nn = 0; for (int i = 0; i < n; i++) { g[i] = -a[i]; nn += a[i] * a[i]; }
    SEQ_CHECK(is(-u, g), "vector-neg", "negated"); SEQ_CHECK(norm(u) == nn, "vector-norm", "norm is %g", (double)norm(u)); SEQ_CHECK(near<T>(abs(u), (T)std::sqrt(nn)), "vector-abs", "abs is %g", (double)abs(u));
    for (T k : {(T)0, (T)1, (T)-1, (T)2, (T)4}) { vector<T> m(n), q(n); for (int i = 0; i < n; i++) m[i] = a[i] * k, q[i] = k != 0 ? a[i] / k : 0; SEQ_CHECK(is(k * u, m) && is(u * k, m), "vector-scale", "times %g", (double)k); V x = u; V &y = (x *= k); SEQ_CHECK(is(x, m) && &y == &x, "vector-scale", "*= %g", (double)k); if (k != 0) { SEQ_CHECK(is(u / k, q), "vector-divide", "divided by %g", (double)k); V z = u; V &w = (z /= k); SEQ_CHECK(is(z, q) && &w == &z, "vector-divide", "/= %g", (double)k); } }
    for (int c = 0; c < n; c++) { T k = a[c]; vector<T> m(n), q(n); for (int i = 0; i < n; i++) m[i] = a[i] * k, q[i] = k != 0 ? a[i] / k : 0; V x = u; x *= x[c]; SEQ_CHECK(is(x, m), "vector-alias", "scaled by its own component %d: %s", c, (vs<V, T>(x, n)).c_str()); if (k != 0) { V y = u; y /= y[c]; SEQ_CHECK(is(y, q), "vector-alias", "divided by its own component %d: %s", c, (vs<V, T>(y, n)).c_str()); } }
    { vector<T> t2(n); for (int i = 0; i < n; i++) t2[i] = a[i] + a[i]; V x = u; x += x; SEQ_CHECK(is(x, t2), "vector-alias", "added to itself"); x = u; x -= x; SEQ_CHECK(is(x, vector<T>(n, 0)), "vector-alias", "subtracted from itself"); }
    vector<T> o(n + 2, (T)77); u.writeToArray(&o[1]); SEQ_CHECK(equal(a.begin(), a.end(), o.begin() + 1) && o[0] == 77 && o[n + 1] == 77, "vector-array", "written to an array");
    ostringstream os; os << u; ostringstream w; for (int i = 0; i < n; i++) w << (i ? " " : "") << a[i]; SEQ_CHECK(os.str() == w.str(), "vector-print", "printed as %s", os.str().c_str());
    istringstream is_(os.str() + " 9"); V r; is_ >> r; int nine = 0; is_ >> nine; SEQ_CHECK(is(r, a) && nine == 9, "vector-read", "read back differently");
    for (int i = 0; i < n; i++) { V x = u; x[i] = 55; vector<T> c = a; c[i] = 55; SEQ_CHECK(is(x, c), "vector-index", "assigning component %d changed another", i); }
    V z; SEQ_CHECK(is(z, vector<T>(n, 0)), "vector-zero", "the default vector is not zero"); seq::observe(os.str());
  }
  void run(int p, int np) { unsigned c = 0; for (auto &a : dom) { if (c++ % np != (unsigned)p) continue; one(a); for (auto &b : dom) two(a, b); } }
};
template <class T> static vector<vector<T> > all(int n, const vector<T> &d) { vector<vector<T> > r; seq::tuples(d.size(), n, 0, 1, [&](const vector<int> &ix) { vector<T> v; for (int i : ix) v.push_back(d[i]); r.push_back(v); }); return r; }
template <class T> static vector<vector<T> > some(int n) { static const int P[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29}; vector<vector<T> > r; vector<T> z(n), p(n), m(n); for (int i = 0; i < n; i++) { p[i] = P[i]; m[i] = -P[n - 1 - i]; } r = {z, p, m}; for (int i = 0; i < n; i++) { vector<T> v = z; v[i] = 1; r.push_back(v); v[i] = -4; r.push_back(v); v = p; v[i] += 1; r.push_back(v); v = m; v[i] = 8; r.push_back(v); } return r; }
template <class V, class T> static void vt(const char *nm, int n, const vector<vector<T> > &d, int parts) { seq::task(nm, parts, parts, [=](int p, int np) { Vec<V, T> v; v.n = n; v.nm = nm; v.dom = d; v.run(p, np); }); }
template <class V> static void unit(const char *nm, int n, const vector<vector<double> > &d) { for (auto a : d) { V u(&a[0]); double l = 0; for (double x : a) l += x * x; if (l == 0) continue; l = sqrt(l); for (double k : {1.0, 3.0, -0.5}) { seq::begin("%s normalised to %g", nm, k); seq::op(); V x = normalize(u, k), y = u.normalize(k), z = k == 1.0 ? normalize(u) : x, w = k == 1.0 ? u.normalize() : x; for (int i = 0; i < n; i++) { double e = a[i] * k / l; for (V *q : {&x, &y, &z, &w}) SEQ_CHECK(fabs((*q)[i] - e) < 1e-12 * (1 + fabs(e)), "vector-normalise", "component %d is %g instead of %g", i, (*q)[i], e); } } } }
namespace cn = pfi::math::vector::component_by_name; namespace ca = pfi::math::vector::component_by_array;
template <class V2, class V3> static void outer(const char *nm) {
  for (auto &a : all<int>(2, {-2, 0, 1, 3})) for (auto &b : all<int>(2, {-2, 0, 1, 3})) { seq::begin("%s (%d,%d)%%(%d,%d)", nm, a[0], a[1], b[0], b[1]); seq::op(); int g = V2(a[0], a[1]) % V2(b[0], b[1]); SEQ_CHECK(g == a[0] * b[1] - a[1] * b[0], "vector-outer", "is %d", g); }
  for (auto &a : all<int>(3, {-2, 0, 1, 3})) for (auto &b : all<int>(3, {-2, 0, 1, 3})) { seq::begin("%s (%d,%d,%d)%%(%d,%d,%d)", nm, a[0], a[1], a[2], b[0], b[1], b[2]); seq::op(); V3 g = V3(a[0], a[1], a[2]) % V3(b[0], b[1], b[2]); SEQ_CHECK(g[0] == a[1] * b[2] - a[2] * b[1] && g[1] == a[2] * b[0] - a[0] * b[2] && g[2] == a[0] * b[1] - a[1] * b[0], "vector-outer", "is (%d,%d,%d)", g[0], g[1], g[2]); }
}
static void ctors() {
  seq::begin("constructors from components"); seq::op(9);
#define CT(V, n, ...) { V v(__VA_ARGS__); for (int i = 0; i < n; i++) SEQ_CHECK(v[i] == i + 1, "vector-ctor", #V ": component %d is %d", i, v[i]); }
  CT(cn::vector2<int>, 2, 1, 2) CT(cn::vector3<int>, 3, 1, 2, 3) CT(cn::vector4<int>, 4, 1, 2, 3, 4) CT(ca::vector2<int>, 2, 1, 2) CT(ca::vector3<int>, 3, 1, 2, 3) CT(ca::vector4<int>, 4, 1, 2, 3, 4) CT(ca::vector5<int>, 5, 1, 2, 3, 4, 5) CT(ca::vector6<int>, 6, 1, 2, 3, 4, 5, 6) CT(ca::vector7<int>, 7, 1, 2, 3, 4, 5, 6, 7) CT(ca::vector8<int>, 8, 1, 2, 3, 4, 5, 6, 7, 8) CT(ca::vector9<int>, 9, 1, 2, 3, 4, 5, 6, 7, 8, 9) CT(ca::vector10<int>, 10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)
  { cn::vector4<int> v(1, 2, 3, 4); SEQ_CHECK(v.x == 1 && v.y == 2 && v.z == 3 && v.w == 4, "vector-ctor", "names"); cn::vector3<int> t(1, 2, 3); SEQ_CHECK(t.x == 1 && t.y == 2 && t.z == 3, "vector-ctor", "names"); cn::vector2<int> s(1, 2); SEQ_CHECK(s.x == 1 && s.y == 2, "vector-ctor", "names"); }
}
static void reg() {
  bool t = seq::thorough;
  seq::task("ratio int", 6, 12, [=](int p, int np) { ratios<int>("int", t ? 16 : 10, bigs<int>(), p, np); });
  seq::task("ratio long long", 6, 12, [=](int p, int np) { ratios<long long>("long long", t ? 12 : 6, bigs<long long>(), p, np); });
  seq::task("ratio long", 2, 4, [=](int p, int np) { ratios<long>("long", 4, bigs<long>(), p, np); });
  seq::task("ratio short", 2, 4, [=](int p, int np) { ratios<short>("short", 5, bigs<short>(), p, np); });
  seq::task("fft double", 3, 8, [](int p, int np) { ffts<double>(1e-11, p, np); }); seq::task("fft float", 3, 8, [](int p, int np) { ffts<float>(1e-3f, p, np); });
  seq::task("fft2d", 2, 4, fft2s); seq::task("fft large", 1, 1, [](int, int) { big(); });
  vector<int> d5 = {-2, -1, 0, 1, 3}, d3 = {-1, 0, 2}; vector<double> f = {-0.5, 0, 1, 4};
  vt<cn::vector2<int>, int>("vector2 by name", 2, all<int>(2, d5), 1); vt<ca::vector2<int>, int>("vector2 by array", 2, all<int>(2, d5), 1); vt<cn::vector3<int>, int>("vector3 by name", 3, all<int>(3, d5), 1); vt<ca::vector3<int>, int>("vector3 by array", 3, all<int>(3, d5), 1); vt<cn::vector4<int>, int>("vector4 by name", 4, all<int>(4, d3), 1); vt<ca::vector4<int>, int>("vector4 by array", 4, all<int>(4, d3), 1);
  vt<cn::vector3<double>, double>("vector3<double> by name", 3, all<double>(3, f), 1); vt<ca::vector4<double>, double>("vector4<double> by array", 4, some<double>(4), 1); vt<cn::vector4<double>, double>("vector4<double> by name", 4, some<double>(4), 1);
#define VT(n) vt<ca::vector##n<int>, int>("vector" #n, n, some<int>(n), 1); vt<ca::vector##n<double>, double>("vector" #n "<double>", n, some<double>(n), 1); seq::task("unit " #n, 1, 1, [](int, int) { unit<ca::vector##n<double> >("vector" #n, n, some<double>(n)); });
  VT(5) VT(6) VT(7) VT(8) VT(9) VT(10)
  seq::task("unit", 1, 1, [](int, int) { unit<cn::vector2<double> >("vector2", 2, some<double>(2)); unit<cn::vector3<double> >("vector3", 3, some<double>(3)); unit<cn::vector4<double> >("vector4", 4, some<double>(4)); unit<ca::vector2<double> >("vector2", 2, some<double>(2)); unit<ca::vector3<double> >("vector3", 3, some<double>(3)); unit<ca::vector4<double> >("vector4", 4, some<double>(4)); });
  seq::task("outer", 1, 1, [](int, int) { outer<cn::vector2<int>, cn::vector3<int> >("by name"); outer<ca::vector2<int>, ca::vector3<int> >("by array"); ctors(); });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
