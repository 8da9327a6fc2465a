// C34: clock arithmetic and calendar conversion, in time zones with and without daylight saving time
#include "../mc/seq.h"
#include <system/time_util.h>
#include <sys/time.h>
#include <time.h>
#include <math.h>
using namespace std; using pfi::system::time::clock_time; using pfi::system::time::calendar_time;
typedef string S; typedef __int128 I;
static S tos(long v) { char b[24]; snprintf(b, sizeof b, "%ld", v); return b; }
static S sh(const clock_time &c) { return tos(c.sec) + "s" + tos(c.usec) + "us"; }
static I us(const clock_time &c) { return (I)c.sec * 1000000 + c.usec; }
static void arith(int p, int np) {
  vector<uint64_t> ss = {0, 1, 2, 59, 60, 1000000, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 1ull << 50}; vector<int> uv = {0, 1, 2, 499999, 500000, 500001, 999998, 999999}; if (seq::thorough) for (int i = 10; i < 1000000; i *= 10) { uv.push_back(i); uv.push_back(1000000 - i); }
  unsigned n = 0;
  for (uint64_t s : ss) for (int u : uv) { if (n++ % np != (unsigned)p) continue; for (uint64_t t : ss) for (int v : uv) { clock_time a(s, u), b(t, v); seq::begin_s(sh(a) + " and " + sh(b)); seq::op(4);
    clock_time c = a + b; SEQ_CHECK(us(c) == us(a) + us(b) && c.usec >= 0 && c.usec < 1000000, "add", "sum is %s", sh(c).c_str()); clock_time x = a; clock_time &r = (x += b); SEQ_CHECK(us(x) == us(c) && x.usec == c.usec && &r == &x, "add", "+= gives %s", sh(x).c_str());
    if (us(a) >= us(b)) { clock_time d = a - b; SEQ_CHECK(us(d) == us(a) - us(b) && d.usec >= 0 && d.usec < 1000000, "subtract", "difference is %s", sh(d).c_str()); clock_time y = a; clock_time &q = (y -= b); SEQ_CHECK(us(y) == us(d) && y.usec == d.usec && &q == &y, "subtract", "-= gives %s", sh(y).c_str()); }
    clock_time z = (a + b) - b; SEQ_CHECK(z.sec == a.sec && z.usec == a.usec, "inverse", "adding and subtracting gives %s", sh(z).c_str());
    { clock_time w = a - b + b; SEQ_CHECK(w.sec == a.sec && w.usec == a.usec, "inverse", "subtracting and adding gives %s", sh(w).c_str()); }
    SEQ_CHECK((a < b) == (us(a) < us(b)), "order", "< is %d", a < b); SEQ_CHECK(a.sec == s && a.usec == u && b.sec == t && b.usec == v, "operand", "an operand changed"); 
    { clock_time e = a; e += e; SEQ_CHECK(us(e) == 2 * us(a) && e.usec < 1000000, "alias", "doubled: %s", sh(e).c_str()); e = a; e -= e; SEQ_CHECK(e.sec == 0 && e.usec == 0, "alias", "minus itself: %s", sh(e).c_str()); }
    double d = a, w = (double)s + u / 1e6; SEQ_CHECK(fabs(d - w) <= 1e-9 * (1 + w * 1e-6), "double", "as a double: %.9f", d); seq::observe(sh(c)); if (u + v >= 1000000) seq::nontrivial(); } }
}
static int days(int y, int m, int d) { y -= m <= 2; int era = y / 400, yo = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yo * 365 + yo / 4 - yo / 100 + doy; return era * 146097 + doe - 719468; }   // days since 1970-01-01
static S cs(const calendar_time &c) { char b[120]; snprintf(b, sizeof b, "%d-%02d-%02d %02d:%02d:%02d.%06d yday %d wday %d dst %d", c.year, c.mon, c.mday, c.hour, c.min, c.sec, c.usec, c.yday, c.wday, (int)c.isdst); return b; }
static void moment(const S &tz, time_t t, int u) {
  seq::begin_s(tz + " " + tos(t) + "." + tos(u)); seq::op(3);
  tm w; localtime_r(&t, &w); calendar_time c{clock_time(t, u)};
  SEQ_CHECK(c.year == w.tm_year + 1900 && c.mon == w.tm_mon + 1 && c.mday == w.tm_mday && c.hour == w.tm_hour && c.min == w.tm_min && c.sec == w.tm_sec && c.usec == u && c.yday == w.tm_yday && c.wday == w.tm_wday && c.isdst == (w.tm_isdst > 0), "calendar", "is %s", cs(c).c_str());
  long local = (long)days(c.year, c.mon, c.mday) * 86400 + c.hour * 3600 + c.min * 60 + c.sec; SEQ_CHECK(local == t + w.tm_gmtoff, "calendar", "%s is not %ld seconds after 1970", cs(c).c_str(), local); SEQ_CHECK(c.yday == days(c.year, c.mon, c.mday) - days(c.year, 1, 1) && c.wday == (days(c.year, c.mon, c.mday) + 4) % 7, "calendar", "day of year or week: %s", cs(c).c_str());
  clock_time b(c); SEQ_CHECK(b.sec == (uint64_t)t && b.usec == u, "back", "%s is converted back to %s", cs(c).c_str(), sh(b).c_str());
  calendar_time k(c.year, c.mon, c.mday, c.hour, c.min, c.sec, c.usec); clock_time kc(k);
  bool ambiguous = false; for (int d : {-7200, -3600, -1800, 1800, 3600, 7200}) { time_t o = t + d; tm x; localtime_r(&o, &x); if (x.tm_year == w.tm_year && x.tm_yday == w.tm_yday && x.tm_hour == w.tm_hour && x.tm_min == w.tm_min && x.tm_sec == w.tm_sec) ambiguous = true; }
  SEQ_CHECK(k.year == c.year && k.mon == c.mon && k.mday == c.mday && k.hour == c.hour && k.min == c.min && k.sec == c.sec && k.usec == c.usec && k.yday == c.yday && k.wday == c.wday, "fields", "built from its fields: %s instead of %s", cs(k).c_str(), cs(c).c_str());
  if (!ambiguous) { SEQ_CHECK(k.isdst == c.isdst, "dst", "daylight saving is %d for %s", (int)k.isdst, cs(c).c_str()); SEQ_CHECK(kc.sec == (uint64_t)t && kc.usec == u, "fields", "%s built from its fields is %s", cs(c).c_str(), sh(kc).c_str()); } else seq::nontrivial();
  if (w.tm_isdst > 0) seq::nontrivial(); seq::observe_u(t + w.tm_gmtoff);
}
static void zone(const S &tz, int part, int np) {
  setenv("TZ", tz.c_str(), 1); tzset(); unsigned n = 0; bool th = seq::thorough;
  for (time_t t = 86400; t < 4102444800L; t += th ? 86400 : 5 * 86400) { if (n++ % np == (unsigned)part) moment(tz, t + (t / 86400 % 24) * 3600 + t % 3600, t / 86400 % 3 ? 999999 : 0); }
  for (time_t t : {4294967295L, 4294967296L, 4294967297L, 4294967296L + 86400 * 200L, 8589934592L, 16725225600L, 32503680000L}) for (int u : {0, 999999}) if (n++ % np == (unsigned)part) { moment(tz, t, u); moment(tz, t + 86400 * 180, u); }
  int prev = -1; long poff = 0; for (time_t t = 86400 * 2; t < 4102444800L; t += 3600) { tm w; localtime_r(&t, &w); if (prev >= 0 && w.tm_gmtoff != poff && (th || w.tm_year < 75 || (w.tm_year > 105 && w.tm_year < 112) || (w.tm_year > 136 && w.tm_year < 140))) for (time_t o = t - 4 * 3600; o < t + 4 * 3600; o += 300) { if (n++ % np == (unsigned)part) { moment(tz, o, 1); moment(tz, o - 1, 500000); } } prev = w.tm_isdst; poff = w.tm_gmtoff; if (!prev && prev < 0) break; }
  for (int y : {1970, 1999, 2000, 2001, 2004, 2038, 2100}) for (int m = 1; m <= 12; m++) for (int d : {1, 28, 29, 30, 31}) { time_t t = (time_t)days(y, m, d) * 86400; if (t > 86400 && n++ % np == (unsigned)part) { moment(tz, t, 0); moment(tz, t - 1, 999999); } }
}
static void misc() {
  // operands whose microseconds are not normalised, and order over the whole range
  for (long s : {100L, 4294967295L}) for (int u : {-3000000, -1000001, -1000000, -1, 0, 5, 999999, 1000000, 1999999, 2000000, 30000001}) for (long t : {7L, 100L}) for (int v : {-3000000, -1000000, -1, 0, 999999, 1000000, 2000001}) { clock_time a(s, u), b(t, v); seq::begin_s("not normalised: " + sh(a) + " and " + sh(b)); seq::op(2); clock_time c = a + b; SEQ_CHECK(us(c) == us(a) + us(b) && c.usec >= 0 && c.usec < 1000000, "add", "sum is %s", sh(c).c_str()); if (us(a) >= us(b)) { clock_time d = a - b; SEQ_CHECK(us(d) == us(a) - us(b) && d.usec >= 0 && d.usec < 1000000, "subtract", "difference is %s", sh(d).c_str()); } seq::nontrivial(); }
  { vector<uint64_t> o = {0, 1, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 1ull << 62, ~0ull / 2, 1ull << 63, ~0ull - 1, ~0ull}; for (uint64_t s : o) for (uint64_t t : o) for (int u : {0, 1, 999999}) for (int v : {0, 1, 999999}) { clock_time a(s, u), b(t, v); seq::begin_s("order of " + sh(a) + " and " + sh(b)); seq::op(); SEQ_CHECK((a < b) == (s < t || (s == t && u < v)), "order", "< is %d", a < b); } }
  // fields out of range are carried over
  setenv("TZ", "UTC0", 1); tzset();
  { int D[][6] = {{2009, 13, 1, 0, 0, 0}, {2009, 0, 15, 1, 2, 3}, {2009, 2, 31, 5, 6, 7}, {2008, 2, 30, 0, 0, 0}, {2009, 12, 32, 23, 59, 59}, {2009, 3, 0, 0, 0, 0}, {2009, 6, 15, 24, 0, 0}, {2009, 6, 15, 25, 61, 61}, {2009, 12, 31, 23, 59, 60}, {2009, 6, 15, -1, 0, 0}, {2009, 1, 1, 0, 0, -1}, {2009, 25, 400, 100, 1000, 100000}}; for (auto &f : D) { seq::begin("%d-%d-%d %d:%d:%d", f[0], f[1], f[2], f[3], f[4], f[5]); seq::op(); int m0 = f[1] - 1, y = f[0] + (m0 >= 0 ? m0 / 12 : -((11 - m0) / 12)); m0 = ((m0 % 12) + 12) % 12; long w = ((long)days(y, m0 + 1, 1) + f[2] - 1) * 86400 + f[3] * 3600L + f[4] * 60L + f[5]; calendar_time c(f[0], f[1], f[2], f[3], f[4], f[5], 77); clock_time k(c); SEQ_CHECK(k.sec == (uint64_t)w && k.usec == 77, "carry", "is %s instead of %lds", sh(k).c_str(), w); calendar_time e{clock_time(w, 77)}; SEQ_CHECK(cs(c) == cs(e), "carry", "is %s instead of %s", cs(c).c_str(), cs(e).c_str()); seq::nontrivial(); } }
  seq::begin("the empty calendar time"); { calendar_time c; SEQ_CHECK(c.year == 0 && c.mon == 0 && c.mday == 0 && c.hour == 0 && c.min == 0 && c.sec == 0 && c.usec == 0 && c.yday == 0 && c.wday == 0 && !c.isdst, "empty", "%s", cs(c).c_str()); } seq::op();
  setenv("TZ", "UTC0", 1); tzset();
  // fields default to midnight
  for (int y : {1970, 2000, 2009}) for (int m = 1; m <= 12; m++) for (int d = 2; d <= 28; d += 13) { seq::begin("%d-%d-%d at midnight", y, m, d); calendar_time c(y, m, d); clock_time k(c); SEQ_CHECK(k.sec == (uint64_t)days(y, m, d) * 86400 && k.usec == 0, "midnight", "is %s", sh(k).c_str()); calendar_time h(y, m, d, 7, 8); SEQ_CHECK(clock_time(h).sec == (uint64_t)days(y, m, d) * 86400 + 7 * 3600 + 8 * 60, "midnight", "with hour and minute"); seq::op(2); }
  // the current time
  for (int i = 0; i < 2000; i++) { seq::begin("current time #%d", i); timeval a, b; gettimeofday(&a, 0); clock_time c = pfi::system::time::get_clock_time(); gettimeofday(&b, 0); I l = (I)a.tv_sec * 1000000 + a.tv_usec, h = (I)b.tv_sec * 1000000 + b.tv_usec; SEQ_CHECK(c.usec >= 0 && c.usec < 1000000 && (h < l || (us(c) >= l - 2 && us(c) <= h + 2)), "now", "is %s", sh(c).c_str()); seq::op(); }
}
static void reg() {
  seq::task("arithmetic", 2, 8, arith); seq::task("other", 1, 1, [](int, int) { misc(); });
  for (const char *z : {"UTC0", "JST-9", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "IST-5:30", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "WET0WEST,M3.5.0/1,M10.5.0", "NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01", "XXX12"}) seq::task(S("zone ") + z, 1, 2, [=](int p, int np) { zone(z, p, np); });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
