// C43: system statistics, read from /proc files with every content of a stated space
#include "../mc/seq.h"
#include <cmath>
#include <dlfcn.h>
#include <fcntl.h>
#include <system/sysstat.h>
#include <unistd.h>
#include <sys/stat.h>
typedef std::string S;
static bool on; static S dir;
static S mem, load; static bool has_mem, has_load;
static const char *subst(const char *p) { static char a[4096], b[4096]; if (!on || !p) return p; if (!strcmp(p, "/proc/meminfo")) { snprintf(a, sizeof a, "%s/meminfo", dir.c_str()); return a; } if (!strcmp(p, "/proc/loadavg")) { snprintf(b, sizeof b, "%s/loadavg", dir.c_str()); return b; } return p; }
template <class F> static F *next(const char *n) { return (F *)dlsym(RTLD_NEXT, n); }
extern "C" {
FILE *fopen(const char *p, const char *m) { return next<FILE *(const char *, const char *)>("fopen")(subst(p), m); }
FILE *fopen64(const char *p, const char *m) { return next<FILE *(const char *, const char *)>("fopen64")(subst(p), m); }
int open(const char *p, int f, ...) { va_list ap; va_start(ap, f); int m = va_arg(ap, int); va_end(ap); return next<int(const char *, int, ...)>("open")(subst(p), f, m); }
int open64(const char *p, int f, ...) { va_list ap; va_start(ap, f); int m = va_arg(ap, int); va_end(ap); return next<int(const char *, int, ...)>("open64")(subst(p), f, m); }
int openat(int d, const char *p, int f, ...) { va_list ap; va_start(ap, f); int m = va_arg(ap, int); va_end(ap); return next<int(int, const char *, int, ...)>("openat")(d, subst(p), f, m); }
int getloadavg(double *v, int n) { const char *p = has_load ? load.c_str() : ""; int i = 0; for (; i < n && i < 3; i++) { char *e; v[i] = strtod(p, &e); if (e == p) break; p = e; } return i ? i : -1; }
}
static void put(const S &n, const S &t, bool have) { S p = dir + "/" + n; if (!have) { unlink(p.c_str()); return; } FILE *f = fopen(p.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
static bool get(pfi::system::sysstat::sysstat_ret &r) { put("meminfo", mem, has_mem); put("loadavg", load, has_load); memset(&r, 0xa5, sizeof r); on = true; int rc = pfi::system::sysstat::get_sysstat(r); on = false; return rc == 0; }
static uint64_t unit;   // bytes per kB, 1000 or 1024, but one of them throughout
typedef unsigned long long U;
static S line(const S &n, U v, const S &unit, const S &pad) { return n + ":" + pad + std::to_string(v) + unit + "\n"; }
static const U vals[] = {0, 1, 999, 4096, 2147483646ull, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 8589934593ull, 1099511627776ull, 17592186044415ull};
static void check(const S &what, U total, U fr, U cached, bool kb) {
  seq::begin_s(what); seq::op(); pfi::system::sysstat::sysstat_ret r; SEQ_CHECK(get(r), "fails", "get_sysstat fails");
  U k = kb ? unit : 1; SEQ_CHECK(r.total_memory == total * k, "total", "total memory %llu instead of %llu", (U)r.total_memory, total * k);
  SEQ_CHECK(r.free_memory == (fr + cached) * k, "free", "free memory %llu instead of %llu", (U)r.free_memory, (fr + cached) * k); seq::observe_u(r.total_memory * 31 + r.free_memory);
}
static void calibrate() { char t[] = "/tmp/c43-XXXXXX"; dir = mkdtemp(t); mem = "MemTotal: 3 kB\n"; has_mem = true; load = "0.00 0.00 0.00 1/1 1\n"; has_load = true; pfi::system::sysstat::sysstat_ret r; get(r); unit = r.total_memory == 3 * 1024 ? 1024 : 1000; }
static void done() { put("meminfo", "", false); put("loadavg", "", false); rmdir(dir.c_str()); }
struct Scratch { Scratch() { calibrate(); } ~Scratch() { done(); } };
static void reg() {
  seq::task("memory", 4, 4, [](int part, int n) {
    Scratch scratch; int c = 0; has_load = true; load = "1.00 2.00 3.00 1/200 4242\n";
    for (U t : vals) for (U f : vals) for (U ca : vals) for (int lay = 0; lay < 6; lay++) { if (c++ % n != part) continue;
      S pad = lay & 1 ? " " : "        "; bool kb = lay != 5; S u = kb ? " kB" : "";
      S a = line("MemTotal", t, u, pad), b = line("MemFree", f, u, pad), d = line("Cached", ca, u, pad), av = line("MemAvailable", 77, u, pad) + line("Buffers", 55, u, pad), sw = line("SwapCached", 33, u, pad) + line("SwapTotal", 1111, u, pad) + line("SwapFree", 2222, u, pad), rest = line("Active", 9, u, pad) + line("HugePages_Total", 5, "", pad) + line("HugePages_Free", 6, "", pad) + line("CmaTotal", 3, u, pad) + line("CmaFree", 4, u, pad) + line("HighTotal", 7, u, pad) + line("LowFree", 8, u, pad) + line("NodeMemTotal", 12, u, pad) + line("NodeMemFree", 13, u, pad) + line("FileCached", 14, u, pad) + "DirectMap4k:\n\n";
      mem = lay == 0 ? a + b + av + d + sw + rest : lay == 1 ? d + sw + b + a : lay == 2 ? sw + a + d + b + rest : lay == 3 ? a + b + d : lay == 4 ? rest + sw + a + av + b + d : b + a + sw + d; has_mem = true; if (lay == 3) mem.resize(mem.size() - 1);
      check("layout " + std::to_string(lay) + " total " + std::to_string(t) + " free " + std::to_string(f) + " cached " + std::to_string(ca), t, f, ca, kb); }
    
  });
  seq::task("missing", 1, 1, [](int, int) {
    Scratch scratch; for (int k = 0; k < 16; k++) { U t = 100, f = 20, ca = 3; mem = ""; if (k & 1) mem += line("MemTotal", t, " kB", " "); if (k & 2) mem += line("MemFree", f, " kB", " "); if (k & 4) mem += line("Cached", ca, " kB", " "); has_mem = !(k & 8) || (k & 7); if (k & 8) mem += "MemTotally: x\n"; if (!has_mem) mem = ""; if (k & 8) mem = mem.substr(0, mem.find("MemTotally"));
      check("lines present " + std::to_string(k), k & 1 ? t : 0, k & 2 ? f : 0, k & 4 ? ca : 0, true); }
    has_mem = false; check("no meminfo file", 0, 0, 0, true); 
  });
  seq::task("load", 1, 1, [](int, int) {
    Scratch scratch; static const char *v[] = {"0.00", "0.01", "0.99", "1.00", "9.99", "10.00", "123.45", "99999.99"}; has_load = true;
    for (auto a : v) for (auto b : v) for (auto c : v) { load = S(a) + " " + b + " " + c + " 12/345 6789\n"; seq::begin_s("load " + load.substr(0, load.size() - 1)); seq::op(); pfi::system::sysstat::sysstat_ret r; SEQ_CHECK(get(r), "fails", "get_sysstat fails"); SEQ_CHECK(std::fabs(r.loadavg - atof(a)) < 1e-9, "load", "load %f instead of %s", r.loadavg, a); SEQ_CHECK(r.total_memory == 3 * unit && r.free_memory == 0, "other", "memory figures changed"); seq::observe_u(r.loadavg * 100 + 0.5); }
    has_load = false; seq::begin("no loadavg file"); pfi::system::sysstat::sysstat_ret r; SEQ_CHECK(get(r), "fails", "get_sysstat fails"); SEQ_CHECK(r.loadavg == 0, "load", "load %f without a file", r.loadavg); 
  });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
