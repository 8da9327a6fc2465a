#include "seq.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
namespace seq {
Counters *C = 0;
bool thorough = false;
static std::set<std::string> known;
static int outfd = 1;
static std::string cur_task; static int cur_part, cur_parts;
static int nviol = 0;
static std::set<std::string> seen_known;
struct T { std::string name; int q, t; Fn fn; };
static std::vector<T> tasks;
void task(const std::string &n, int q, int t, Fn fn) { T x; x.name = n; x.q = q; x.t = t; x.fn = fn; tasks.push_back(x); }

static const size_t BITS = 1u << 26;
static uint8_t *bm_case, *bm_obs;
static uint64_t hash(const void *p, size_t n, uint64_t h) {
  const unsigned char *q = (const unsigned char *)p;
  while (n >= 8) { uint64_t v; memcpy(&v, q, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; q += 8; n -= 8; }
  while (n--) h = (h ^ *q++) * 0x100000001b3ull;
  h ^= h >> 32; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32;
  return h;
}
static void setbit(uint8_t *b, uint64_t h) { size_t i = h & (BITS - 1); uint8_t m = 1 << (i & 7); if (!(b[i >> 3] & m)) __sync_fetch_and_or(b + (i >> 3), m); }
static unsigned long popc(uint8_t *b) { unsigned long n = 0; for (size_t i = 0; i < BITS / 64; i++) n += __builtin_popcountll(((uint64_t *)b)[i]); return n; }
void observe(const void *p, size_t n) { setbit(bm_obs, hash(p, n, cur_task.size() * 7919 + (cur_task.empty() ? 0 : cur_task[0]))); }
static void wr(const std::string &s) { const char *p = s.data(); size_t n = s.size(); while (n) { ssize_t k = write(outfd, p, n); if (k <= 0) break; p += k; n -= k; } }
static std::string one(const std::string &s) { std::string r; for (char c : s) r += (c == '\n' || c == '\r') ? ' ' : c; return r; }
void begin_s(const std::string &s) {
  C->cases++; C->hb++;
  size_t n = std::min(s.size(), sizeof C->marker - 1);
  memcpy(C->marker, s.data(), n); C->marker[n] = 0;
  setbit(bm_case, hash(s.data(), s.size(), cur_task.size()));
}
void begin(const char *fmt, ...) {
  C->cases++; C->hb++;
  va_list ap; va_start(ap, fmt); int k = vsnprintf(C->marker, sizeof C->marker, fmt, ap); va_end(ap);
  setbit(bm_case, hash(C->marker, std::min<size_t>(k, sizeof C->marker - 1), cur_task.size()));
}
void sample(const std::string &s) {
  unsigned long n = C->nsamples;
  if (n < 6) { snprintf(C->samples[n], sizeof C->samples[n], "%s", s.c_str()); C->nsamples = n + 1; }
}
void viol(const char *key, const char *fmt, ...) {
  char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (known.count(key)) { if (seen_known.insert(key).second) wr(std::string("KNOWN key=") + key + "\n"); return; }
  char h[300]; snprintf(h, sizeof h, "VIOL key=%s task=%s part=%d/%d :: ", key, cur_task.c_str(), cur_part, cur_parts);
  wr(std::string(h) + one(C->marker) + " => " + one(b) + "\n");
  if (++nviol >= 3) _exit(41);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double rss_of(pid_t p) {  // MB
  char f[64]; snprintf(f, sizeof f, "/proc/%d/statm", (int)p);
  FILE *fp = fopen(f, "r"); if (!fp) return 0;
  long a = 0, b = 0; if (fscanf(fp, "%ld %ld", &a, &b) != 2) b = 0;
  fclose(fp); return b * (sysconf(_SC_PAGESIZE) / 1048576.0);
}
static double cpu_of(pid_t p) {
  char f[64]; snprintf(f, sizeof f, "/proc/%d/stat", (int)p);
  FILE *fp = fopen(f, "r"); if (!fp) return -1;
  char b[2000]; size_t n = fread(b, 1, sizeof b - 1, fp); fclose(fp); b[n] = 0;
  char *q = strrchr(b, ')'); if (!q) return -1;
  unsigned long ut, st; if (sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st) != 2) return -1;
  return (ut + st) / (double)sysconf(_SC_CLK_TCK);
}
int main(int argc, char **argv, void (*reg)()) {
  std::string tier = "quick", only; int onlypart = -1, jobs = 8; double hang = 20, tl = 1e9;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier") tier = argv[++i];
    else if (a == "--task") only = argv[++i];
    else if (a == "--part") onlypart = atoi(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--hang") hang = atof(argv[++i]);
    else if (a == "--time") tl = atof(argv[++i]);
  }
  thorough = tier == "thorough";
  if (const char *k = getenv("VERIF_KNOWN")) { std::string s = k, t; for (char c : s + ",") { if (c == ',') { if (!t.empty()) known.insert(t); t.clear(); } else t += c; } }
  bm_case = (uint8_t *)mmap(0, BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  bm_obs = (uint8_t *)mmap(0, BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  reg();
  struct U { int t, part, parts; };
  std::vector<U> units;
  for (size_t i = 0; i < tasks.size(); i++) {
    if (!only.empty() && tasks[i].name != only) continue;
    int n = thorough ? tasks[i].t : tasks[i].q;
    for (int p = 0; p < n; p++) if (onlypart < 0 || p == onlypart) { U u = {(int)i, p, n}; units.push_back(u); }
  }
  struct Ch { pid_t pid; U u; int fd; std::string out; Counters *c; unsigned long hb; double cpu, t; std::string err; };
  std::vector<Ch> live; size_t next = 0; int viol = 0; bool capped = false;
  std::map<std::string, std::vector<unsigned long> > tot; double t0 = now();
  std::map<std::string, std::vector<std::string> > samples;
  while (next < units.size() || !live.empty()) {
    if (now() - t0 > tl && next < units.size()) { capped = true; next = units.size(); }
    while ((int)live.size() < jobs && next < units.size()) {
      int pp[2]; if (pipe(pp)) return 2;
      Counters *c = (Counters *)mmap(0, sizeof(Counters), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      char ef[] = "/tmp/seqerrXXXXXX"; int efd = mkstemp(ef);
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        close(pp[0]); outfd = pp[1]; C = c;
        int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1);
        if (!getenv("MC_STDERR")) dup2(efd, 2);
        U u = units[next]; cur_task = tasks[u.t].name; cur_part = u.part; cur_parts = u.parts;
        try { tasks[u.t].fn(u.part, u.parts); }
        catch (std::exception &e) { seq::viol("exception", "unexpected exception: %s", e.what()); }
        _exit(nviol ? 41 : 0);
      }
      close(pp[1]); close(efd); fcntl(pp[0], F_SETFL, O_NONBLOCK);
      Ch h; h.pid = pid; h.u = units[next++]; h.fd = pp[0]; h.c = c; h.hb = 0; h.cpu = 0; h.t = now(); h.err = ef;
      live.push_back(h);
    }
    usleep(3000);
    for (size_t i = 0; i < live.size();) {
      Ch &c = live[i]; char buf[4096]; ssize_t k;
      while ((k = read(c.fd, buf, sizeof buf)) > 0) c.out.append(buf, k);
      int st; bool done = waitpid(c.pid, &st, WNOHANG) == c.pid, hung = false, fat = false;
      if (!done) {
        unsigned long h = c.c->hb; double cp = cpu_of(c.pid), t = now();
        if (h != c.hb) { c.hb = h; c.cpu = cp; c.t = t; }
        else if ((cp >= 0 && cp - c.cpu > hang) || t - c.t > hang * 10) { kill(c.pid, SIGKILL); waitpid(c.pid, &st, 0); hung = done = true; }
        else if (rss_of(c.pid) > 3000) { kill(c.pid, SIGKILL); waitpid(c.pid, &st, 0); hung = fat = done = true; }
      }
      if (!done) { i++; continue; }
      while ((k = read(c.fd, buf, sizeof buf)) > 0) c.out.append(buf, k);
      fwrite(c.out.data(), 1, c.out.size(), stdout);
      const std::string &tn = tasks[c.u.t].name;
      if (fat) { printf("VIOL key=memory task=%s part=%d/%d :: %s => memory grows without bound\n", tn.c_str(), c.u.part, c.u.parts, one(c.c->marker).c_str()); viol++; }
      else if (hung) { printf("VIOL key=hang task=%s part=%d/%d :: %s => endless loop: no progress within %.0f s of CPU time\n", tn.c_str(), c.u.part, c.u.parts, one(c.c->marker).c_str(), hang); viol++; }
      else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {}
      else if (WIFEXITED(st) && WEXITSTATUS(st) == 41) viol++;
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { printf("ENGINE-ERROR unit of %s was killed (memory?)\n", tn.c_str()); fflush(stdout); return 2; }
      else {
        std::string e; FILE *fp = fopen(c.err.c_str(), "r");
        if (fp) { char l[600]; while (fgets(l, sizeof l, fp)) { if (strstr(l, "ERROR:") || strstr(l, "SUMMARY") || strstr(l, "terminate called") || strstr(l, "what()") || strstr(l, "Assertion") || strstr(l, "runtime error")) { e += one(l); if (e.size() > 900) break; } } fclose(fp); }
        char d[80]; if (WIFSIGNALED(st)) snprintf(d, sizeof d, "signal %d", WTERMSIG(st)); else snprintf(d, sizeof d, "exit status %d", WEXITSTATUS(st));
        printf("VIOL key=crash task=%s part=%d/%d :: %s => the code under test ended the process (%s) %s\n", tn.c_str(), c.u.part, c.u.parts, one(c.c->marker).c_str(), d, e.c_str());
        viol++;
      }
      unlink(c.err.c_str());
      std::vector<unsigned long> &v = tot[tn]; if (v.empty()) v.assign(4, 0);
      v[0] += c.c->cases; v[1] += c.c->ops; v[2] += c.c->states; v[3] += c.c->nontrivial;
      for (unsigned long q = 0; q < c.c->nsamples && samples[tn].size() < 3; q++) samples[tn].push_back(c.c->samples[q]);
      if (c.c->nsamples == 0 && samples[tn].size() < 3) samples[tn].push_back(c.c->marker);
      munmap(c.c, sizeof(Counters)); close(c.fd);
      live.erase(live.begin() + i);
      if (viol) next = units.size();
    }
  }
  for (auto &p : tot) {
    printf("TASK name=%s cases=%lu ops=%lu states=%lu nontrivial=%lu capped=%d wall=%.2f\n", p.first.c_str(), p.second[0], p.second[1], p.second[2], p.second[3], (int)capped, now() - t0);
    for (auto &s : samples[p.first]) printf("SAMPLE %s: %s\n", p.first.c_str(), one(s).substr(0, 300).c_str());
  }
  printf("DISTINCT cases=%lu observations=%lu\n", popc(bm_case), popc(bm_obs));
  fflush(stdout);
  return viol ? 1 : 0;
}
}  // namespace seq
