// C33: mapped files under every operation sequence with a failing system call at every point; temporary files; byte order
#include "../mc/seq.h"
#include <system/mmapper.h>
#include <system/file.h>
#include <system/endian_util.h>
#include <system/syscall.h>
#include <cerrno>
#include <fstream>
#include <memory>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace std;
typedef string S; typedef pfi::system::mmapper::mmapper MM;
static S tos(long v) { char b[24]; snprintf(b, sizeof b, "%ld", v); return b; }

// ---- the system calls, tracked and made to fail ------------------------------------------------
static bool tracking; static int countdown, fail_errno, fail_times; static S trouble; static bool failed;
static set<int> fds; static map<char *, size_t> maps;
static bool fault(bool intr_ok) { if (!tracking) return false; if (countdown > 0 && (intr_ok || fail_errno != EINTR) && --countdown == 0) { fail_times = fail_errno == EINTR ? 3 : 1; } if (fail_times > 0) { fail_times--; errno = fail_errno; if (fail_errno != EINTR) failed = true; if (fail_times > 0) countdown = 0; return true; } return false; }
extern "C" {
int open(const char *p, int fl, ...) { if (fault(true)) return -1; int r = syscall(SYS_openat, AT_FDCWD, p, fl, 0600); if (tracking && r >= 0) fds.insert(r); return r; }
int open64(const char *p, int fl, ...) { return open(p, fl); }
int fstat(int fd, struct stat *b) noexcept { if (fault(true)) return -1; return syscall(SYS_newfstatat, fd, "", b, AT_EMPTY_PATH); }
int fstat64(int fd, struct stat64 *b) noexcept { return fstat(fd, (struct stat *)b); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) noexcept { if (tracking && fd >= 0 && fault(false)) return MAP_FAILED; void *r = (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o); if (tracking && fd >= 0 && r != MAP_FAILED) maps[(char *)r] = n; return r; }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) noexcept { return mmap(a, n, pr, fl, fd, o); }
int munmap(void *a, size_t n) noexcept { if (tracking) { map<char *, size_t>::iterator i = maps.find((char *)a); if (i == maps.end()) trouble = "memory that is not mapped was unmapped"; else if (i->second != n) trouble = "a mapping of " + tos(i->second) + " bytes was unmapped with length " + tos(n); else maps.erase(i); } return syscall(SYS_munmap, a, n); }
int close(int fd) { if (tracking && !fds.erase(fd)) trouble = "descriptor " + tos(fd) + " was closed but not open"; return syscall(SYS_close, fd); }
}
static S dir; static vector<S> content;
static S fname(int i) { return dir + "/f" + tos(i); }
static void put(int i) { ofstream f(fname(i).c_str(), ios::binary | ios::trunc); f << content[i]; }
static S get(int i) { ifstream f(fname(i).c_str(), ios::binary); return S((istreambuf_iterator<char>(f)), istreambuf_iterator<char>()); }
// files 0: 1 byte, 1: 5000 bytes, 2: exactly one page; 3: missing, 4: a directory
static const char *NM[] = {"a.open(0)", "a.open(1)", "a.open(2)", "a.open(missing)", "a.open(directory)", "b.open(1)", "b.open(0)", "a.close", "b.close", "a=move(b)", "b=move(a)", "a=move(a)", "a.swap(b)", "std::swap", "move out and back", "temporary", "write"};
static const int NOP = 17;
struct Model { int a, b; };   // file mapped, -1: closed
static S check(const MM &m, int f, const char *who) {
  if (m.is_open() != (f >= 0)) return S(who) + (f >= 0 ? " is closed" : " is open");
  if (f < 0) { if (m.size() != 0 || m.begin() != m.end()) return S(who) + " is closed but has size " + tos(m.size()); return ""; }
  if (m.size() != content[f].size() || m.end() - m.begin() != (long)m.size() || m.cend() - m.cbegin() != (long)m.size()) return S(who) + " has size " + tos(m.size()) + " instead of " + tos(content[f].size());
  map<char *, size_t>::iterator i = maps.find(const_cast<char *>(m.begin())); if (i == maps.end() || i->second != m.size()) return S(who) + " points to memory that is not its mapping";
  if (S(m.begin(), m.end()) != content[f]) return S(who) + " does not show the contents of its file";
  for (size_t k = 0; k < m.size(); k += 97) if (m[k] != content[f][k]) return S(who) + "[" + tos(k) + "]";
  return "";
}
static void seqs(int len, int part, int np) {
  seq::tuples(NOP, len, part, np, [&](const vector<int> &ix) {
    // fault 0: none; else the k-th of open/fstat/mmap of the last step fails (EIO), or open/fstat is interrupted three times
    int nf = ix[len - 1] <= 6 || ix[len - 1] == 15 ? 5 : 0;
    for (int f = 0; f <= nf; f++) {
      S p; for (int i : ix) p += S(NM[i]) + "; "; static const char *FN[] = {"", "open fails", "fstat fails", "mmap fails", "open is interrupted", "fstat is interrupted"}; p += f ? S("in the last step ") + FN[f] : S(); seq::begin_s(p);
      content[0] = "x"; put(0); content[1] = S(5000, 'q'); content[1][77] = 'z'; put(1); content[2] = S(4096, '\0'); content[2][4095] = '!'; put(2);
      fds.clear(); maps.clear(); trouble = ""; S bad; Model m = {-1, -1};
      { MM a, b;
        for (int s = 0; s < len && bad.empty(); s++) { seq::op(); int op = ix[s], r = 0, w = 0; failed = false; countdown = 0; fail_times = 0;
          if (s == len - 1 && f) { if (f <= 3) { countdown = f; fail_errno = EIO; } else { countdown = f - 3; fail_errno = EINTR; } }
          Model n = m; bool isopen = false; tracking = true;
          switch (op) {
            case 0: case 1: case 2: r = a.open(fname(op)); n.a = op; isopen = true; break;
            case 3: r = a.open(fname(3)); w = -1; isopen = true; break; case 4: r = a.open(dir); w = -1; isopen = true; break;
            case 5: r = b.open(fname(1)); n.b = 1; isopen = true; break; case 6: r = b.open(fname(0)); n.b = 0; isopen = true; break;
            case 7: a.close(); n.a = -1; break; case 8: b.close(); n.b = -1; break;
            case 9: a = std::move(b); n.a = m.b; break; case 10: b = std::move(a); n.b = m.a; break; case 11: { MM &x = a; a = std::move(x); } break;
            case 12: a.swap(b); swap(n.a, n.b); break; case 13: std::swap(a, b); swap(n.a, n.b); break; case 14: { MM t(std::move(a)); if (t.is_open() != (m.a >= 0)) bad = "the moved-to mapping is wrong"; a = std::move(t); } break;
            case 15: { MM t; t.open(fname(1)); if (t.is_open()) t.close(); t.open(fname(2)); } break;
            case 16: if (m.a >= 0) { a[0] = 'A' + s; a.end()[-1] = 'a' + s; content[m.a][0] = 'A' + s; content[m.a][content[m.a].size() - 1] = 'a' + s; } break; }
          tracking = false; countdown = 0; fail_times = 0;
          if (isopen) { if (failed) w = -1; if ((r < 0) != (w < 0)) { bad = r < 0 ? "open failed" : "open reported success"; break; } if (w < 0) n = m; if (failed) seq::nontrivial(); }
          if (op == 9 || op == 10) { // what the source holds after a move is not fixed, but it must be usable
            MM &src = op == 9 ? b : a; int &held = op == 9 ? n.b : n.a; int from = op == 9 ? m.b : m.a, to = op == 9 ? m.a : m.b; held = !src.is_open() ? -1 : to >= 0 && check(src, to, "").empty() ? to : from; MM &dst = op == 9 ? a : b; if (src.is_open() && dst.is_open() && src.begin() == dst.begin()) bad = "both share one mapping"; }
          m = n; if (bad.empty()) bad = check(a, m.a, "a"); if (bad.empty()) bad = check(b, m.b, "b"); if (bad.empty()) bad = trouble;
          size_t nm = (m.a >= 0) + (m.b >= 0); if (bad.empty() && maps.size() != nm) bad = tos(maps.size()) + " mappings are there instead of " + tos(nm); if (bad.empty() && fds.size() > nm) bad = tos(fds.size()) + " descriptors are open for " + tos(nm) + " mappings"; }
        tracking = true; }
      tracking = false; if (bad.empty()) bad = trouble; if (bad.empty() && (!fds.empty() || !maps.empty())) bad = tos(fds.size()) + " descriptors and " + tos(maps.size()) + " mappings are left over";
      if (bad.empty()) for (int i = 0; i < 3; i++) if (get(i) != content[i]) bad = "file " + tos(i) + " does not hold what was written through the mapping";
      for (int d : fds) syscall(SYS_close, d); seq::observe(tos(m.a) + tos(m.b) + (failed ? "f" : ""));
      SEQ_CHECK(bad.empty(), "mapping", "%s: %s", p.c_str(), bad.c_str());
    } });
}
static void sizes() { for (int n : {1, 2, 4095, 4096, 4097, 8192, 100000}) { seq::begin("a file of %d bytes", n); seq::op(); content[0] = S(n, 'x'); for (int i = 0; i < n; i++) content[0][i] = (char)(i * 31 >> 3); put(0); fds.clear(); maps.clear(); MM m; tracking = true; int r = m.open(fname(0)); tracking = false; SEQ_CHECK(r == 0 && check(m, 0, "it").empty(), "size", "%d %s", r, check(m, 0, "it").c_str()); SEQ_CHECK(pfi::system::file::get_file_size(fname(0)) == n, "file-size", "get_file_size is %zd", pfi::system::file::get_file_size(fname(0))); tracking = true; m.close(); tracking = false; }
  seq::begin("size through a symbolic link"); { content[0] = S(777, 'q'); put(0); S l = dir + "/link"; if (symlink(fname(0).c_str(), l.c_str()) == 0) { SEQ_CHECK(pfi::system::file::get_file_size(l) == 777, "file-size", "the size of a file named by a link is %zd", pfi::system::file::get_file_size(l)); unlink(l.c_str()); } seq::op(); }
  seq::begin("sizes of an empty and a missing file"); content[0] = ""; put(0); SEQ_CHECK(pfi::system::file::get_file_size(fname(0)) == 0, "file-size", "empty"); int e = dup(2), nul = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY); dup2(nul, 2); ssize_t r = pfi::system::file::get_file_size(fname(3)); dup2(e, 2); syscall(SYS_close, e); syscall(SYS_close, nul); SEQ_CHECK(r == -1, "file-size", "the size of a missing file is %zd", r); seq::op(2);
  seq::begin("a large sparse file"); { int fd = syscall(SYS_openat, AT_FDCWD, fname(0).c_str(), O_RDWR | O_CREAT, 0600); int t = ftruncate(fd, (off_t)5 << 30); syscall(SYS_close, fd); if (t == 0) { SEQ_CHECK(pfi::system::file::get_file_size(fname(0)) == (ssize_t)5 << 30, "file-size", "5 GB file"); fds.clear(); maps.clear(); MM m; tracking = true; int r = m.open(fname(0)); tracking = false; SEQ_CHECK(r != 0 || (m.size() == (size_t)5 << 30 && m.end() - m.begin() == (ssize_t)5 << 30 && m[((size_t)5 << 30) - 1] == 0), "size", "a mapping of a 5 GB file has size %zu", m.size()); tracking = true; m.close(); tracking = false; SEQ_CHECK(fds.empty() && maps.empty(), "size", "a mapping of a 5 GB file is left over"); } unlink(fname(0).c_str()); }
}
static size_t nfds() { size_t n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void tmps() {
  for (const char *t : {"", "X", "XXXXX", "XXXXXX", "aXXXXX", "aXXXXXXb", "tXXXXXX", "long-name-XXXXXX"}) for (int rep = 0; rep < 3; rep++) { S tm = t, full = tm.size() <= 6 ? tm : dir + "/" + tm; bool ok = tm.size() >= 6 && tm.substr(tm.size() - 6) == "XXXXXX"; S name = full; seq::begin_s("temporary file " + tm); seq::op(); size_t before = nfds();
    { unique_ptr<iostream> s(pfi::system::file::tmpstream(name)); SEQ_CHECK((s.get() != 0) == ok, "tmpstream", "%s", s ? "accepted" : "refused"); if (!ok) { SEQ_CHECK(nfds() == before, "tmpstream", "a descriptor is left open"); continue; }
      SEQ_CHECK(name.size() == full.size() && name.compare(0, full.size() - 6, full, 0, full.size() - 6) == 0 && name != full, "tmpstream", "the name is %s", name.c_str()); struct stat st; SEQ_CHECK(!stat(name.c_str(), &st) && (st.st_mode & 0777) == 0600, "tmpstream", "no private file %s", name.c_str());
      S d; for (int i = 0; i < 9000; i++) d += (char)(i * 7); *s << d << flush; SEQ_CHECK(s->good(), "tmpstream", "writing failed"); { ifstream f(name.c_str(), ios::binary); S g((istreambuf_iterator<char>(f)), istreambuf_iterator<char>()); SEQ_CHECK(g == d, "tmpstream", "the file holds %zu bytes", g.size()); } s->seekg(0); S g(d.size(), 0); s->read(&g[0], g.size()); SEQ_CHECK((bool)*s && g == d, "tmpstream", "not read back"); s->get(); SEQ_CHECK(s->eof(), "tmpstream", "more than written"); s->clear(); s->seekp(0); *s << "ABC"; s->seekg(1); char c = 0; s->get(c); SEQ_CHECK(c == 'B', "tmpstream", "overwriting"); *s << flush; }
    SEQ_CHECK(nfds() == before, "tmpstream", "the descriptor is left open"); unlink(name.c_str()); }
  // fd_stream over a socket pair: both directions, in order, and the descriptor is closed
  for (int n : {0, 1, 5, 4096, 9000}) { seq::begin("stream over a socket pair, %d bytes", n); seq::op(); int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) continue; S d; for (int i = 0; i < n; i++) d += (char)(i * 13); { pfi::system::file::fd_stream w(p[1]); w << d; w.flush(); SEQ_CHECK(w.good(), "fd_stream", "writing failed"); } S g; { pfi::system::file::fd_stream r(p[0]); char c; while (r.get(c)) g += c; } SEQ_CHECK(g == d, "fd_stream", "%zu bytes arrived", g.size()); SEQ_CHECK(fcntl(p[0], F_GETFD) < 0 && fcntl(p[1], F_GETFD) < 0, "fd_stream", "the descriptor stays open"); }
}
namespace en = pfi::system::endian;
template <class T> static void orders(const char *nm, const vector<T> &vs) { for (T v : vs) { seq::begin_s(S("byte order of ") + nm + " " + seq::show(S((char *)&v, sizeof v))); seq::op(3); S b((char *)&v, sizeof v), r(b.rbegin(), b.rend()); T w = en::reverse(v); S g((char *)&w, sizeof w); SEQ_CHECK(g == r, "reverse", "reversed to %s", seq::show(g).c_str()); T l = en::to_little(v), k = en::to_big(v); SEQ_CHECK(!memcmp(&l, &v, sizeof v), "little", "to_little changed it"); SEQ_CHECK(S((char *)&k, sizeof k) == r, "big", "to_big"); T fl = en::from_little(l), fb = en::from_big(k); SEQ_CHECK(!memcmp(&fl, &v, sizeof v) && !memcmp(&fb, &v, sizeof v), "back", "not inverse"); seq::observe(g); } }
template <class T> static vector<T> vals() { vector<T> r; unsigned long pats[] = {0, ~0ul, 0x0102030405060708ul, 0x80ff7f01fe028103ul, 0xfffefdfcfbfaf9f8ul, 0x8000000000000001ul, 0x0123456789abcdeful}; for (unsigned long p : pats) r.push_back((T)p); for (size_t b = 0; b < sizeof(T); b++) for (int v = 0; v < 256; v++) { r.push_back((T)((unsigned long)v << 8 * b)); r.push_back((T) ~((unsigned long)v << 8 * b)); } return r; }
static void endian() {
  seq::begin("this machine is little-endian"); SEQ_CHECK(en::is_little() && !en::is_big(), "which", "wrong byte order detected");
  vector<short> s; vector<unsigned short> us; for (int i = 0; i < 65536; i++) { s.push_back(i); us.push_back(i); } orders("short", s); orders("unsigned short", us);
  orders("char", vals<char>()); orders("signed char", vals<signed char>()); orders("unsigned char", vals<unsigned char>()); orders("int", vals<int>()); orders("unsigned", vals<unsigned>()); orders("long", vals<long>()); orders("unsigned long", vals<unsigned long>()); orders("long long", vals<long long>()); orders("unsigned long long", vals<unsigned long long>()); orders("float", vector<float>{0, 1, -1.5f, 3.14f, 1e30f}); orders("double", vector<double>{0, 1, -1.5, 3.14, 1e300});
  for (int n = 0; n <= 17; n++) { seq::begin("reversing %d bytes", n); seq::op(); S b; for (int i = 0; i < n + 2; i++) b += (char)('a' + i); S w = b; if (n) std::reverse(&w[1], &w[1] + n); en::reverse(&b[1], n); SEQ_CHECK(b == w, "bytes", "%s", b.c_str()); }
}
static void errors() { for (int e = 0; e < 140; e++) { seq::begin("error message %d", e); seq::op(); S w = strerror(e), g = pfi::system::syscall::get_error_msg(e); SEQ_CHECK(g == w, "message", "%s", g.c_str()); errno = e; g = pfi::system::syscall::get_error_msg(); SEQ_CHECK(g == w, "message", "for errno: %s", g.c_str()); } }
static void scratch(const function<void()> &f) { const char *b = getenv("TMPDIR"); S base = S(b ? b : "/tmp") + "/c33-XXXXXX"; char *t = &base[0]; if (!mkdtemp(t)) { fprintf(stderr, "no scratch directory\n"); abort(); } dir = t; content.assign(5, ""); if (chdir(t)) abort(); f(); if (chdir("/")) abort(); for (int i = 0; i < 5; i++) unlink(fname(i).c_str()); rmdir(t); }
static void reg() {
  seq::task("descriptor 0", 1, 1, [](int, int) { scratch([&] { syscall(SYS_close, 0); seqs(1, 0, 1); seqs(2, 0, 1); int n = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY); if (n > 0) { dup2(n, 0); syscall(SYS_close, n); } }); });
  for (int l = 1; l <= 3; l++) seq::task("sequences of " + tos(l), l == 3 ? 4 : 1, l == 3 ? 4 : 1, [=](int p, int np) { scratch([&] { seqs(l, p, np); }); });
  if (seq::thorough) seq::task("sequences of 4", 0, 16, [](int p, int np) { scratch([&] { seqs(4, p, np); }); });
  seq::task("sizes", 1, 1, [](int, int) { scratch(sizes); }); seq::task("temporary files", 1, 1, [](int, int) { scratch(tmps); });
  seq::task("byte order", 1, 1, [](int, int) { endian(); }); seq::task("errors", 1, 1, [](int, int) { errors(); });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
