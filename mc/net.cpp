#include "mc_internal.h"
#include "net.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

namespace mc {
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);

NetCfg net;
std::function<std::vector<uint32_t>(const std::string &)> net_dns;
std::vector<std::string> net_dns_log;

struct Sock;
typedef std::shared_ptr<Sock> SP;
struct Sock {
  enum { FRESH, BOUND, LISTEN, CONN } st = FRESH;
  uint16_t port = 0, rport = 0;
  std::weak_ptr<Sock> peer;
  std::deque<char> rx;
  bool eof = false, rst = false, wclosed = false, gone = false, rst_told = false;
  double rcvto = 0, sndto = 0;
  std::deque<SP> backlog; size_t maxbacklog = 128;
  int pins = 0;      // blocked accept() calls keep a listener alive
  bool fdopen = true;
  bool nonblock = false;
  bool shut = false; // a listener after shutdown()
};
static const int BASE = 3000;
static std::map<int, SP> g_fd;
static std::map<uint16_t, SP> g_listen;
static uint16_t g_eph = 40000;
static int g_bad = 0, g_badclose = 0; static long g_connects = 0, g_refused = 0;
typedef std::map<uintptr_t, int> M;

static SP get(int fd) { auto i = g_fd.find(fd); return i == g_fd.end() ? SP() : i->second; }
static int newfd(SP s) { int fd = BASE; while (g_fd.count(fd)) fd++; g_fd[fd] = s; return fd; }
static bool mine(int fd) { return fd >= BASE && fd < BASE + 1000; }
static void hangup(SP s, bool rst) {
  // our side is going away
  if (s->gone) return;
  s->gone = true;
  if (SP p = s->peer.lock()) { if (rst || !s->rx.empty()) { p->rst = true; if (rst) p->rx.clear(); } p->eof = true; }
}
static void drop_listener(SP s) {
  if (s->fdopen || s->pins > 0) return;
  auto i = g_listen.find(s->port);
  if (i != g_listen.end() && i->second == s) g_listen.erase(i);
  for (auto &c : s->backlog) hangup(c, true);
  s->backlog.clear();
}
void net_reset() {
  g_fd.clear(); g_listen.clear(); g_eph = 40000; g_bad = 0; g_badclose = 0; g_connects = 0; g_refused = 0;
  net = NetCfg(); net_dns = nullptr; net_dns_log.clear();
}
NetStat net_stat() { NetStat s; s.open_fds = g_fd.size(); s.bad_fd_calls = g_bad; s.bad_closes = g_badclose; s.listeners = g_listen.size(); s.connects = g_connects; s.refused = g_refused; return s; }
bool net_listening(uint16_t port) { return g_listen.count(port); }
int net_accepting(uint16_t port) { auto i = g_listen.find(port); return i == g_listen.end() ? 0 : i->second->pins; }
static SP mkpair(SP c, SP l) {
  SP s(new Sock); s->st = Sock::CONN; s->peer = c; c->peer = s; c->st = Sock::CONN;
  s->port = l->port; c->rport = l->port; c->port = g_eph++; s->rport = c->port; s->fdopen = false;
  l->backlog.push_back(s);
  return s;
}
static int bad() { g_bad++; errno = EBADF; return -1; }
static int err(int e) { errno = e; return -1; }

static long do_recv(int fd, void *buf, size_t n, int flags) {
  SP s = get(fd);
  if (!s) return bad();
  if (s->st != Sock::CONN) return err(ENOTCONN);
  if (net.eintr && pick_cost(2, 3, "recv interrupted") == 1) return err(EINTR);
  double dl = s->rcvto > 0 ? now() + s->rcvto : -1;
  if ((flags & MSG_DONTWAIT) || s->nonblock) { block(K_STEP, "recv", 0); if (s->rx.empty() && !s->eof && !s->rst) return err(EAGAIN); }
  else {
    block(K_PRED, "recv", s.get(), dl, [s]() { return !s->rx.empty() || s->eof || s->rst; });
    if (g_cur->timed_out && s->rx.empty() && !s->eof && !s->rst) return err(EAGAIN);
  }
  acquire(s.get());
  if (net.reset && pick_cost(2, 3, "connection reset on recv") == 1) { s->rst = true; s->rx.clear(); if (SP p = s->peer.lock()) { p->rst = true; p->eof = true; } }
  if (s->rst && s->rx.empty()) return err(ECONNRESET);
  if (s->rx.empty()) return 0;
  size_t k = std::min(n, s->rx.size());
  if (net.short_read && k > 1) { int c = pick_cost(k > 2 ? 4 : 2, 3, "short read"); if (c == 1) k = 1; else if (c == 2) k = k / 2; else if (c == 3) k = k - 1; }
  for (size_t i = 0; i < k; i++) ((char *)buf)[i] = s->rx[i];
  if (!(flags & MSG_PEEK)) s->rx.erase(s->rx.begin(), s->rx.begin() + k);
  return k;
}
// a send on a connection that is known to be closed also raises SIGPIPE
static long pipe_err(int flags) {
  struct sigaction sa; sigaction(SIGPIPE, 0, &sa);
  if (!(flags & MSG_NOSIGNAL) && sa.sa_handler == SIG_DFL) fail("sending on a closed connection kills the process (SIGPIPE)");
  return err(EPIPE);
}
static long do_send(int fd, const void *buf, size_t n, int flags) {
  SP s = get(fd);
  if (!s) return bad();
  if (s->st != Sock::CONN) return pipe_err(flags);
  if (net.eintr && pick_cost(2, 3, "send interrupted") == 1) return err(EINTR);
  SP p = s->peer.lock();
  double dl = s->sndto > 0 ? now() + s->sndto : -1;
  block(K_PRED, "send", s.get(), dl, [s, p]() { return s->rst || !p || p->gone || p->rx.size() < net.capacity; });
  if (g_cur->timed_out) return err(EAGAIN);
  if (net.reset && pick_cost(2, 3, "connection reset on send") == 1) { s->rst = s->rst_told = true; s->eof = true; if (p) { p->rst = true; p->eof = true; } return err(ECONNRESET); }
  if (s->rst) { if (s->rst_told || s->eof) return pipe_err(flags); s->rst_told = true; return err(ECONNRESET); }
  if (s->wclosed) return pipe_err(flags);
  if (!p || p->gone) {
    // the peer closed: the first send succeeds and provokes a reset
    s->rst = true; return n;
  }
  size_t k = std::min(n, net.capacity - p->rx.size());
  if (net.short_write && k > 1) { int c = pick_cost(k > 2 ? 4 : 2, 3, "short write"); if (c == 1) k = 1; else if (c == 2) k = k / 2; else if (c == 3) k = k - 1; }
  for (size_t i = 0; i < k; i++) p->rx.push_back(((const char *)buf)[i]);
  release(p.get());
  return k;
}
static int do_close(int fd) {
  SP s = get(fd);
  if (!s) { g_badclose++; return bad(); }
  block(K_STEP, "close", 0);
  s = get(fd);
  if (!s) { g_badclose++; return bad(); }
  g_fd.erase(fd);
  s->fdopen = false;
  if (s->st == Sock::CONN) hangup(s, false);
  else if (s->st == Sock::LISTEN) drop_listener(s);
  return 0;
}
static SP try_listener(uint16_t port) { auto i = g_listen.find(port); return i == g_listen.end() ? SP() : i->second; }

// ---- harness side ----------------------------------------------------------------------
int net_connect(uint16_t port) {
  Eng e; block(K_STEP, "peer connect", 0);
  SP l = try_listener(port); if (!l) return -1;
  SP c(new Sock); mkpair(c, l); g_connects++;
  return newfd(c);
}
void net_send(int fd, const std::string &s) {
  Eng e; block(K_STEP, "peer send", 0);
  SP c = get(fd); if (!c) return; SP p = c->peer.lock(); if (!p || p->gone || c->rst) return;
  p->rx.insert(p->rx.end(), s.begin(), s.end()); release(p.get());
}
std::string net_peek(int fd) { Eng e; SP c = get(fd); return c ? std::string(c->rx.begin(), c->rx.end()) : std::string(); }
std::string net_recv(int fd, size_t n) {
  Eng e; SP c = get(fd); if (!c) return "";
  block(K_PRED, "peer recv", c.get(), -1, [c, n]() { return c->rx.size() >= n || c->eof || c->rst; });
  acquire(c.get());
  size_t k = std::min(n, c->rx.size());
  std::string r(c->rx.begin(), c->rx.begin() + k); c->rx.erase(c->rx.begin(), c->rx.begin() + k);
  return r;
}
std::string net_recv_all(int fd) {
  Eng e; SP c = get(fd); if (!c) return "";
  block(K_PRED, "peer recv", c.get(), -1, [c]() { return c->eof || c->rst; });
  acquire(c.get());
  std::string r(c->rx.begin(), c->rx.end()); c->rx.clear(); return r;
}
void net_close(int fd, bool rst) {
  Eng e; SP c = get(fd); if (!c) return;
  block(K_STEP, "peer close", 0);
  g_fd.erase(fd); c->fdopen = false;
  if (c->st == Sock::CONN) { c->rx.clear(); hangup(c, rst); if (SP p = c->peer.lock()) release(p.get()); }
  else if (c->st == Sock::LISTEN) drop_listener(c);
}
void net_half_close(int fd) {
  Eng e; SP c = get(fd); if (!c) return; block(K_STEP, "peer shutdown", 0);
  c->wclosed = true; if (SP p = c->peer.lock()) { p->eof = true; release(p.get()); }
}
int net_listen(uint16_t port) {
  Eng e; SP l(new Sock); l->st = Sock::LISTEN; l->port = port; l->maxbacklog = 128; g_listen[port] = l; return newfd(l);
}
uint16_t net_local_port(int fd) { Eng e; SP s = get(fd); return s ? s->port : 0; }
int net_accept(int lfd) {
  Eng e; SP l = get(lfd);
  block(K_PRED, "peer accept", l.get(), -1, [l]() { return !l->backlog.empty(); });
  SP s = l->backlog.front(); l->backlog.pop_front(); s->fdopen = true; return newfd(s);
}
bool net_accept_pending(int lfd) { Eng e; SP l = get(lfd); return l && !l->backlog.empty(); }
}  // namespace mc

using namespace mc;
#define ACT (g_active && g_cur)
extern "C" {
int socket(int, int, int) __THROW;
int socket(int d, int t, int p) __THROW {
  if (!ACT) return err(EMFILE);
  Eng e;
  if (net.socket_fail && pick_cost(2, 3, "socket fails") == 1) return err(EMFILE);
  SP s(new Sock); return newfd(s);
}
int bind(int fd, const struct sockaddr *a, socklen_t) __THROW;
int bind(int fd, const struct sockaddr *a, socklen_t) __THROW {
  Eng e; SP s = get(fd); if (!s) return bad();
  if (net.opt_fail && pick_cost(2, 3, "bind fails") == 1) return err(EADDRINUSE);
  uint16_t port = ntohs(((const sockaddr_in *)a)->sin_port);
  if (port == 0) { port = g_eph++; }
  if (g_listen.count(port)) return err(EADDRINUSE);
  s->port = port; s->st = Sock::BOUND; return 0;
}
int listen(int fd, int n) __THROW;
int listen(int fd, int n) __THROW {
  Eng e; SP s = get(fd); if (!s) return bad();
  if (net.opt_fail && pick_cost(2, 3, "listen fails") == 1) return err(EADDRINUSE);
  if (s->st != Sock::BOUND) { s->port = g_eph++; }
  if (g_listen.count(s->port)) return err(EADDRINUSE);
  s->st = Sock::LISTEN; s->maxbacklog = n; g_listen[s->port] = s; return 0;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) {
  Eng e; SP s = get(fd); if (!s) return fd == -1 ? err(EBADF) : bad();
  block(K_STEP, "accept", 0);
  s = get(fd); if (!s) return err(EBADF);
  if (s->st != Sock::LISTEN || s->shut) return err(EINVAL);
  if (net.eintr && pick_cost(2, 3, "accept interrupted") == 1) return err(EINTR);
  if (net.accept_fail && pick_cost(2, 3, "accept fails") == 1) return err(ECONNABORTED);
  s->pins++;
  double dl = s->rcvto > 0 ? now() + s->rcvto : -1;
  block(K_PRED, "accept", s.get(), dl, [s]() { return !s->backlog.empty() || s->shut; });
  s->pins--;
  if (s->shut) return err(EINVAL);
  if (s->backlog.empty()) { drop_listener(s); return err(EAGAIN); }
  SP c = s->backlog.front(); s->backlog.pop_front();
  drop_listener(s);
  c->fdopen = true;
  if (a && l) { sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); sa.sin_port = htons(c->rport); memcpy(a, &sa, std::min<size_t>(*l, sizeof sa)); *l = sizeof sa; }
  return newfd(c);
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int) { return accept(fd, a, l); }
int connect(int fd, const struct sockaddr *a, socklen_t) {
  Eng e; SP s = get(fd); if (!s) return bad();
  if (s->st == Sock::CONN) return err(EISCONN);
  block(K_STEP, "connect", 0);
  if (net.connect_fail) { int k = pick_cost(2, 3, "connect refused"); if (k) { g_refused++; return err(ECONNREFUSED); } }
  SP l = try_listener(ntohs(((const sockaddr_in *)a)->sin_port));
  if (!l || l->backlog.size() > l->maxbacklog) return err(ECONNREFUSED);
  mkpair(s, l); g_connects++;
  return 0;
}
ssize_t recv(int fd, void *b, size_t n, int fl) { Eng e; return do_recv(fd, b, n, fl); }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { Eng e; return do_recv(fd, b, n, fl); }
ssize_t send(int fd, const void *b, size_t n, int fl) { Eng e; return do_send(fd, b, n, fl); }
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { Eng e; return do_send(fd, b, n, fl); }
ssize_t read(int fd, void *b, size_t n) {
  if (mine(fd)) { Eng e; return do_recv(fd, b, n, 0); }
  long r = raw_syscall(SYS_read, fd, (long)b, n); if (r < 0) { errno = -r; return -1; } return r;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (mine(fd)) { Eng e; return do_send(fd, b, n, 0); }
  long r = raw_syscall(SYS_write, fd, (long)b, n); if (r < 0) { errno = -r; return -1; } return r;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
  Eng e; std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return do_send(fd, s.data(), s.size(), fl);
}
int close(int fd) {
  if (ACT && (mine(fd))) { Eng e; return do_close(fd); }
  long r = raw_syscall(SYS_close, fd); if (r < 0) { errno = -r; return -1; } return r;
}
int shutdown(int fd, int how) __THROW;
int shutdown(int fd, int how) __THROW {
  Eng e; SP s = get(fd); if (!s) return bad();
  block(K_STEP, "shutdown", 0);
  if (s->st == Sock::LISTEN) { if (s->shut) return err(ENOTCONN); s->shut = true; auto b = s->backlog; for (auto &c : b) hangup(c, true); s->backlog.clear(); g_listen.erase(s->port); return 0; }
  if (s->st != Sock::CONN) return err(ENOTCONN);
  if (how != SHUT_RD) { s->wclosed = true; if (SP p = s->peer.lock()) { p->eof = true; release(p.get()); } }
  if (how != SHUT_WR) s->eof = true;
  return 0;
}
int setsockopt(int fd, int lv, int opt, const void *v, socklen_t n) __THROW;
int setsockopt(int fd, int lv, int opt, const void *v, socklen_t n) __THROW {
  Eng e; SP s = get(fd); if (!s) return bad();
  if (net.eintr && false) return err(EINTR);
  if (net.opt_fail && pick_cost(2, 3, "setsockopt fails") == 1) return err(ENOBUFS);
  if (lv == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && n >= sizeof(struct timeval)) {
    const struct timeval *tv = (const struct timeval *)v;
    if (tv->tv_usec < 0 || tv->tv_usec >= 1000000) return err(EDOM);
    (opt == SO_RCVTIMEO ? s->rcvto : s->sndto) = tv->tv_sec + tv->tv_usec * 1e-6;
  }
  return 0;
}
int getsockopt(int fd, int, int, void *v, socklen_t *n) __THROW;
int getsockopt(int fd, int, int, void *v, socklen_t *n) __THROW { Eng e; SP s = get(fd); if (!s) return bad(); if (v && n) memset(v, 0, *n); return 0; }
static int nm(int fd, struct sockaddr *a, socklen_t *l, bool peer) {
  SP s = get(fd); if (!s) return bad();
  sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); sa.sin_port = htons(peer ? s->rport : s->port);
  memcpy(a, &sa, std::min<size_t>(*l, sizeof sa)); *l = sizeof sa; return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) __THROW;
int getsockname(int fd, struct sockaddr *a, socklen_t *l) __THROW { Eng e; if (net.opt_fail && pick_cost(2, 3, "getsockname fails") == 1) return err(ENOBUFS); return nm(fd, a, l, false); }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) __THROW;
int getpeername(int fd, struct sockaddr *a, socklen_t *l) __THROW { Eng e; return nm(fd, a, l, true); }

int poll(struct pollfd *p, nfds_t n, int ms) {
  if (!ACT) { return raw_syscall(SYS_poll, (long)p, n, ms); }
  Eng e;
  auto rdy = [p, n]() -> int {
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0; if (p[i].fd < 0) continue;
      SP s = get(p[i].fd);
      if (!s) { p[i].revents = POLLNVAL; k++; continue; }
      if (s->st == Sock::LISTEN) { if (!s->backlog.empty()) p[i].revents |= p[i].events & POLLIN; }
      else { if (!s->rx.empty() || s->eof || s->rst) p[i].revents |= p[i].events & POLLIN; p[i].revents |= p[i].events & POLLOUT; if (s->rst) p[i].revents |= POLLERR; }
      if (p[i].revents) k++;
    }
    return k;
  };
  block(K_PRED, "poll", 0, ms < 0 ? -1 : now() + ms * 1e-3, [rdy]() { return rdy() > 0; });
  return rdy();
}

int getaddrinfo(const char *host, const char *serv, const struct addrinfo *h, struct addrinfo **res) {
  if (!ACT) return EAI_FAIL;
  Eng e;
  block(K_STEP, "getaddrinfo", 0);
  net_dns_log.push_back(host ? host : "");
  if (net.dns_time > 0) block(K_SLEEP, "name lookup", 0, now() + net.dns_time);
  if (net.dns_fail && pick_cost(2, 3, "lookup fails") == 1) return EAI_AGAIN;
  std::vector<uint32_t> ips;
  struct in_addr ia;
  if (net_dns) ips = net_dns(host ? host : "");
  else if (host && inet_aton(host, &ia)) ips.push_back(ntohl(ia.s_addr));
  else ips.push_back(INADDR_LOOPBACK);
  if (ips.empty()) return EAI_NONAME;
  *res = 0; struct addrinfo **tail = res;
  for (uint32_t ip : ips) {
    char *blk = (char *)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
    addrinfo *ai = (addrinfo *)blk; sockaddr_in *sa = (sockaddr_in *)(blk + sizeof(addrinfo));
    sa->sin_family = AF_INET; sa->sin_addr.s_addr = htonl(ip); sa->sin_port = htons(serv ? atoi(serv) : 0);
    ai->ai_family = AF_INET; ai->ai_socktype = SOCK_STREAM; ai->ai_addr = (sockaddr *)sa; ai->ai_addrlen = sizeof *sa;
    *tail = ai; tail = &ai->ai_next;
  }
  return 0;
}
void freeaddrinfo(struct addrinfo *p) __THROW;
void freeaddrinfo(struct addrinfo *p) __THROW { while (p) { addrinfo *n = p->ai_next; free(p); p = n; } }
int getnameinfo(const struct sockaddr *a, socklen_t, char *h, socklen_t hl, char *s, socklen_t sl, int) {
  const sockaddr_in *sa = (const sockaddr_in *)a;
  if (h && hl && !inet_ntop(AF_INET, &sa->sin_addr, h, hl)) return EAI_OVERFLOW;
  if (s && sl) snprintf(s, sl, "%d", ntohs(sa->sin_port));
  return 0;
}
}
