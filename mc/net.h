// In-memory TCP network for the model checker: sockets, name resolution, and injected faults.
#ifndef MC_NET_H_
#define MC_NET_H_
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace mc {
struct NetCfg {
  // fault classes that may be injected (each injected fault costs one unit of the fault budget)
  bool short_read = false, short_write = false, eintr = false, reset = false, connect_fail = false, socket_fail = false;
  bool opt_fail = false;    // setsockopt/bind/listen/getsockname fail
  bool accept_fail = false; // accept fails (connection aborted, out of descriptors)
  bool dns_fail = false;
  bool create_fail = true;  // pthread_create
  size_t capacity = 1 << 20;  // bytes in flight per direction
  double dns_time = 0;        // virtual seconds a lookup takes (0: none)
};
extern NetCfg net;
extern std::function<std::vector<uint32_t>(const std::string &)> net_dns;  // host -> IPv4 (host order)
extern std::vector<std::string> net_dns_log;   // lookups made
struct NetStat { int open_fds; int bad_fd_calls; int bad_closes; int listeners; long connects; long refused; };
NetStat net_stat();
bool net_listening(uint16_t port);
int net_accepting(uint16_t port);   // threads blocked in accept on that port
// raw peer endpoints for harness code (bypass the library)
uint16_t net_local_port(int fd);
int net_connect(uint16_t port);                       // returns a descriptor or -1
void net_send(int fd, const std::string &s);
std::string net_peek(int fd);                         // bytes received and not yet consumed
std::string net_recv(int fd, size_t n);               // blocks until n bytes or end of stream
std::string net_recv_all(int fd);                     // until end of stream
void net_close(int fd, bool rst = false);
void net_half_close(int fd);                          // no more data from us
int net_listen(uint16_t port);                        // returns listening descriptor
int net_accept(int lfd);                              // blocks
bool net_accept_pending(int lfd);
void net_set_rdlimit(int fd, const std::vector<int> &chunks);
}
#endif
