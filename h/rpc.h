#ifndef H_RPC_H_
#define H_RPC_H_
#include "conc.h"
#include "../mc/net.h"
#include <network/dns.h>
#include <network/rpc.h>
#include <data/serialization/map.h>
#include <sstream>
using namespace pfi::network;
using namespace pfi::network::rpc;
typedef std::string S;
RPC_PROC(add, int(int, int));
RPC_PROC(echo, S(S));
RPC_PROC(tick, int());
RPC_PROC(rev, std::vector<S>(std::vector<S>, int, std::map<S, int>));
RPC_GEN(7, calc, add, echo, tick, rev);
// same names, another version
namespace other { RPC_PROC(add, int(int, int)); RPC_PROC(tick, int()); RPC_PROC(nosuch, int(int)); RPC_GEN(8, calc, add, tick, nosuch); }
namespace older { RPC_PROC(add, int(int, int)); RPC_PROC(tick, int()); RPC_GEN(6, calc, add, tick); }
namespace same { RPC_PROC(nosuch, int(int)); RPC_PROC(nosuch0, int()); RPC_PROC(add, int(int, int)); RPC_GEN(7, calc, nosuch, nosuch0, add); }
struct Stat { int add, echo, tick, rev, lastx, lasty; S laste; };
struct Server {
  calc_server *s; Stat st;
  explicit Server(double to = 0) : s(new calc_server(to)) {
    st.add = st.echo = st.tick = st.rev = 0;
    Server *self = this;
    s->set_add([self](int x, int y) { mc::quiet(true); self->st.add++; self->st.lastx = x; self->st.lasty = y; mc::quiet(false); return x * 10 + y; });
    s->set_echo([self](S x) { mc::quiet(true); self->st.echo++; self->st.laste = x; mc::quiet(false); return "<" + x + ">"; });
    s->set_tick([self]() { mc::quiet(true); int r = ++self->st.tick; mc::quiet(false); return r; });
    s->set_rev([self](std::vector<S> v, int n, std::map<S, int> m) { mc::quiet(true); self->st.rev++; mc::quiet(false); std::vector<S> r(v.rbegin(), v.rend()); std::ostringstream o; o << n; for (auto &e : m) o << "," << e.first << "=" << e.second; r.push_back(o.str()); return r; });
  }
};
inline void init() {
  mc::quiet(true);
  stream_socket::set_dns_resolver(pfi::lang::shared_ptr<dns_resolver>(new normal_dns_resolver()));
  mc::quiet(false);
}
static const uint16_t PORT = 7100;
inline Opts L(Opts o) { o.maxsteps = 60000; return o; }
#endif
