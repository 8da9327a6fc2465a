// helpers for the MessagePack RPC harnesses
#ifndef H_MPRPC_H_
#define H_MPRPC_H_
#include "conc.h"
#include "../mc/net.h"
#include <set>
#include <map>
#include <network/mprpc.h>
using namespace pfi::network;
using namespace pfi::network::mprpc;
typedef std::string S;
struct Rec { int i; std::vector<unsigned char> v; MSGPACK_DEFINE(i, v); };
typedef std::pair<int, S> PIS; typedef std::map<S, int> MSI; typedef std::map<int, PIS> MIP;
MPRPC_PROC(add, int(int, int));
MPRPC_PROC(echo, S(S));
MPRPC_PROC(tick, int());
MPRPC_PROC(rev, std::vector<S>(std::vector<S>, int, MSI));
MPRPC_GEN(1, calc, add, echo, tick, rev);
namespace bad { MPRPC_PROC(add, S(S, S)); MPRPC_PROC(tick, S()); MPRPC_PROC(echo, int(S)); MPRPC_PROC(nosuch, int(int)); MPRPC_GEN(1, calc, add, tick, echo, nosuch); }
struct Stat { int add, echo, tick, rev, lastx, lasty; S laste; };
struct Server {
  calc_server *s; Stat st;
  explicit Server(double to = 0) : s(new calc_server(to)) {
    st.add = st.echo = st.tick = st.rev = 0;
    Server *self = this;
    s->set_add([self](int x, int y) { mc::quiet(true); self->st.add++; self->st.lastx = x; self->st.lasty = y; mc::quiet(false); return x * 10 + y; });
    s->set_echo([self](S x) { mc::quiet(true); self->st.echo++; self->st.laste = x; mc::quiet(false); return "<" + x + ">"; });
    s->set_tick([self]() { mc::quiet(true); int r = ++self->st.tick; mc::quiet(false); return r; });
    s->set_rev([self](std::vector<S> v, int n, MSI m) { mc::quiet(true); self->st.rev++; mc::quiet(false); std::vector<S> r(v.rbegin(), v.rend()); S o = std::to_string(n); for (auto &e : m) o += "," + e.first + "=" + std::to_string(e.second); r.push_back(o); return r; });
  }
};
// bytes of messages
template <class T> inline S enc(const T &v) { msgpack::sbuffer b; msgpack::pack(b, v); return S(b.data(), b.size()); }
inline S arr(int n) { return S(1, char(0x90 | n)); }
inline S req(unsigned id, const S &name, const S &params) { return arr(4) + enc(0) + enc(id) + enc(name) + params; }
inline S rep(unsigned id, const S &result) { return arr(4) + enc(1) + enc(id) + "\xc0" + result; }
static const uint16_t PORT = 7100;
inline Opts L(Opts o) { o.maxsteps = 60000; return o; }
inline void calm() { mc::net = mc::NetCfg(); mc::net.create_fail = false; }
inline void up(Server *v, int n) {
  mc::net.create_fail = false; MC_REQUIRE(v->s->create(PORT), "create failed"); MC_REQUIRE(v->s->run(n, false), "run failed");
  mc::wait_until([=]() { return mc::net_accepting(PORT) == n; }, "server threads to accept");
}
inline void down(Server *v) {
  calm(); v->s->stop(); v->s->join(); MC_REQUIRE(!v->s->running(), "running after stop"); delete v->s; delete v;
  MC_REQUIRE(mc::unreaped() == 0, "a server thread was neither joined nor detached");
  MC_REQUIRE(mc::net_stat().open_fds == 0, "%d descriptors leaked", mc::net_stat().open_fds);
  MC_REQUIRE(mc::net_stat().bad_closes == 0, "a descriptor was closed twice");
  MC_REQUIRE(mc::net_stat().listeners == 0, "the port is still open after the server is gone");
}
template <class F> inline bool attempt(F f, bool may_fail, const char *what, bool timeout = false) {
  try { f(); return true; }
  catch (const rpc_timeout_error &e) { if (!timeout) mc::fail("%s: a time-out error although there is no time-out", what); return false; }
  catch (const rpc_error &e) { if (!may_fail) mc::fail("%s failed: %s", what, e.what()); return false; }
  catch (const std::exception &e) { mc::fail("%s threw something else than an RPC error: %s", what, e.what()); }
}
#endif
