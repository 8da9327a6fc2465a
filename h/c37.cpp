// C37: the built-in CGI web server answers every request with its own response and survives bad clients
#include "conc.h"
#include "../mc/net.h"
#include <network/cgi/server.h>
#include <network/dns.h>
#include <sstream>
#include <iostream>
#include <map>
using namespace pfi::network;
typedef std::string S;
typedef std::map<S, S> M;
static const uint16_t PORT = 7000;
static S show(const S &s) { S r; for (size_t i = 0; i < s.size() && i < 300; i++) { char b[8]; unsigned char c = s[i]; if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }
static S low(S s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static int runs, clones;
struct App : public pfi::network::cgi::cgi, public pfi::network::cgi::cloner<App> {
  int busy, *bad; App() : busy(0), bad(new int(0)) {} App(const App &o) : pfi::network::cgi::clonable(o), pfi::network::cgi::cgi(o), pfi::network::cgi::cloner<App>(o), busy(0), bad(o.bad) { clones++; }
  void run(std::ostream &o) {
    if (busy) (*bad)++;   // one object must not serve two requests at the same time
    busy = 1; mc::point("cgi program"); mc::quiet(true); runs++; mc::quiet(false);
    S st = query["status"]; if (!st.empty()) head["Status"] = st;
    if (query.count("loc")) head["Location"] = query["loc"];
    if (query.count("type")) head["Content-Type"] = query["type"];
    if (query.count("throw")) { busy = 0; if (query["throw"] == "2") throw 2; if (query["throw"] == "3") throw "text"; throw std::runtime_error("program"); }
    head["X-Id"] = query["id"]; head["X-Remote"] = env["REMOTE_ADDR"] + ":" + env["REMOTE_PORT"] + ":" + env["REQUEST_METHOD"];
    o << method << "|" << env["REQUEST_URI"] << "|" << env["SCRIPT_NAME"] << "|" << env["QUERY_STRING"] << "|" << env["CONTENT_TYPE"] << "|" << env["CONTENT_LENGTH"] << "|" << env["HTTP_X_FOO"] << "|" << env["SERVER_PORT"] << "|";
    for (auto &x : query) o << x.first << "=" << x.second << ";";
    for (auto &x : file) o << x.first << ":" << x.second << ";";
    mc::point("cgi program"); busy = 0;
  }
};
static App *app;
static void init(int nthreads, double timeout = 0, long limit = -1) {
  static struct Null : std::streambuf { int overflow(int c) { return c; } } nb;
  mc::quiet(true); std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb);
  stream_socket::set_dns_resolver(pfi::lang::shared_ptr<dns_resolver>(new normal_dns_resolver()));
  mc::net.create_fail = false; runs = clones = 0; app = new App(); if (limit >= 0) app->set_max_content_length(limit); mc::quiet(false);
  pfi::network::cgi::run_server *sv = new pfi::network::cgi::run_server(*app, PORT, nthreads, timeout);
  sv->run(false);   // the server never ends: its threads are left waiting for connections
}
struct Rq { S raw, want, id; int code; S ctype; S reason; };
static Rq get(const S &id, const S &q, int code = 200, const S &ctype = "text/plain; charset=utf-8") { Rq r; r.id = id; r.code = code; r.ctype = ctype; S u = "/p/" + id + "?id=" + id + q; r.raw = "GET " + u + " HTTP/1.1\r\nHost: h\r\nX-Foo: f" + id + "\r\n\r\n"; r.want = "GET|" + u + "|/p/" + id + "|id=" + id + q + "|||f" + id + "|7000|"; return r; }
static Rq post(const S &id, const S &more) { Rq r; r.id = id; r.code = 200; r.ctype = "text/plain; charset=utf-8"; S b = "id=" + id + more; r.raw = "POST /q HTTP/1.0\r\nContent-Type: a/b\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; r.want = "POST|/q|/q||a/b|" + std::to_string(b.size()) + "||7000|id=" + id + ";"; return r; }
static void check_resp(const Rq &r, const S &out) {
  size_t p = out.find("\r\n"); MC_REQUIRE(p != S::npos, "request %s got no response: [%s]", show(r.raw).c_str(), show(out).c_str());
  S line = out.substr(0, p); M h; p += 2;
  for (;;) { size_t q = out.find("\r\n", p); MC_REQUIRE(q != S::npos, "no end of header in [%s]", show(out).c_str()); S l = out.substr(p, q - p); p = q + 2; if (l.empty()) break; size_t c = l.find(": "); MC_REQUIRE(c != S::npos, "bad header line [%s]", show(l).c_str()); h[low(l.substr(0, c))] = l.substr(c + 2); }
  S body = out.substr(p);
  MC_REQUIRE(line.compare(0, 13, "HTTP/1.1 " + std::to_string(r.code) + " ") == 0, "request %s answered %s", show(r.raw).c_str(), line.c_str());
  if (!r.reason.empty()) MC_REQUIRE(line.substr(13) == r.reason, "request %s answered [%s]", show(r.raw).c_str(), line.c_str());
  MC_REQUIRE(h["x-id"] == r.id && h["content-type"] == r.ctype, "request %s got the header of another response: [%s]", show(r.raw).c_str(), show(out).c_str());
  MC_REQUIRE(!h.count("status"), "the status is sent as a header field");
  MC_REQUIRE(body.compare(0, r.want.size(), r.want) == 0 && body.find("id=" + r.id + ";") != S::npos && h["content-length"] == std::to_string(body.size()), "request %s got the body [%s], expected [%s...]", show(r.raw).c_str(), show(body).c_str(), show(r.want).c_str());
}
static S talk(const S &raw, size_t split = 0) { int fd = mc::net_connect(PORT); MC_REQUIRE(fd >= 0, "the server does not accept"); if (split) { mc::net_send(fd, raw.substr(0, split)); mc::point("second packet"); mc::net_send(fd, raw.substr(split)); } else mc::net_send(fd, raw); S out = mc::net_recv_all(fd); S me = "\r\nX-Remote: 127.0.0.1:" + std::to_string(mc::net_local_port(fd)) + ":" + raw.substr(0, raw.find(' ')) + "\r\n"; MC_REQUIRE(out.find("\r\nX-Remote: ") == S::npos || out.find(me) != S::npos, "the program saw another client: %s, expected %s", show(out).c_str(), show(me).c_str()); mc::net_close(fd); return out; }
static void finish(int nthreads, int expect_runs) {
  mc::wait_until([=]() { return mc::net_accepting(PORT) == nthreads; }, "all server threads to wait for connections again");
  MC_REQUIRE(runs == expect_runs, "the program ran %d times for %d requests", runs, expect_runs);
  MC_REQUIRE(*app->bad == 0, "one program object served two requests at once");
  auto st = mc::net_stat(); MC_REQUIRE(st.open_fds == 1 && st.bad_fd_calls == 0, "%d descriptors open besides the listening one, %d bad calls", st.open_fds - 1, st.bad_fd_calls);
}
static void reg() {
  { stream_socket warm; }
  auto B = [](int pb, int fb = 0) { Opts o = O(pb, 1, 0, true, fb); o.daemon = true; return o; };
  std::vector<Rq> rq = {get("1", ""), post("2", "&z=1"), get("3", "&status=404+Not+Here", 404), get("4", "&type=x%2Fy", 200, "x/y"), get("5", "&loc=http%3A%2F%2Fa%2F", 302)};
  rq[2].reason = "Not Here";
  static const std::vector<S> BAD = {"", "GET / HT", "GARBAGE\r\n\r\n", "GET / HTTP/1.1\r\nA: b\r\n", "POST /q HTTP/1.1\r\nContent-Length: 9\r\n\r\nid=1", "GET /?throw=1 HTTP/1.1\r\n\r\n", "GET /?throw=2 HTTP/1.1\r\n\r\n", "GET /?throw=3 HTTP/1.1\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 5\r\nContent-Type: multipart/form-data; boundary=B\r\n\r\n--B\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\nContent-Length: 3\r\n\r\nzz\r\n"};
  mc::add("sequence", B(0), B(1), [=]() { int n = 1 + mc::choose(2); init(n); int k = mc::choose(3) + 1; for (int i = 0; i < k; i++) { const Rq &r = rq[mc::choose(rq.size())]; check_resp(r, talk(r.raw)); } finish(n, k); });
  // a body sent in chunks is the program's like one sent with its length; cut short or ill-formed it is not executed; too long it is refused
  auto chunked = [](const S &id, const S &more, unsigned cuts, const S &trailer) { Rq r = post(id, more); S b = "id=" + id + more, c; size_t st = 0; for (size_t i = 1; i <= b.size(); i++) if (i == b.size() || (cuts >> (i - 1) & 1)) { char h[20]; snprintf(h, sizeof h, "%zx\r\n", i - st); c += h + b.substr(st, i - st) + "\r\n"; st = i; } r.raw = "POST /q HTTP/1.1\r\nTransfer-Encoding: chunked\r\nContent-Type: a/b\r\n\r\n" + c + "0\r\n" + trailer + "\r\n"; return r; };
  mc::add("chunked", B(0), B(1), [=]() { init(1); Rq r = chunked("6", "&z=1", mc::choose(256), mc::choose(2) ? "T: v\r\n" : ""); check_resp(r, talk(r.raw)); check_resp(rq[0], talk(rq[0].raw)); finish(1, 2); });
  mc::add("chunked_split", B(0), B(1), [=]() { init(1); Rq r = chunked("6", "&z=1", 4, ""); check_resp(r, talk(r.raw, 1 + mc::choose(r.raw.size() - 1))); finish(1, 1); });
  mc::add("chunked_cut", B(0), B(1), [=]() { init(1); Rq r = chunked("6", "&z=1", 4, ""); S raw = r.raw.substr(0, mc::choose(r.raw.size())); int fd = mc::net_connect(PORT), how = mc::choose(3); mc::net_send(fd, raw); if (how == 0) { mc::net_half_close(fd); mc::net_recv_all(fd); mc::net_close(fd); } else mc::net_close(fd, how == 2); check_resp(rq[0], talk(rq[0].raw)); finish(1, 1); });
  mc::add("chunked_bad", B(0), B(1), [=]() { init(1); static const char *BADC[] = {"zz\r\nid=1", "-1\r\n", "4\r\nid=12\r\n0\r\n\r\n", "4\r\nid=1\r\n\r\n", "4\r\nid=1\rx0\r\n\r\n"}; S raw = S("POST /q HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n") + BADC[mc::choose(5)]; int fd = mc::net_connect(PORT); mc::net_send(fd, raw); mc::net_recv_all(fd); mc::net_close(fd); check_resp(rq[0], talk(rq[0].raw)); finish(1, 1); });
  mc::add("chunked_long", B(0), B(1), [=]() { static const int L[] = {3, 12, 13, 14, 15}; int lim = L[mc::choose(5)]; init(1, 0, lim); Rq r = chunked("6", "&z=123456", mc::choose(16) << 6, ""); bool ok = lim >= 13; S out = talk(r.raw); if (ok) check_resp(r, out); else MC_REQUIRE(out.compare(0, 13, "HTTP/1.1 500 ") == 0, "a body longer than the limit was answered [%s]", show(out).c_str()); finish(1, ok ? 1 : 0); });
  mc::add("split", B(0), B(1), [=]() { init(1); const Rq &r = rq[mc::choose(2)]; check_resp(r, talk(r.raw, 1 + mc::choose(r.raw.size() - 1))); finish(1, 1); });
  mc::add("bad_client", B(0), B(1), [=]() {
    int n = 1 + mc::choose(2); init(n); int b = mc::choose(BAD.size()), how = mc::choose(3); int fd = mc::net_connect(PORT); mc::net_send(fd, BAD[b]); int expect = 1;
    if (how == 0) { mc::net_half_close(fd); mc::net_recv_all(fd); mc::net_close(fd); } else mc::net_close(fd, how == 2);
    if (n == 1 || mc::choose(2)) {} else { check_resp(rq[0], talk(rq[0].raw)); expect++; }
    check_resp(rq[0], talk(rq[0].raw));
    mc::wait_until([=]() { return mc::net_accepting(PORT) == n; }, "all server threads to wait for connections again");
    MC_REQUIRE(runs >= expect && runs <= expect + 1, "%d runs", runs); if (b != 5 && b != 6 && b != 7) MC_REQUIRE(runs == expect, "an incomplete or malformed request was executed: %s", show(BAD[b]).c_str());
    auto st = mc::net_stat(); MC_REQUIRE(st.open_fds == 1 && st.bad_fd_calls == 0, "descriptor leak after a bad client");
  });
  for (int n = 1; n <= 2; n++)
    for (int a = 0; a < 3; a++)
      mc::add("concurrent" + std::to_string(n) + "." + std::to_string(a), n == 1 ? B(1) : D(B(2)), n == 1 ? B(2) : D(B(3)), [=]() { init(n); Rq r1 = rq[a], r2 = rq[(a + 1) % 3]; mc::go([=]() { check_resp(r1, talk(r1.raw)); }); mc::go([=]() { check_resp(r2, talk(r2.raw)); }); mc::join_all(); finish(n, 2); MC_REQUIRE(clones >= n, "the threads share one program object"); });
  mc::add("blocked_client2", B(1), B(2), [=]() { init(2); int fd = mc::net_connect(PORT); mc::net_send(fd, "GET / HT"); Rq r = rq[0]; check_resp(r, talk(r.raw)); mc::net_close(fd); finish(2, 1); });
  mc::add("timeout1", B(0), B(1), [=]() { init(1, 3.0); int fd = mc::net_connect(PORT); mc::net_send(fd, "POST /q HTTP/1.1\r\nContent-Length: 20\r\n\r\nid="); Rq r = rq[0]; check_resp(r, talk(r.raw)); mc::net_close(fd);
    MC_REQUIRE(runs == 1, "a request that stalled was executed"); });
  mc::add("idle1", B(0), B(1), [=]() { int n = 1 + mc::choose(2); init(n, 3.0); mc::wait_until([]() { return false; }, "idle", 10.0); check_resp(rq[0], talk(rq[0].raw)); mc::wait_until([]() { return false; }, "idle", 10.0); check_resp(rq[1], talk(rq[1].raw)); MC_REQUIRE(runs == 2, "%d runs", runs); });
  mc::add("accept_fails", B(0, 2), B(1, 2), [=]() { int n = 1 + mc::choose(2); mc::net.accept_fail = true; init(n); check_resp(rq[0], talk(rq[0].raw)); check_resp(rq[1], talk(rq[1].raw)); mc::net.accept_fail = false; check_resp(rq[0], talk(rq[0].raw)); finish(n, 3); });
  mc::add("faults", B(0, 2), B(0, 3), [=]() { init(1); const Rq &r = rq[mc::choose(2)]; mc::net.short_read = mc::net.short_write = mc::net.eintr = true; check_resp(r, talk(r.raw)); mc::net.short_read = mc::net.short_write = mc::net.eintr = false; check_resp(rq[0], talk(rq[0].raw)); finish(1, 2); });
  mc::add("resets", B(0, 1), B(0, 2), [=]() { init(1); const Rq &r = rq[mc::choose(2)]; mc::net.reset = true; talk(r.raw); mc::net.reset = false; int before = runs; check_resp(rq[0], talk(rq[0].raw)); MC_REQUIRE(runs == before + 1 && before <= 1, "the program ran %d times", runs); mc::wait_until([=]() { return mc::net_accepting(PORT) == 1; }, "server"); MC_REQUIRE(mc::net_stat().open_fds == 1, "descriptor leak"); });
  mc::add("start_fails", B(0, 2), B(1, 2), [=]() { mc::net.socket_fail = mc::net.opt_fail = true; bool up = false; try { init(1); up = true; } catch (std::exception &) {} mc::net.socket_fail = mc::net.opt_fail = false; if (up) { MC_REQUIRE(mc::net_listening(PORT), "reported as started but not listening"); check_resp(rq[0], talk(rq[0].raw)); } else mc::outcome("failed"); });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
