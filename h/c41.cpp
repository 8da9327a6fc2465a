// C41: programs run as CGI or FastCGI processes, and XHTML pages
#include "../mc/seq.h"
#include <fcgiapp.h>
#include <iostream>
#include <map>
#include <network/cgi/base.h>
#include <network/cgi/cgi.h>
#include <network/cgi/fcgi.h>
#include <network/cgi/xhtml_cgi.h>
#include <sstream>
typedef std::string S;
typedef std::map<S, S> M;
typedef std::vector<S> V;
using namespace pfi::network;
struct Req { M env; S body; V raw; };   // raw: further entries of the environment as they are
// ---- the FastCGI process manager -----------------------------------------------------------
static struct Mgr {
  bool cgi; std::vector<Req> q; size_t next; bool open; int finishes, accepts, misuse; size_t in_pos; V out; int put_fail, puts; FCGX_Stream in, o, e; std::vector<char *> envp; V envs; bool eof;
  void reset() { cgi = false; q.clear(); next = 0; open = false; finishes = accepts = misuse = 0; in_pos = 0; out.clear(); put_fail = -1; puts = 0; in.kind = 0; o.kind = 1; e.kind = 2; eof = false; }
  S &buf() { return out.back(); }
} g;
static void block(const Req &r, V &envs, std::vector<char *> &p) { envs.clear(); p.clear(); for (auto &x : r.raw) envs.push_back(x); for (auto &x : r.env) envs.push_back(x.first + "=" + x.second); for (auto &x : r.raw) envs.push_back(x); for (auto &x : envs) p.push_back((char *)x.c_str()); p.push_back(0); }
extern "C" {
int FCGX_IsCGI(void) { return g.cgi; }
int FCGX_Init(void) { return 0; }
int FCGX_Accept(FCGX_Stream **in, FCGX_Stream **out, FCGX_Stream **err, FCGX_ParamArray *envp) {
  g.accepts++; if (g.open) { FCGX_Finish(); }
  if (g.next >= g.q.size()) return -1;
  block(g.q[g.next], g.envs, g.envp); g.next++; g.open = true; g.in_pos = 0; g.eof = false; g.out.push_back(""); *in = &g.in; *out = &g.o; *err = &g.e; *envp = g.envp.data(); return 0;
}
void FCGX_Finish(void) { if (!g.open) g.misuse++; else g.finishes++; g.open = false; for (auto &x : g.envs) for (auto &c : x) c = '!'; }
int FCGX_InitRequest(FCGX_Request *r, int, int) { memset(r, 0, sizeof *r); return 0; }
int FCGX_Accept_r(FCGX_Request *r) { return FCGX_Accept(&r->in, &r->out, &r->err, &r->envp); }
void FCGX_Finish_r(FCGX_Request *) { FCGX_Finish(); }
char *FCGX_GetParam(const char *n, FCGX_ParamArray e) { for (; *e; e++) if (!strncmp(*e, n, strlen(n)) && (*e)[strlen(n)] == '=') return *e + strlen(n) + 1; return 0; }
static bool bad(FCGX_Stream *s, int k) { if (!g.open || !s || (k == 0 ? s->kind != 0 : s->kind == 0)) { g.misuse++; return true; } return false; }
int FCGX_GetChar(FCGX_Stream *s) { if (bad(s, 0)) return -1; const S &b = g.q[g.next - 1].body; if (g.in_pos >= b.size()) { g.eof = true; return -1; } return (unsigned char)b[g.in_pos++]; }
int FCGX_UnGetChar(int c, FCGX_Stream *s) { if (bad(s, 0) || !g.in_pos) return -1; g.in_pos--; return c; }
int FCGX_GetStr(char *p, int n, FCGX_Stream *s) { int k = 0; for (; k < n; k++) { int c = FCGX_GetChar(s); if (c < 0) break; p[k] = c; } return k; }
int FCGX_HasSeenEOF(FCGX_Stream *) { return g.eof ? -1 : 0; }
int FCGX_PutStr(const char *p, int n, FCGX_Stream *s) { if (bad(s, 1)) return -1; if (g.put_fail >= 0 && g.puts++ >= g.put_fail) return -1; if (s->kind == 1) g.buf().append(p, n); return n; }
int FCGX_PutChar(int c, FCGX_Stream *s) { char b = c; return FCGX_PutStr(&b, 1, s) < 0 ? -1 : (unsigned char)b; }
int FCGX_PutS(const char *p, FCGX_Stream *s) { return FCGX_PutStr(p, strlen(p), s); }
int FCGX_FFlush(FCGX_Stream *) { return 0; }
int FCGX_FClose(FCGX_Stream *) { return 0; }
int FCGX_GetError(FCGX_Stream *) { return 0; }
void FCGX_ClearError(FCGX_Stream *) {}
void FCGX_SetExitStatus(int, FCGX_Stream *) {}
}
// ---- the program ---------------------------------------------------------------------------
static const S SPECIAL = "special";
struct Seen { S method; M env, query, file; std::map<S, V> mq; bool dirty; bool operator==(const Seen &o) const { return method == o.method && env == o.env && query == o.query && file == o.file && mq == o.mq && dirty == o.dirty; } };
struct App : public pfi::network::cgi::cgi {
  std::vector<Seen> seen; S page;
  void run(std::ostream &o) {
    Seen s; s.method = method; s.env = env; s.query = query; s.file = file; s.mq = multi_query; s.dirty = false; for (auto it = head.begin(); it != head.end(); ++it) if (it->first != "Content-Type") s.dirty = true;
    s.env.erase("REQUEST_METHOD" + S()); s.env = env; seen.push_back(s);
    if (query.count("type")) head["Content-Type"] = query["type"]; if (query.count("status")) head["Status"] = query["status"];
    o << page << "#" << query.size();
    if (query.count("all")) for (int i = 0; i < 256; i++) o.put((char)i); if (query.count("long")) o << S(70000, 'L');
  }
};
static std::vector<Req> reqs() {
  std::vector<Req> r; auto get = [&](const S &q) { Req x; x.env["REQUEST_METHOD"] = "GET"; x.env["QUERY_STRING"] = q; r.push_back(x); return r.size() - 1; };
  auto post = [&](const S &b, int extra, const S &ct) { Req x; x.env["REQUEST_METHOD"] = "POST"; x.env["CONTENT_LENGTH"] = std::to_string((int)b.size() + extra); x.env["CONTENT_TYPE"] = ct; x.body = b; r.push_back(x); return r.size() - 1; };
  get(""); get("a=1&b=%32&a=x+y"); get("type=image/png&status=404+no"); get("all"); get("long=1");
  size_t i = get("e=q"); r[i].env["EQ"] = "a=b=c"; r[i].env["EMPTY"] = ""; r[i].env["HTTP_X"] = S("\xff\x80 \t", 4); r[i].raw.push_back("no equals sign"); r[i].raw.push_back("");
  post("a=1&b=2", 0, "application/x-www-form-urlencoded"); post("a=1&b=2", 3, ""); post("a=1&b=2", -3, ""); post("", 0, ""); post("k=" + S("\xff\xfe\x80\x01\r\n\x7f", 7) + "&z=" + S(3000, 'z'), 0, "x");
  post("--BB\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\n\r\n\xff" + S(1, '\0') + "\xff--B\r\n\r\n--BB\r\nContent-Disposition: form-data; name=\"t\"\r\n\r\ntext\r\n--BB--\r\n", 0, "multipart/form-data; boundary=BB");
  post("x=1", 5000000, ""); { Req x; r.push_back(x); } { Req x; x.env["REQUEST_METHOD"] = "HEAD"; x.env["QUERY_STRING"] = "h=1"; r.push_back(x); }
  return r;
}
// what exec on ordinary streams does with the same request
static S direct(const Req &r, const S &page, std::vector<Seen> &seen) { App a; a.page = page; std::istringstream in(r.body); std::ostringstream out, err; M env = r.env; a.exec(in, out, err, env); for (auto &s : a.seen) seen.push_back(s); return out.str(); }
extern char **environ;
struct Redirect { std::streambuf *i, *o, *e; char **env; std::istringstream in; std::ostringstream out, err; V envs; std::vector<char *> p;
  explicit Redirect(const Req &r) : in(r.body) { block(r, envs, p); env = environ; environ = p.data(); std::cin.clear(); std::cout.clear(); i = std::cin.rdbuf(in.rdbuf()); o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); }
  ~Redirect() { std::cin.rdbuf(i); std::cout.rdbuf(o); std::cerr.rdbuf(e); environ = env; } };
static S name(const std::vector<int> &h) { S r; for (int x : h) r += " " + std::to_string(x); return r; }
static void fcgi(const std::vector<int> &h, const std::vector<Req> &rq, const S &page) {
  seq::begin_s("FastCGI requests" + name(h) + " page " + seq::show(page)); seq::op(h.size() + 1);
  g.reset(); std::vector<Seen> want; V out; for (int x : h) { g.q.push_back(rq[x]); out.push_back(direct(rq[x], page, want)); }
  App a; a.page = page; pfi::network::cgi::run_fcgi(a).run();
  SEQ_CHECK(g.out.size() == h.size(), "served", "%zu of %zu requests were served", g.out.size(), h.size());
  SEQ_CHECK(g.finishes == (int)h.size() && !g.open && !g.misuse, "finish", "%d requests finished, %d wrong calls of the library", g.finishes, g.misuse);
  for (size_t i = 0; i < h.size(); i++) SEQ_CHECK(g.out[i] == out[i], "output", "response %zu is %s instead of %s", i, seq::show(g.out[i]).c_str(), seq::show(out[i]).c_str());
  SEQ_CHECK(a.seen == want, "seen", "the program saw other parameters or another environment than requested");
  for (auto &x : g.out) seq::observe(x);
}
static void cgi1(int x, const std::vector<Req> &rq, const S &page, bool via) {
  seq::begin_s("CGI request " + std::to_string(x) + (via ? " through the FastCGI runner" : "") + " page " + seq::show(page)); seq::op();
  g.reset(); g.cgi = true; std::vector<Seen> want; S w = direct(rq[x], page, want), got; App a; a.page = page; size_t left;
  { Redirect rd(rq[x]); if (via) pfi::network::cgi::run_fcgi(a).run(); else pfi::network::cgi::run_cgi(a).run(); got = rd.out.str(); left = rq[x].body.size() - (rd.in.tellg() < 0 ? rq[x].body.size() : (size_t)rd.in.tellg()); }
  SEQ_CHECK(got == w, "output", "response is %s instead of %s", seq::show(got).c_str(), seq::show(w).c_str());
  SEQ_CHECK(a.seen == want && g.accepts == 0, "seen", "the program saw other parameters or another environment than requested"); (void)left; seq::observe(got);
}
// ---- XHTML pages ----------------------------------------------------------------------------
struct Page : public pfi::network::cgi::xhtml_cgi {
  int k, runs; bool fresh; S type; Page() : k(0), runs(0), fresh(true) {}
  void build() {
    int n = k % 9;
    if (n == 1) { text__("plain <&>\"'"); }
    if (n >= 2) { html__ { head__ { title__ text__("t<>&"); } body__ { if (n == 3) div__ { p__ text__("a"); p__ { text__("b"); br__; } } if (n >= 4) for (int i = 0; i < n - 3; i++) div__ { for (int j = 0; j < i; j++) span__ text__(S(j, 'x')); } if (n == 8) throw std::runtime_error("page"); } } }
  }
  void run() {
    runs++; fresh = head["Content-Type"].find("text/html") == 0 && builder.get().empty() && xmltag.find("<?xml version=\"1.0\"") == 0 && dtd.find("<!DOCTYPE html") == 0;
    if (k / 9 & 1) xmltag = ""; else if (k / 9 & 2) xmltag = "<?xml version=\"1.1\"?>"; if (k / 9 & 2) dtd = "<!DOCTYPE x>"; if (k / 9 & 4) head["Content-Type"] = "application/xhtml+xml"; build();
  }
  S elems() { std::ostringstream o; for (auto &e : builder.get()) e->pretty(o); return o.str(); }
};
static void pages(const std::vector<int> &h) {
  seq::begin_s("XHTML pages" + name(h)); seq::op(h.size()); Page p;
  for (size_t i = 0; i < h.size(); i++) {
    p.k = h[i]; std::istringstream in; std::ostringstream out, err; M env; env["REQUEST_METHOD"] = "GET"; bool thrown = false;
    try { p.exec(in, out, err, env); } catch (std::runtime_error &e) { thrown = true; }
    SEQ_CHECK(thrown == (h[i] % 9 == 8), "throw", "page %d %s", h[i], thrown ? "threw" : "did not throw"); if (thrown) { SEQ_CHECK(out.str().empty(), "partial", "a page that failed left output"); p.runs = 0; continue; }
    SEQ_CHECK(p.fresh && p.runs == 1, "fresh", "page %zu starts with what an earlier one left", i); p.runs = 0;
    // the same elements built in a fresh object
    Page q; q.k = h[i]; { std::ostringstream o2; std::istringstream i2; q.exec(i2, o2, err, env); SEQ_CHECK(o2.str() == out.str(), "same", "page %zu differs from the same page made first", i); }
    S o = out.str(); size_t b = o.find("\n\n"); SEQ_CHECK(b != S::npos, "head", "no end of the header"); S hd = o.substr(0, b + 1), body = o.substr(b + 2);
    SEQ_CHECK(hd.find(h[i] / 9 & 4 ? "Content-Type: application/xhtml+xml\n" : "Content-Type: text/html; charset=utf-8\n") != S::npos, "type", "header %s", seq::show(hd).c_str());
    S want; if (!(h[i] / 9 & 1)) want += h[i] / 9 & 2 ? "<?xml version=\"1.1\"?>\n" : "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"; want += h[i] / 9 & 2 ? S("<!DOCTYPE x>\n") : S("<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Transitional//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd\">\n"); want += q.elems();
    while (!want.empty() && want.back() == '\n') want.pop_back(); while (!body.empty() && body.back() == '\n') body.pop_back();
    SEQ_CHECK(body == want, "page", "page is %s instead of %s", seq::show(body).c_str(), seq::show(want).c_str()); seq::observe(body);
  }
}
static void reg() {
  seq::task("fastcgi", 8, 32, [](int part, int n) {
    auto rq = reqs(); int R = rq.size(); static const S pg[] = {"", "page", S("\0\xff\n\r", 4)}; int c = 0;
    for (int p = 0; p < 3; p++) { if (c++ % n == part) fcgi({}, rq, pg[p]);
      for (int a = 0; a < R; a++) { if (c++ % n == part) fcgi({a}, rq, pg[p]); for (int b = 0; b < R; b++) { if (c++ % n == part) { fcgi({a, b}, rq, pg[p]); if (seq::thorough || p == 0) for (int d = 0; d < R; d++) fcgi({a, b, d}, rq, pg[p]); if (seq::thorough && p == 0) for (int d = 0; d < R; d++) for (int e = 0; e < R; e++) fcgi({a, b, d, e}, rq, pg[p]); } } } }
  });
  // the server stops taking output: the program ends the request properly and serves the next one
  seq::task("fastcgi-output-fails", 4, 8, [](int part, int n) {
    auto rq = reqs(); int R = rq.size(); int c = 0;
    for (int a = 0; a < R; a++) for (int k = 0; k < 12; k++) { if (c++ % n != part) continue;
      seq::begin_s("FastCGI request " + std::to_string(a) + ", output fails after " + std::to_string(k) + " writes"); seq::op(); g.reset(); g.q.push_back(rq[a]); g.q.push_back(rq[1]); g.put_fail = k; std::vector<Seen> w; S full = direct(rq[a], "pg", w); App app; app.page = "pg"; pfi::network::cgi::run_fcgi(app).run();
      SEQ_CHECK(g.out.size() == 2 && g.finishes == 2 && !g.misuse, "served", "%zu requests served, %d finished", g.out.size(), g.finishes); SEQ_CHECK(full.compare(0, g.out[0].size(), g.out[0]) == 0, "prefix", "output is %s", seq::show(g.out[0]).c_str()); seq::observe(g.out[0]); }
  });
  seq::task("cgi", 4, 4, [](int part, int n) { auto rq = reqs(); static const S pg[] = {"", "page", S("\0\xff\n\r", 4)}; int c = 0; for (int p = 0; p < 3; p++) for (size_t a = 0; a < rq.size(); a++) for (int via = 0; via < 2; via++) if (c++ % n == part) cgi1(a, rq, pg[p], via); });
  seq::task("pages", 4, 8, [](int part, int n) { int c = 0; for (int a = 0; a < 72; a++) for (int b = 0; b < 72; b++) if (c++ % n == part) { pages({a, b}); if (seq::thorough) for (int d = 0; d < 72; d += 5) pages({a, b, d}); } });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
