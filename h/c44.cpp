// C44: calls made at the same time by different threads on objects of their own (or reading a common one) do not disturb each other
#include "conc.h"
#include <arpa/inet.h>
#include <cctype>
#include <complex>
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <ctime>
#include <functional>
#include <map>
#include <netdb.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <data/code/code.h>
#include <data/config_file.h>
#include <data/digest/md5.h>
#include <data/encoding/base64.h>
#include <data/fenwick_tree.h>
#include <data/intern.h>
#include <data/lru.h>
#include <data/optional.h>
#include <data/serialization.h>
#include <data/serialization/iostream.h>
#include <data/serialization/unordered_map.h>
#include <data/string/aho_corasick.h>
#include <data/string/algorithm.h>
#include <data/string/kmp.h>
#include <data/string/ustring.h>
#include <data/string/utility.h>
#include <lang/any.h>
#include <lang/cast.h>
#include <lang/demangle.h>
#include <lang/exception.h>
#include <lang/shared_ptr.h>
#include <lang/weak_ptr.h>
#include <math/fft.h>
#include <math/random.h>
#include <math/ratio.h>
#include <math/vector.h>
#include <network/cgi/base.h>
#include <network/cgi/xhtml_cgi.h>
#include <network/cgi/tags.h>
#include <network/http/base.h>
#include <network/ipv4.h>
#include <network/uri.h>
#include <system/endian_util.h>
#include <system/file.h>
#include <system/syscall.h>
#include <system/sysstat.h>
#include <system/time_util.h>
#include <text/csv.h>
#include <text/json.h>
#include <text/xhtml.h>
typedef std::string S;
// ---- functions of the C library that answer in a buffer of their own: another thread may call in between
static void shared_buffer() { if (mc::active()) mc::point("a buffer shared by all threads was filled"); }
static struct tm g_tm; static char g_txt[256]; static char *g_tok;
extern "C" struct tm *localtime(const time_t *t) __THROW { struct tm l; if (!localtime_r(t, &l)) return 0; g_tm = l; shared_buffer(); return &g_tm; }
extern "C" struct tm *gmtime(const time_t *t) __THROW { struct tm l; if (!gmtime_r(t, &l)) return 0; g_tm = l; shared_buffer(); return &g_tm; }
extern "C" char *asctime(const struct tm *t) __THROW { asctime_r(t, g_txt); shared_buffer(); return g_txt; }
extern "C" char *ctime(const time_t *t) __THROW { ctime_r(t, g_txt); shared_buffer(); return g_txt; }
extern "C" char *inet_ntoa(struct in_addr a) __THROW { inet_ntop(AF_INET, &a, g_txt, sizeof g_txt); shared_buffer(); return g_txt; }
extern "C" char *strtok(char *s, const char *d) __THROW { char *r = strtok_r(s, d, &g_tok); shared_buffer(); return r; }
extern "C" char *strerror(int e) __THROW { char b[200]; const char *m = strerror_r(e, b, sizeof b); snprintf(g_txt, sizeof g_txt, "%s", m); shared_buffer(); return g_txt; }
// ---- memory the C library reads and writes on behalf of its caller
#define RET __builtin_return_address(0)
#define PLAIN __attribute__((no_sanitize("thread")))
extern "C" PLAIN void *memcpy(void *d, const void *s, size_t n) { mc::touch(d, n, true, RET); mc::touch(s, n, false, RET); void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
extern "C" PLAIN void *memset(void *d, int c, size_t n) { mc::touch(d, n, true, RET); void *r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
extern "C" PLAIN void *memmove(void *d, const void *s, size_t n) {
  mc::touch(d, n, true, RET); mc::touch(s, n, false, RET); void *r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else { d = (char *)d + n - 1; s = (const char *)s + n - 1; __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
  return r;
}
extern "C" PLAIN size_t strlen(const char *s) { size_t n = 0; while (*(const volatile char *)(s + n)) n++; mc::touch(s, n + 1, false, RET); return n; }
extern "C" PLAIN char *strcpy(char *d, const char *s) { size_t n = 0; while (*(const volatile char *)(s + n)) n++; mc::touch(s, n + 1, false, RET); mc::touch(d, n + 1, true, RET); for (size_t i = 0; i <= n; i++) ((volatile char *)d)[i] = s[i]; return d; }
extern "C" PLAIN int vsnprintf(char *d, size_t n, const char *f, va_list a) {
  static int (*real)(char *, size_t, const char *, va_list); if (!real) real = (int (*)(char *, size_t, const char *, va_list))dlsym(RTLD_NEXT, "vsnprintf");
  int r = real(d, n, f, a); if (n) mc::touch(d, r < 0 ? 1 : (size_t)r + 1 < n ? r + 1 : n, true, RET); return r;
}
extern "C" PLAIN int snprintf(char *d, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(d, n, f, a); va_end(a); if (n) mc::touch(d, r < 0 ? 1 : (size_t)r + 1 < n ? r + 1 : n, true, RET); return r; }
extern "C" PLAIN int vsprintf(char *d, const char *f, va_list a) { int r = vsnprintf(d, 1 << 20, f, a); mc::touch(d, r + 1, true, RET); return r; }
extern "C" PLAIN int sprintf(char *d, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(d, 1 << 20, f, a); va_end(a); mc::touch(d, r + 1, true, RET); return r; }
extern "C" PLAIN char *strerror_r(int e, char *b, size_t n) __THROW { static char *(*real)(int, char *, size_t); if (!real) real = (char *(*)(int, char *, size_t))dlsym(RTLD_NEXT, "strerror_r"); char *r = real(e, b, n); if (r == b) { mc::touch(b, strlen(b) + 1, true, RET); shared_buffer(); } return r; }
#define SCAN(name) extern "C" PLAIN int name(const char *s, const char *f, ...) __THROW; extern "C" PLAIN int name(const char *s, const char *f, ...) __THROW { va_list a; va_start(a, f); int r = vsscanf(s, f, a); va_end(a); shared_buffer(); return r; }
SCAN(__isoc99_sscanf) SCAN(__isoc23_sscanf)
// ---- the calls ------------------------------------------------------------------------------------
template <class T> static S str(const T &v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
template <class C> static S all(const C &c) { S r; for (auto &x : c) r += str(x) + ","; return r; }
static S job_md5(int w) { S s = w ? "message digest" : "The quick brown fox jumps over the lazy dog, twice and more than one block long"; pfi::data::digest::md5sum m(s.begin(), s.end()); return str(m); }
static S job_base64(int w) { S s = w ? S("\0\xff\x80", 3) + "zz" : S("hello, world"), e = pfi::data::encoding::base64_encode(s), b; try { b = pfi::data::encoding::base64_decode(w ? "ab=c" : "ab!="); } catch (const std::exception &x) { b = x.what(); } return e + pfi::data::encoding::base64_decode(e) + b; }
static S job_json(int w) {
  using namespace pfi::text::json; S t = w ? "{\"a\":[1,-2.5e3,\"\\u3042\\n\"],\"b\":{\"c\":null}}" : "[true,false,{\"k\":\"v\",\"long name\":[[],{}]},12345678901]", r;
  { std::istringstream is(t); json j; is >> j; std::ostringstream o; o << j << "|"; j.pretty(o, w); r = o.str(); json k = j; r += w ? str(k["a"][0]) : str(k[2]["k"]); }
  try { std::istringstream is(w ? "{\"a\" 1}" : "[1,,2]"); json j; is >> j; r += "accepted"; } catch (const std::exception &e) { r += e.what(); }
  return r;
}
struct Rec { int x; S s; std::vector<double> v; template <class A> void serialize(A &ar) { ar & MEMBER(x) & NAMED_MEMBER("text", s) & MEMBER(v); } };
static S job_json_cast(int w) { using namespace pfi::text::json; Rec a; a.x = w + 5; a.s = w ? "one" : "other"; a.v.assign(2 + w, 1.5); S t = str(to_json(a)); std::istringstream is(t); json j; is >> j; Rec b = json_cast<Rec>(j); S r; try { json_cast<int>(json(new json_string(a.s))); } catch (const std::exception &e) { r = e.what(); } return t + str(b.x) + b.s + all(b.v) + r; }
static S job_csv(int w) { std::vector<std::vector<S>> v; pfi::text::parse_csv(w ? "a,\"b,\"\"c\"\nd,,\r\n" : "1,2\n\"x\ny\",z", v); S r; for (auto &x : v) r += all(x) + ";"; return r; }
static S job_binary(int w) {
  using namespace pfi::data::serialization; std::map<S, std::vector<int>> m, n; m[w ? "k" : "key two"].assign(3 + w, 7 * w - 1); m["z"]; pfi::data::unordered_map<int, S> u, x; u[w] = "u"; Rec a, b; a.x = w; a.s = "s"; a.v.push_back(w + .25); std::stringstream ss;
  { binary_oarchive o(ss); o << m << u << a; } { binary_iarchive i(ss); i >> n >> x >> b; }
  S r = str(ss.str().size()); for (auto &e : n) r += e.first + all(e.second); return r + x[w] + str(b.x) + b.s + all(b.v);
}
static S job_typerep(int) { return pfi::lang::get_typename<std::map<S, int>>() + pfi::lang::demangle("not a type"); }
static S job_bits(int w) { pfi::data::code::encoder e; for (unsigned i = 1; i < 6; i++) { e.gamma(i * (w + 3)); e.delta(i * 77 + w); e.rice(i * 9 + w, 2 + w); e.prefix_code(i * 1000 * (w + 1)); e.word_with_length(i, 5 + w); e.byte(i ^ w); } std::vector<unsigned char> b = e.get_bytes(); b.resize(b.size() + 8); pfi::data::code::decoder d; d.attach(&b[0]); S r; for (unsigned i = 1; i < 6; i++) { r += str(d.gamma()) + ","; r += str(d.delta()) + ","; r += str(d.rice(2 + w)) + ","; r += str(d.prefix_code()) + ","; r += str(d.word_with_length(5 + w)) + ","; r += str((int)d.byte()) + ";"; } return r; }
static S job_utf8(int w) { using namespace pfi::data::string; S s = w ? "\xef\xbd\xb6\xef\xbe\x9e\xe3\x81\x82 Az" : "\xe6\xbc\xa2\xef\xbc\xa1\xef\xbc\x91z\xf0\x9f\x98\x80", bad = w ? "a\xff" "b" : "\xe3\x81"; ustring u = string_to_ustring(s); S r = ustring_to_string(u) + ustring_to_string(hankaku_to_zenkaku(u)) + ustring_to_string(zenkaku_latin_to_basic_latin(u)) + ustring_to_string(basic_latin_to_zenkaku_latin(u)) + str(u) + str(check_utf8(bad)) + sanitize_utf8(bad + "x"); try { r += ustring_to_string(string_to_ustring(bad)); } catch (const std::exception &e) { r += e.what(); } return r; }
static S job_text(int w) { using namespace pfi::data::string; S s = w ? " a,b,,c\t" : "x--y-z--"; return all(split(s, w ? ',' : '-')) + all(split(s, S("--"))) + strip(s) + "|" + join(split(s, ','), S("+")) + str(starts_with(s, S("x-"))) + str(ends_with(s, S("--"))) + replace(s, S("--"), S(w ? "" : "***")); }
static S job_search(int w) { using namespace pfi::data::string; S t = w ? "abababcab" : "mississippi"; std::vector<S> ws; ws.push_back("ab"); ws.push_back("issi"); ws.push_back("c"); ws.push_back("ss"); aho_corasick ac(ws); std::vector<std::pair<int, int>> res; ac.search(t, res); S r; for (auto &p : res) r += str(p.first) + ":" + str(p.second) + " "; return r + str(kmp<S>(w ? "abc" : "issip").find(t)) + "," + str(edit_distance(t, S("kitten"))) + "," + str(longest_common_subsequence(t, S("sip ab"))) + "," + str(longest_increasing_subsequence(t)); }
static S job_uri(int w) { pfi::network::uri u(w ? "http://user:pw@example.com:8080/a/b%20c?q=1&r=%41#frag" : "ftp://[::1]/~x;y=1"); S r = str(u) + u.scheme() + u.authority() + u.userinfo() + u.host() + u.port() + u.path() + u.query() + u.fragment(), s = w ? "a b&c=\xe3\x81\x82" : "~-_.!*'()%/"; r += pfi::network::uri_encode(s) + pfi::network::uri_decode(pfi::network::uri_encode(s)) + pfi::text::xhtml::html_encode(w ? "<a href=\"x\">&amp;" : "'quoted' & <b>"); try { pfi::network::uri v(w ? "http://[::" : "1:2:3%"); r += str(v); } catch (const std::exception &e) { r += e.what(); } return r; }
static S job_http(int w) { std::istringstream is(w ? "Host: a\r\nX-Long: b\r\n c\r\n\r\n" : "content-type:  text/html \r\nA: 1\r\n\r\n"); pfi::network::http::header h(is); S r; for (auto it = h.begin(); it != h.end(); ++it) r += it->first + "=" + it->second + ";"; h.set("New", w ? "1" : "2"); const pfi::network::http::header &c = h; r += c["new"] + c[w ? "Host" : "Content-Type"]; try { std::istringstream b("no colon\r\n\r\n"); pfi::network::http::header x(b); r += "taken"; } catch (const std::exception &e) { r += e.what(); } return r; }
struct App : public pfi::network::cgi::cgi { void run(std::ostream &o) { o << method; for (auto &x : query) o << "[" << x.first << "=" << x.second << "]"; for (auto &x : multi_query) o << x.first << x.second.size(); for (auto &x : file) o << "<" << x.first << ":" << x.second << ">"; head["X-Who"] = env["WHO"]; } };
static S cgi_run(pfi::network::cgi::cgi &a, int w) {
  std::map<S, S> env; env["WHO"] = str(w); S body;
  if (w) { env["REQUEST_METHOD"] = "POST"; env["CONTENT_TYPE"] = "multipart/form-data; boundary=xyz"; body = "--xyz\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\nContent-Type: text/plain\r\n\r\ndata\r\n--xyz\r\nContent-Disposition: form-data; name=\"p\"\r\n\r\nv\r\n--xyz--\r\n"; env["CONTENT_LENGTH"] = str(body.size()); }
  else { env["REQUEST_METHOD"] = "GET"; env["QUERY_STRING"] = "a=1&b=%20x+y&a=2"; }
  std::istringstream in(body); std::ostringstream out, err; a.exec(in, out, err, env); return out.str() + err.str();
}
static S job_cgi(int w) { App a; return cgi_run(a, w); }
struct Page : public pfi::network::cgi::xhtml_cgi { void page() { html__ { body__ { attr__("class") = env["WHO"]; for (int i = 0; i < 2; i++) p__ { text__(S("<") + query["b"] + file["f"]); br__; } } } } void run() { page(); } };
static S job_config(int w) { std::istringstream is(w ? "[s]\nk = v\n;c\n[t]\na=\"1\"\n" : "[one]\nx=1\ny=2\n[two]\nx=3\n"); pfi::data::config_file c(is); S r; for (auto &s : c) for (auto &k : s.second) r += s.first + "." + k.first + "=" + k.second + ";"; const pfi::data::config_file &d = c; r += d["none"]["none"] + c[w ? "s" : "one"][w ? "k" : "x"]; try { std::istringstream b(w ? "[open\n" : "[a]\nno\n"); pfi::data::config_file x(b); r += "taken"; } catch (const std::exception &e) { r += e.what(); } return r; }
static S job_ipv4(int w) { pfi::network::ipv4_address a(S(w ? "10.20.30.40" : "192.168.255.1")); return a.to_string() + str(a < pfi::network::ipv4_address::loopback) + pfi::network::ipv4_address(w, 2, 3, 255).to_string(); }
static S cal(const pfi::system::time::calendar_time &c) { char b[200]; snprintf(b, sizeof b, "%d-%d-%d %d:%d:%d.%d w%d y%d d%d", c.year, c.mon, c.mday, c.hour, c.min, c.sec, c.usec, c.wday, c.yday, (int)c.isdst); return b; }
static S job_time(int w) { using namespace pfi::system::time; calendar_time c(clock_time(w ? 1234567890 : 1721001600, w ? 5 : 999999)); clock_time k(c); calendar_time n(w ? 1999 : 2024, w ? 12 : 2, w ? 32 : 29, 25, 61, 7, 8); clock_time m(n); return cal(c) + cal(n) + str(k.sec) + "," + str(k.usec) + "," + str(m.sec) + "," + str(double(m - k)); }
static S job_random(int w) { pfi::math::random::mtrand g(w ? 42 : 4711); S r; for (int i = 0; i < 4; i++) { r += str(g.next_int()) + ","; r += str(g.next_int(100)) + ","; r += str(g.next_double()) + ","; r += str(g.next_gaussian()) + ";"; } std::vector<int> v; pfi::math::random::sample_without_replacement(g, 10, 4, v); r += all(v); pfi::math::random::sample_with_replacement(g, 10, 4, v); return r + all(v); }
static S job_math(int w) { typedef pfi::math::ratio::ratio<int> Q; Q a(w ? 6 : 9, w ? -4 : 12), b(1, 3 + w); S r = str(a + b) + str(a * b) + str(a / b); std::vector<std::complex<double>> v; for (int i = 0; i < 8; i++) v.push_back(std::complex<double>(i * i + w, w - i)); pfi::math::fft(v.begin(), v.end()); r += all(v); pfi::math::ifft(v.begin(), v.end()); return r + all(v); }
static S job_tables(int w) { pfi::data::lru<int, S> l(2); l.set(1, "a"); l.set(2, "b"); l.get(1); l.set(3 + w, "c"); S r = str(l.has(1)) + str(l.has(2)) + l[3 + w]; pfi::data::intern<S> n; for (int i = 0; i < 5; i++) r += str(n.key2id(str(i * (w + 2) % 5))); r += n.id2key(1); pfi::data::fenwick_tree<int> f(7); for (int i = 0; i < 7; i++) f.increase(i, i + w); return r + str(f.query(5)) + "," + str(f.query(2, 4)); }
static S job_values(int w) { pfi::lang::any a(w ? S("text") : S("other")); pfi::lang::any b = a; a = w; S r = pfi::lang::any_cast<S>(b) + str(pfi::lang::any_cast<int>(a)); try { pfi::lang::any_cast<S>(a); } catch (const std::exception &e) { r += "!"; } r += pfi::lang::lexical_cast<S>(w + 1.5) + str(pfi::lang::lexical_cast<int>(S(w ? "77" : "-3"))); pfi::data::optional<S> o; if (w) o = S("set"); r += o ? *o : S("unset"); pfi::lang::parse_error e("file", w, 2 * w, "msg"); return r + e.what(); }
static S job_system(int w) { char b[9] = "abcdefgh"; pfi::system::endian::reverse(b, w ? 8 : 5); return S(b) + str(pfi::system::endian::to_big(w ? 0x12345678 : 0x1020304)) + pfi::system::syscall::get_error_msg(w ? ENOENT : EACCES) + pfi::system::syscall::get_error_msg(w ? 9999 : 12345); }
static S job_xhtml(int w) { Page a; return cgi_run(a, w); }
struct Job { const char *name; S (*f)(int); };
static const Job jobs[] = {{"md5", job_md5}, {"base64", job_base64}, {"json", job_json}, {"json_cast", job_json_cast}, {"csv", job_csv}, {"binary", job_binary}, {"typename", job_typerep}, {"bits", job_bits}, {"utf8", job_utf8}, {"text", job_text}, {"search", job_search}, {"uri", job_uri}, {"http", job_http}, {"cgi", job_cgi}, {"xhtml", job_xhtml}, {"config", job_config}, {"ipv4", job_ipv4}, {"time", job_time}, {"random", job_random}, {"math", job_math}, {"tables", job_tables}, {"values", job_values}, {"system", job_system}};
static const int N = sizeof jobs / sizeof *jobs;
static S want[N][2];
// what each call answers when made alone in a fresh process
static S alone(S (*f)(int), int w) {
  int p[2]; if (pipe(p)) _exit(3);
  pid_t c = fork();
  if (!c) { S s = f(w); size_t n = 0; while (n < s.size()) { ssize_t k = write(p[1], s.data() + n, s.size() - n); if (k <= 0) _exit(1); n += k; } _exit(0); }
  close(p[1]); S r; char b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) r.append(b, k); close(p[0]); int st; waitpid(c, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) r = "?";
  return r;
}
static void both(int i, int wi, int j, int wj) {
  mc::quiet(true); S *a = new S, *b = new S; mc::quiet(false);
  mc::go([=]() { S r = jobs[i].f(wi); mc::quiet(true); *a = r; mc::quiet(false); });
  mc::go([=]() { S r = jobs[j].f(wj); mc::quiet(true); *b = r; mc::quiet(false); });
  mc::join_all();
  mc::quiet(true);
  MC_REQUIRE(*a == want[i][wi], "%s gave a different answer while another thread was using %s: \"%s\" instead of \"%s\"", jobs[i].name, jobs[j].name, a->c_str(), want[i][wi].c_str());
  MC_REQUIRE(*b == want[j][wj], "%s gave a different answer while another thread was using %s: \"%s\" instead of \"%s\"", jobs[j].name, jobs[i].name, b->c_str(), want[j][wj].c_str());
  delete a; delete b; mc::quiet(false);
  S c = jobs[i].f(1 - wi);
  MC_REQUIRE(c == want[i][1 - wi], "%s gives a different answer after two threads used it: \"%s\" instead of \"%s\"", jobs[i].name, c.c_str(), want[i][1 - wi].c_str());
  mc::outcome(S(jobs[i].name) + "+" + jobs[j].name);
}
// two threads read (and copy) the same object
template <class T, class F> static void readers(const char *what, const T &shared, F use) {
  mc::quiet(true); S *a = new S, *b = new S; mc::quiet(false);
  S w0 = use(shared, 0), w1 = use(shared, 1);
  const T *p = &shared;
  mc::go([=]() { S r = use(*p, 0); mc::quiet(true); *a = r; mc::quiet(false); });
  mc::go([=]() { S r = use(*p, 1); mc::quiet(true); *b = r; mc::quiet(false); });
  mc::join_all();
  MC_REQUIRE(*a == w0 && *b == w1, "%s read by two threads at once gave \"%s\" and \"%s\" instead of \"%s\" and \"%s\"", what, a->c_str(), b->c_str(), w0.c_str(), w1.c_str());
  MC_REQUIRE(use(shared, 0) == w0 && use(shared, 1) == w1, "%s changed by being read", what);
  mc::quiet(true); delete a; delete b; mc::quiet(false);
  mc::outcome(what);
}
struct Obj { static int alive; S s; Obj() : s("payload") { mc::quiet(true); alive++; mc::quiet(false); } ~Obj() { mc::quiet(true); alive--; mc::quiet(false); } };
int Obj::alive = 0;
static void reg() {
  setenv("TZ", "America/New_York", 1); tzset();
  for (int i = 0; i < N; i++) for (int w = 0; w < 2; w++) want[i][w] = alone(jobs[i].f, w);
  for (int i = 0; i < N; i++) {
    auto F = [](Opts o) { o.forkexec = true; return o; };
    bool big = S(jobs[i].name) == "md5";
    mc::add(S("same.") + jobs[i].name, F(O(big ? 1 : 2, 0)), F(O(big ? 1 : 4, 0)), [=]() { both(i, 0, i, 1); });
    mc::add(S("equal.") + jobs[i].name, F(O(1, 0)), F(O(big ? 1 : 3, 0)), [=]() { int w = mc::choose(2); both(i, w, i, w); }, big);
    mc::add(S("with.") + jobs[i].name, F(O(1, 0)), F(O(2, 0)), [=]() { int k = mc::choose(N - 1); both(i, 0, k < i ? k : k + 1, 1); });
  }
  mc::add("reading.json", O(2, 0), O(3, 0), []() {
    using namespace pfi::text::json; std::istringstream is("{\"a\":[1,{\"b\":\"text\"}],\"c\":2.5}"); json j; is >> j;
    readers("a JSON value", j, [](const json &x, int w) { json y = x; S r = str(y) + (w ? str(y["a"][1]["b"]) : str(x["c"])); std::ostringstream o; x.pretty(o, true); json z = y["a"]; y = z; for (json::const_iterator it = x.begin(); it != x.end(); ++it) r += it->first; return r + o.str() + str(y.size()); });
  });
  mc::add("reading.config", O(2, 0), O(3, 0), []() { std::istringstream is("[s]\nk=v\n[t]\nx=1\n"); pfi::data::config_file c(is); readers("a configuration", c, [](const pfi::data::config_file &x, int w) { return x["s"]["k"] + x["t"][w ? "x" : "no"] + x["none"]["k"] + str(x.find("t") != x.end()); }); });
  mc::add("reading.words", O(2, 0), O(3, 0), []() { std::vector<S> ws; ws.push_back("he"); ws.push_back("she"); ws.push_back("hers"); pfi::data::string::aho_corasick ac(ws); readers("a word automaton", ac, [](const pfi::data::string::aho_corasick &x, int w) { std::vector<std::pair<int, int>> v; x.search(w ? "ushers" : "shehe", v); S r; for (auto &p : v) r += str(p.first) + ":" + str(p.second) + " "; return r; }); });
  mc::add("reading.pattern", O(2, 0), O(3, 0), []() { pfi::data::string::kmp<S> k("aab"); readers("a search pattern", k, [](const pfi::data::string::kmp<S> &x, int w) { return str(x.find(w ? "aaab" : "abaabaab", w ? 0 : 3)); }); });
  mc::add("reading.intern", O(2, 0), O(3, 0), []() { pfi::data::intern<S> n; n.key2id("a"); n.key2id("b"); readers("an interning table", n, [](const pfi::data::intern<S> &x, int w) { return x.id2key(w) + str(x.key2id_nogen(w ? "a" : "z")) + str(x.exist_key("b")) + str(x.exist_id(w + 1)) + str(x.size()); }); });
  mc::add("reading.uri", O(2, 0), O(3, 0), []() { pfi::network::uri u("http://h:1/p?q#f"); readers("a URI", u, [](const pfi::network::uri &x, int w) { pfi::network::uri y = x; return w ? str(x) + x.authority() : y.host() + y.port() + str(y); }); });
  mc::add("reading.header", O(2, 0), O(3, 0), []() { std::istringstream is("A: 1\r\nB: 2\r\n\r\n"); pfi::network::http::header h(is); readers("an HTTP header", h, [](const pfi::network::http::header &x, int w) { S r = x.has_key("b") ? x["b"] : S("?"); for (auto it = x.begin(); it != x.end(); ++it) r += it->first + it->second; pfi::network::http::header y = x; y.set("C", str(w)); return r + y["c"]; }); });
  mc::add("reading.values", O(2, 0), O(3, 0), []() { typedef std::pair<pfi::lang::any, pfi::data::optional<S>> T; T t(pfi::lang::any(S("held")), pfi::data::optional<S>(S("opt"))); readers("a value holder", t, [](const T &x, int w) { T y = x; S r = pfi::lang::any_cast<S>(y.first) + *y.second; if (w) y.first = 3; else y.second = S("changed"); return r + pfi::lang::any_cast<S>(x.first) + *x.second; }); });
  mc::add("reading.digest", O(2, 0), O(3, 0), []() { S s = "abc"; pfi::data::digest::md5sum m(s.begin(), s.end()); readers("a digest", m, [](const pfi::data::digest::md5sum &x, int w) { return str(x) + str(x < x) + str(w); }); });
  // one owner in each thread; the object goes away with the last of them, exactly once
  for (int kind = 0; kind < 3; kind++)
    mc::add(S("owners.") + "swc"[kind], O(3, 0), O(5, 0), [=]() {
      mc::quiet(true); Obj::alive = 0; mc::quiet(false);
      typedef pfi::lang::shared_ptr<Obj> P; typedef pfi::lang::weak_ptr<Obj> W;
      P *p = new P(new Obj), *q = new P(*p); W *w = new W(*p);
      mc::go([=]() { { P a(*p); P b = a; MC_REQUIRE(b->s == "payload", "the object was damaged"); } delete p; });
      mc::go([=]() {
        if (kind == 0) { P a; a = *q; MC_REQUIRE(a->s == "payload", "the object was damaged"); delete q; }
        else if (kind == 1) { delete q; P a = w->lock(); if (a) MC_REQUIRE(a->s == "payload" && Obj::alive == 1, "a weak pointer gave a dead object"); else MC_REQUIRE(Obj::alive == 0, "a weak pointer gave nothing although the object lives"); mc::quiet(true); mc::outcome(a ? "locked" : "expired"); mc::quiet(false); }
        else { P a = pfi::lang::const_pointer_cast<Obj>(*q); delete q; W v(a), x(v); MC_REQUIRE(!x.expired(), "expired although owned"); a.reset(); if (P b = x.lock()) MC_REQUIRE(b->s == "payload", "the object was damaged"); }
      });
      mc::join_all();
      MC_REQUIRE(Obj::alive == 0, "%d objects left after the last owner", Obj::alive);
      MC_REQUIRE(!w->lock() && w->expired(), "a weak pointer outlived the object"); delete w;
    });
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
