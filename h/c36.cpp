// C36: CGI programs see exactly the parameters and files of the request, and the response they wrote is what goes out
#include "../mc/seq.h"
#include <network/cgi/base.h>
#include <sstream>
typedef std::string S;
typedef std::map<S, S> M;
using namespace pfi::network;
struct App : public pfi::network::cgi::cgi {
  int runs; S m; M q, f, e; std::map<S, std::vector<S>> mq; std::map<S, M> fi; std::vector<std::pair<S, S>> set; S out; bool dirty;
  App() : runs(0), dirty(false) {}
  void run(std::ostream &o) {
    runs++; m = method; q = query; f = file; mq = multi_query; e = env; fi.clear();
    for (auto &x : file_info) { M h; for (auto it = x.second.begin(); it != x.second.end(); ++it) h[it->first] = it->second; fi[x.first] = h; }
    dirty = false; for (auto it = head.begin(); it != head.end(); ++it) if (it->first != "Content-Type") dirty = true;
    for (auto &x : set) head[x.first] = x.second;
    o << out;
  }
};
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static S dec(const S &s) { S r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { r += (char)(hv(s[i + 1]) * 16 + hv(s[i + 2])); i += 2; } else r += s[i] == '+' ? ' ' : s[i]; return r; }
struct Want { M q, f; std::map<S, std::vector<S>> mq; std::map<S, S> ct; };
static void add(Want &w, const S &k, const S &v) { w.q[k] = v; w.mq[k].push_back(v); }
static Want form(const S &s) { Want w; size_t p = 0; while (p <= s.size()) { size_t q = s.find('&', p); if (q == S::npos) q = s.size(); S t = s.substr(p, q - p); if (!t.empty()) { size_t e = t.find('='); if (e == S::npos) add(w, dec(t), ""); else add(w, dec(t.substr(0, e)), dec(t.substr(e + 1))); } p = q + 1; } return w; }
// an empty segment of a query may show up as an empty name with an empty value
static void drop_empty(App &a, const Want &w) { if (!w.mq.count("")) { bool only = true; for (auto &v : a.mq[""]) if (!v.empty()) only = false; if (only) { a.mq.erase(""); a.q.erase(""); } } else { std::vector<S> r; auto &v = a.mq[""]; size_t n = 0; for (auto &x : w.mq.at("")) n += x.empty(); for (auto &x : v) if (!x.empty() || n) { r.push_back(x); if (x.empty()) n--; } } }
static S pm(const M &m) { S r = "{"; for (auto &x : m) r += seq::show(x.first) + ":" + seq::show(x.second) + " "; return r + "}"; }
static S pv(const std::map<S, std::vector<S>> &m) { S r = "{"; for (auto &x : m) { r += seq::show(x.first) + ":["; for (auto &y : x.second) r += seq::show(y) + " "; r += "]"; } return r + "}"; }
static bool same(App &a, const Want &w, bool empties) {
  if (empties) { bool has = false; for (auto &x : w.mq) if (x.first.empty()) has = true; if (!has) drop_empty(a, w); else { auto strip = [](std::vector<S> v) { std::vector<S> r; for (auto &x : v) if (!x.empty()) r.push_back(x); return r; }; std::map<S, std::vector<S>> h = a.mq, k = w.mq; h[""] = strip(h[""]); k[""] = strip(k[""]); M hq = a.q, kq = w.q; hq.erase(""); kq.erase(""); return h == k && hq == kq && a.f == w.f; } }
  return a.q == w.q && a.mq == w.mq && a.f == w.f;
}
static S run(App &a, const M &env, const S &body, S *left = 0) { std::istringstream in(body); std::ostringstream out, err; a.exec(in, out, err, env); if (left) { in.clear(); *left = S(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()); } return out.str(); }
static void query(const S &s) {
  for (int post = 0; post < 2; post++) {
    seq::begin_s((post ? "POST " : "GET ") + seq::show(s)); seq::op();
    App a; M env; S left; env["REQUEST_METHOD"] = post ? "POST" : "GET"; env["OTHER"] = "x";
    if (post) { env["CONTENT_LENGTH"] = std::to_string(s.size()); env["CONTENT_TYPE"] = "application/x-www-form-urlencoded"; env["QUERY_STRING"] = "not=used"; } else env["QUERY_STRING"] = s;
    run(a, env, post ? s + "tail" : "ignored", &left);
    Want w = form(s);
    SEQ_CHECK(a.runs == 1 && a.m == (post ? "POST" : "GET") && a.e["OTHER"] == "x", "run", "run %d times, method %s", a.runs, a.m.c_str());
    SEQ_CHECK(same(a, w, true), "query", "parsed as %s %s", pm(a.q).c_str(), pv(a.mq).c_str());
    SEQ_CHECK(left == (post ? "tail" : "ignored"), "read", "read beyond the content");
    seq::observe(pv(a.mq));
  }
}
struct Part { S name, fname, body; bool file; int style; };
static S part_head(const Part &p, const S &eol) {
  S cd = p.style % 3 == 1 ? "content-disposition:form-data" : "Content-Disposition: form-data"; S n = (p.style == 4 ? "NAME=\"" : p.style == 5 ? " Name =\"" : "name=\"") + p.name + "\"", f = (p.style == 4 ? "FileName=\"" : "filename=\"") + p.fname + "\"";
  if (p.style % 3 == 2) cd = S("X-Before: 1") + eol + cd;
  if (p.file) cd += (p.style & 1) ? "; " + f + "; " + n : "; " + n + ";" + f; else cd += "; " + n;
  S r = cd + eol; if (p.file || p.style == 3) r += "Content-Type: text/x" + eol;
  return r + eol;
}
static S PAD;   // white space after a boundary
static S multi(const std::vector<Part> &ps, const S &b, const S &pre, const S &post, const S &eol) { S r = pre; for (auto &p : ps) r += "--" + b + PAD + eol + part_head(p, eol) + p.body + eol; return r + "--" + b + "--" + PAD + post; }
static Want wmulti(const std::vector<Part> &ps) { Want w; for (auto &p : ps) { if (p.file) { add(w, p.name, p.fname); w.f[p.fname] = p.body; } else add(w, p.name, p.body); } return w; }
static bool legal(const std::vector<Part> &ps, const S &b) { for (auto &p : ps) if (("\n" + p.body + "\n").find("\n--" + b) != S::npos) return false; return true; }
static M menv(const S &b, size_t n) { M env; env["REQUEST_METHOD"] = "POST"; env["CONTENT_LENGTH"] = std::to_string(n); env["CONTENT_TYPE"] = "multipart/form-data; boundary=" + b; return env; }
static void mform(const std::vector<Part> &ps, const S &b, const S &pre, const S &post, const S &eol) {
  S raw = multi(ps, b, pre, post, eol); seq::begin_s("multipart " + seq::show(raw)); seq::op();
  App a; S left; S out = run(a, menv(b, raw.size()), raw + "tail", &left);
  Want w = wmulti(ps);
  SEQ_CHECK(a.runs == 1, "run", "not run: %s", seq::show(out).c_str());
  SEQ_CHECK(same(a, w, false), "multipart", "parsed as %s files %s", pv(a.mq).c_str(), pm(a.f).c_str());
  for (auto &p : ps) if (p.file) SEQ_CHECK(a.fi.count(p.fname) && a.fi[p.fname]["Content-Type"] == "text/x", "file_info", "no header for file %s", p.fname.c_str());
  for (auto &x : a.fi) SEQ_CHECK(a.f.count(x.first), "file_info", "header of a file that is not there: %s", x.first.c_str());
  SEQ_CHECK(left == "tail", "read", "read beyond the content");
  seq::observe(raw);
}
static const std::vector<S> FRAG = {"a", "-", "--", "\r", "\n", "B", "--B", "\n--", "\r\n--", "\r\n--X", "\xff", S(1, 0), "="};
static const char *BND[] = {"B", "BX", "----x7", "-", "B:b"};
static void cut(const std::vector<Part> &ps, const S &b, const S &pre, const S &post, size_t n) {
  S raw = multi(ps, b, pre, post, "\r\n"); if (n >= raw.size()) return;
  seq::begin_s("cut at " + std::to_string(n) + " " + seq::show(raw)); seq::op();
  Want w = wmulti(ps);
  for (int how = 0; how < 2; how++) {   // the content ends early / the stream does
    App a; S out; bool threw = false;
    try { out = run(a, menv(b, how ? raw.size() : n), raw.substr(0, n)); } catch (std::exception &) { threw = true; }
    if (how == 1) SEQ_CHECK(!a.runs && (threw || out.find("Status: 5") != S::npos), "short", "a request shorter than its Content-Length was processed: %s", seq::show(out).c_str());
    else SEQ_CHECK((threw && !a.runs) || (!threw && !a.runs && out.find("Status: 5") != S::npos) || (a.runs == 1 && same(a, w, false)), "cut", "a cut multipart body was processed as %s %s", pv(a.mq).c_str(), pm(a.f).c_str());
  }
}
static void reg() {
  seq::task("query", 4, 8, [](int p, int np) { std::vector<S> al = {"a", "b", "=", "&", "%41", "%26", "%3d", "+", "%00"}; seq::strings(al, 0, seq::thorough ? 6 : 5, p, np, query); });
  seq::task("query.bytes", 1, 1, [](int, int) { for (int c = 1; c < 256; c++) for (int where = 0; where < 2; where++) { if (c == '%') continue; S s = where ? S("k=x") + (char)c + "y&z=1" : S("k") + (char)c + "l=v&z=1"; query(s); char b[4]; snprintf(b, 4, "%%%02X", c); query(where ? S("k=x") + b : S("k") + b + "=v"); } });
  seq::task("multi.one", 4, 8, [](int p, int np) { seq::strings(FRAG, 0, seq::thorough ? 4 : 3, p, np, [](const S &body) { for (const char *b : BND) for (int file = 0; file < 2; file++) { std::vector<Part> ps = {{"n", "f.txt", body, (bool)file, 0}}; if (legal(ps, b)) mform(ps, b, "", "\r\n", "\r\n"); } }); });
  seq::task("multi.two", 4, 8, [](int p, int np) {
    std::vector<S> bodies; seq::strings(FRAG, 0, seq::thorough ? 2 : 1, 0, 1, [&](const S &s) { bodies.push_back(s); });
    for (size_t i = 0; i < bodies.size(); i++) for (size_t j = 0; j < bodies.size(); j++) { if ((int)((i * bodies.size() + j) % np) != p) continue; for (const char *b : {"B", "----x7"}) for (int k = 0; k < 4; k++) for (int same_name = 0; same_name < 2; same_name++) { std::vector<Part> ps = {{"n", "f1", bodies[i], (bool)(k & 1), 0}, {same_name ? "n" : "m", "f2", bodies[j], (bool)(k & 2), 1}, {"o", "", "last", false, 3}}; if (legal(ps, b)) mform(ps, b, "", "\r\n", "\r\n"); } }
  });
  seq::task("multi.shape", 2, 2, [](int p, int np) {
    seq::tuples(12, 2, p, np, [](const std::vector<int> &d) { for (const char *pre : {"", "preamble\r\n", "a\r\nb\r\n", "-\r\n"}) for (const char *post : {"", "\r\n", "\r\nepilogue", "\n--B\nx"}) for (const S &eol : {S("\r\n"), S("\n")}) for (int n = 0; n <= 2; n++) { std::vector<Part> ps; for (int i = 0; i < n; i++) ps.push_back({i ? "m" : "n", i ? "g" : "f", i ? "" : "body \xff\r\nx", (bool)(d[i] & 1), d[i] / 2}); mform(ps, "B", pre, post, eol); PAD = " \t"; mform(ps, "B", pre, post, eol); PAD = ""; } });
  });
  seq::task("multi.nested", 2, 2, [](int p, int np) {
    seq::strings(FRAG, 0, 2, p, np, [](const S &body) { std::vector<Part> chk = {{"", "", body, true, 0}}; if (!legal(chk, "XX") || !legal(chk, "YY")) return;
      S in = "--YY\r\nContent-Disposition: attachment; filename=\"f1\"\r\nContent-Type: t/p\r\n\r\n" + body + "\r\n--YY\r\nContent-Disposition: attachment; filename=\"f2\"\r\n\r\nsecond\r\n--YY--\r\n";
      S raw = "--XX\r\nContent-Disposition: form-data; name=\"n\"\r\n\r\nv\r\n--XX\r\nContent-Disposition: form-data; name=\"files\"\r\nContent-Type: multipart/mixed; boundary=YY\r\n\r\n" + in + "\r\n--XX--\r\n";
      seq::begin_s("nested " + seq::show(raw)); seq::op(); App a; run(a, menv("XX", raw.size()), raw);
      Want w; add(w, "n", "v"); w.f["f1"] = body; w.f["f2"] = "second"; SEQ_CHECK(a.runs == 1 && a.f == w.f && a.q["n"] == "v", "nested", "parsed as %s files %s", pv(a.mq).c_str(), pm(a.f).c_str()); });
  });
  // parameters of the two header fields in every form the grammar allows: quoted or not, in any order, with others around them
  seq::task("multi.params", 2, 2, [](int p, int np) {
    static const char *CT[] = {"multipart/form-data; boundary=@", "multipart/form-data; boundary=\"@\"", "multipart/form-data;boundary=@", "multipart/form-data; boundary=@; charset=utf-8", "multipart/form-data; boundary=\"@\";charset=\"x;y\"", "multipart/form-data; charset=utf-8; boundary=@", "Multipart/Form-Data; Boundary=@", "MULTIPART/FORM-DATA; BOUNDARY=\"@\"", "multipart/form-data; boundary=@ ", "multipart/form-data ; x=\"boundary=q\"; boundary=@", "multipart/mixed;\tboundary=@"};
    struct CD { const char *line, *name, *fname; };
    static const CD cds[] = {{"form-data; name=n", "n", 0}, {"form-data;name=n;filename=f.txt", "n", "f.txt"}, {"form-data; filename=f.txt; name=\"a b\"", "a b", "f.txt"}, {"form-data; name=\"a;b\"", "a;b", 0}, {"form-data; name=\"a=b\"; filename=\"c;d=e.txt\"", "a=b", "c;d=e.txt"}, {"form-data; filename=\"x; name=y\"; name=\"n\"", "n", "x; name=y"}, {"form-data; filename=\"; name=\"; name=\"n\"", "n", "; name="}, {"FORM-DATA; name=\"n\"", "n", 0}, {"form-data ; name=\"n\" ; filename=\"f\" ", "n", "f"}, {"form-data; x=1; name=\"n\"", "n", 0}, {"form-data; x=\"1\"; name=n", "n", 0}, {"form-data; name=n; x=\"1\"", "n", 0}, {"form-data; name=n; filename=\"f\"", "n", "f"}, {"form-data; name=\"n\"; filename=f", "n", "f"}, {"form-data; name=\"\"; filename=\"f\"", "", "f"}, {"form-data; name=\"\"", "", 0}, {"form-data; name= n ;filename =f", "n", "f"}};
    int k = 0; for (const char *ct : CT) for (const S &b : {S("B"), S("--x_7"), S("a'(+)b")}) for (auto &c1 : cds) for (auto &c2 : cds) {
      if (k++ % np != p) continue;
      S t; for (const char *q = ct; *q; q++) if (*q == '@') t += b; else t += *q;
      Want w; S raw; int i = 0; for (const CD *c : {&c1, &c2}) { S body = i++ ? "second" : "first"; raw += "--" + b + "\r\nContent-Disposition: " + c->line + "\r\n\r\n" + body + "\r\n"; if (c->fname) { add(w, c->name, c->fname); w.f[c->fname] = body; } else add(w, c->name, body); }
      raw += "--" + b + "--\r\n"; seq::begin_s(t + " :: " + seq::show(raw)); seq::op(); M env = menv(b, raw.size()); env["CONTENT_TYPE"] = t;
      App a; S out; try { out = run(a, env, raw); } catch (std::exception &e) { out = S("exception ") + e.what(); }
      SEQ_CHECK(a.runs == 1, "params", "not run: %s", seq::show(out).c_str());
      SEQ_CHECK(same(a, w, false), "params", "parsed as %s files %s", pv(a.mq).c_str(), pm(a.f).c_str());
    }
    for (const char *ct : CT) { if (p) break; S t; for (const char *q = ct; *q; q++) if (*q == '@') t += "Y-Y"; else t += *q;
      S raw = "--B\r\nContent-Disposition: form-data; name=\"fs\"\r\nContent-Type: " + t + "\r\n\r\n--Y-Y\r\nContent-Disposition: attachment; filename=f1\r\n\r\none\r\n--Y-Y\r\nContent-Disposition: Attachment; x=y; filename=\"f;2\"\r\n\r\ntwo\r\n--Y-Y--\r\n\r\n--B--\r\n";
      seq::begin_s("nested " + seq::show(raw)); seq::op(); App a; S out; try { out = run(a, menv("B", raw.size()), raw); } catch (std::exception &e) { out = S("exception ") + e.what(); }
      M wf; wf["f1"] = "one"; wf["f;2"] = "two"; SEQ_CHECK(a.runs == 1 && a.f == wf, "params", "nested parts give files %s %s", pm(a.f).c_str(), seq::show(out).c_str()); }
  });
  seq::task("multi.cut", 2, 4, [](int p, int np) {
    std::vector<std::vector<Part>> all = {{{"n", "f", "body\r\n--x", true, 0}, {"m", "", "va\nl", false, 1}}, {{"n", "", "", false, 0}}, {{"a", "", "1", false, 2}, {"a", "", "2", false, 0}, {"b", "f", "", true, 1}}};
    for (auto &ps : all) for (const char *b : {"B", "----x7"}) for (int n = p; n < 400; n += np) { cut(ps, b, "", "\r\n", n); cut(ps, b, "pre\r\n", "\r\nepi", n); }
  });
  seq::task("limits", 1, 1, [](int, int) {
    for (long lim : {0L, 1L, 5L, 100L}) for (long n : {0L, 1L, 4L, 5L, 6L, 99L, 100L, 101L}) for (int have = -1; have <= 1; have++) {
      S body(n, 'a'); if (have < 0 && n) body.resize(n - 1); if (have > 0) body += "Z"; if (have < 0 && !n) continue;
      seq::begin("limit %ld length %ld have %zu", lim, n, body.size()); seq::op();
      App a; a.set_max_content_length(lim); M env; env["REQUEST_METHOD"] = "POST"; env["CONTENT_LENGTH"] = std::to_string(n); S out = run(a, env, body);
      bool ok = n <= lim && have >= 0;
      SEQ_CHECK(a.runs == (ok ? 1 : 0), "limit", "run %d times", a.runs);
      SEQ_CHECK(ok == (out.find("Status: 500") == S::npos), "limit", "answered %s", seq::show(out).c_str());
      if (ok && n) SEQ_CHECK(a.q.size() == 1 && a.q.begin()->first == S(n, 'a'), "limit", "parsed as %s", pm(a.q).c_str());
    }
    for (const char *ct : {"multipart/form-data", "multipart/form-data; charset=x", "multipart/mixed; bound=B"}) { seq::begin_s(S("no boundary: ") + ct); App a; S raw = multi({{"n", "", "v", false, 0}}, "B", "", "", "\r\n"); M env = menv("", raw.size()); env["CONTENT_TYPE"] = ct; S out = run(a, env, raw); SEQ_CHECK(!a.runs && out.find("Status: 500") != S::npos, "boundary", "a multipart body without boundary was processed as %s", pv(a.mq).c_str()); }
    for (const char *l : {"2147483648", "4294967296", "4294967297", "4294967299", "18446744073709551615", "18446744073709551619"}) { seq::begin_s(S("long ") + l); App a; M env; env["REQUEST_METHOD"] = "POST"; env["CONTENT_LENGTH"] = l; S out; bool threw = false; try { out = run(a, env, "a=b"); } catch (std::exception &) { threw = true; } SEQ_CHECK(a.q.empty() && (strlen(l) == 20 || (!a.runs && (threw || out.find("Status: 5") != S::npos))), "limit", "processed as %s", pm(a.q).c_str()); }
    for (const char *l : {"", "x", "-1"}) { seq::begin_s(S("bad length ") + l); App a; M env; env["REQUEST_METHOD"] = "POST"; env["CONTENT_LENGTH"] = l; try { run(a, env, "a=b"); } catch (std::exception &) {} SEQ_CHECK(a.q.empty(), "limit", "parsed as %s", pm(a.q).c_str()); }
    for (const char *m : {"HEAD", "PUT", ""}) { seq::begin_s(S("method ") + m); App a; M env; env["REQUEST_METHOD"] = m; env["QUERY_STRING"] = "a=b"; run(a, env, ""); SEQ_CHECK(a.runs == 1 && a.m == m, "run", "not run"); }
  });
  // histories: nothing of an earlier request is seen by a later one
  seq::task("history", 2, 4, [](int p, int np) {
    struct Rq { M env; S body; Want w; bool ok; }; std::vector<Rq> rq;
    auto get = [&](const S &q) { Rq r; r.env["REQUEST_METHOD"] = "GET"; r.env["QUERY_STRING"] = q; r.w = form(q); r.ok = true; rq.push_back(r); };
    get("a=1"); get(""); get("a=2&a=3"); get("b=1&c");
    { Rq r; r.body = "p=q&a=9"; r.env["REQUEST_METHOD"] = "POST"; r.env["CONTENT_LENGTH"] = "7"; r.w = form(r.body); r.ok = true; rq.push_back(r); r.env["CONTENT_LENGTH"] = "8"; r.ok = false; rq.push_back(r); }
    { Rq r; std::vector<Part> ps = {{"n", "f", "data", true, 0}, {"m", "", "v", false, 0}}; r.body = multi(ps, "B", "", "\r\n", "\r\n"); r.env = menv("B", r.body.size()); r.w = wmulti(ps); r.ok = true; rq.push_back(r); r.body.resize(r.body.size() - 6); r.env = menv("B", r.body.size()); r.ok = false; rq.push_back(r); r.env.erase("CONTENT_TYPE"); r.env["CONTENT_TYPE"] = "multipart/x"; rq.push_back(r); }
    seq::tuples(rq.size(), seq::thorough ? 4 : 3, p, np, [&](const std::vector<int> &d) {
      S nm = "requests"; for (int i : d) nm += " " + std::to_string(i); seq::begin_s(nm); seq::op(d.size());
      App a; int k = 0;
      for (int i : d) { auto &r = rq[i]; k++; a.runs = 0; a.set.clear(); a.set.push_back({"X-Req" + std::to_string(k), "v"}); a.out = "body" + std::to_string(k); S out; bool threw = false; try { out = run(a, r.env, r.body); } catch (std::exception &) { threw = true; }
        if (!r.ok) { SEQ_CHECK(!a.runs, "history", "request %d was processed", k); continue; }
        for (auto &x : a.fi) SEQ_CHECK(a.f.count(x.first), "history", "request %d sees the header of an earlier file", k);
        SEQ_CHECK(a.runs == 1 && !threw && same(a, r.w, false) && !a.dirty, "history", "request %d was seen as %s files %s%s", k, pv(a.mq).c_str(), pm(a.f).c_str(), a.dirty ? " with fields left in the header" : "");
        for (int j = 1; j < k; j++) SEQ_CHECK(out.find("X-Req" + std::to_string(j)) == S::npos && out.find("body" + std::to_string(j)) == S::npos, "history", "the response to request %d contains parts of an earlier one: %s", k, seq::show(out).c_str()); }
    });
  });
  seq::task("response", 1, 1, [](int, int) {
    seq::tuples(6, 3, 0, 1, [](const std::vector<int> &d) {
      static const char *F[][2] = {{"X-Empty", ""}, {"Content-Type", "text/html"}, {"content-type", "x/y"}, {"X-A", "1 2"}, {"Status", "404 Not Found"}, {"Location", "http://x/"}};
      App a; std::map<S, S> want; want["content-type"] = "text/plain; charset=utf-8"; for (int i : d) { a.set.push_back({F[i][0], F[i][1]}); S k = F[i][0]; for (auto &c : k) c = tolower(c); want[k] = F[i][1]; }
      a.out = S("line\n\nmore\0\xff", 12); S nm = "response"; for (int i : d) nm += std::to_string(i); seq::begin_s(nm); seq::op();
      M env; env["REQUEST_METHOD"] = "GET"; S out = run(a, env, ""); size_t p = 0; std::map<S, S> have; bool dup = false;
      for (;;) { size_t q = out.find('\n', p); SEQ_CHECK(q != S::npos, "response", "no end of header: %s", seq::show(out).c_str()); S l = out.substr(p, q - p); p = q + 1; if (!l.empty() && l.back() == '\r') l.pop_back(); if (l.empty()) break; size_t c = l.find(':'); SEQ_CHECK(c != S::npos, "response", "bad line %s", l.c_str()); S k = l.substr(0, c); for (auto &x : k) x = tolower(x); size_t v = c + 1; while (v < l.size() && l[v] == ' ') v++; if (have.count(k)) dup = true; have[k] = l.substr(v); }
      SEQ_CHECK(have == want && !dup && out.substr(p) == a.out, "response", "written as %s", seq::show(out).c_str());
    });
  });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
