// C31: configuration files: sections, keys, values, comments and error positions, on every small text
#include "../mc/seq.h"
#include <data/config_file.h>
#include <lang/exception.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
using pfi::data::config_file;
typedef std::string S; typedef std::map<S, std::map<S, S> > M;
static S tos(long v) { char b[24]; snprintf(b, sizeof b, "%ld", v); return b; }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static S trim(const S &s) { size_t b = 0, e = s.size(); while (b < e && sp(s[b])) b++; while (e > b && sp(s[e - 1])) e--; return s.substr(b, e - b); }
struct Err { int line, pos; };
// reference: what the text denotes
static bool parse(const S &t, M &m, Err &e) {
  S cur; int ln = 0; size_t i = 0;
  while (i < t.size()) {
    size_t n = t.find('\n', i); S line = t.substr(i, n == S::npos ? S::npos : n - i); i = n == S::npos ? t.size() : n + 1; ln++;
    size_t b = 0; while (b < line.size() && sp(line[b])) b++;
    if (b == line.size() || line[b] == ';') continue;
    if (line[b] == '[') { size_t q = line.find(']', b); if (q == S::npos) { e.line = ln; e.pos = line.size(); return false; } cur = line.substr(b + 1, q - b - 1); for (q++; q < line.size() && sp(line[q]); q++); if (q < line.size()) { e.line = ln; e.pos = q; return false; } m[cur]; continue; }
    size_t q = line.find('='); if (q == S::npos) { e.line = ln; e.pos = line.size(); return false; }
    S v = trim(line.substr(q + 1)); if (v.size() >= 2 && v[0] == '"' && v[v.size() - 1] == '"') v = v.substr(1, v.size() - 2);
    m[cur][trim(line.substr(b, q - b))] = v;
  }
  return true;
}
static M dump(const config_file &c) { M m; for (config_file::const_iterator i = c.begin(); i != c.end(); ++i) { m[i->first]; for (config_file::section::const_iterator j = i->second.begin(); j != i->second.end(); ++j) m[i->first][j->first] = j->second; } return m; }
static S show(const M &m) { S r; for (auto &s : m) { r += "[" + s.first + "]"; for (auto &k : s.second) r += "{" + k.first + "=" + k.second + "}"; } return seq::show(r); }
static S path;
static void one(const S &t, bool file) {
  seq::begin_s(seq::show(t) + (file ? " (file)" : "")); seq::op();
  M w; Err e = {0, 0}; bool ok = parse(t, w, e);
  if (file) { std::ofstream f(path.c_str(), std::ios::binary); f << t; }
  try {
    std::istringstream is(t); config_file c = file ? config_file(path) : config_file(is);
    SEQ_CHECK(ok, "accepted", "accepted although line %d is wrong: %s", e.line, show(dump(c)).c_str());
    M g = dump(c); SEQ_CHECK(g == w, "content", "read as %s instead of %s", show(g).c_str(), show(w).c_str());
    const config_file &k = c;   // lookups
    for (auto &s : w) { SEQ_CHECK(k.find(s.first) != k.end() && c.find(s.first) != c.end(), "find", "section %s not found", s.first.c_str()); for (auto &v : s.second) { SEQ_CHECK(k[s.first][v.first] == v.second && c[s.first][v.first] == v.second, "lookup", "%s in %s is %s", v.first.c_str(), s.first.c_str(), k[s.first][v.first].c_str()); SEQ_CHECK(k[s.first].find(v.first)->second == v.second && c[s.first].find(v.first)->second == v.second, "find", "key %s not found", v.first.c_str()); } SEQ_CHECK(k[s.first]["no such key"].empty() && k[s.first].find("no such key") == k[s.first].end(), "absent", "an absent key has a value"); }
    SEQ_CHECK(k["no such section"]["x"].empty() && k.find("no such section") == k.end() && k["no such section"].begin() == k["no such section"].end(), "absent", "an absent section has a value");
    SEQ_CHECK(dump(c) == w, "lookup-changes", "looking things up changed the contents"); 
    c["new"]["k"] = "v"; w["new"]["k"] = "v"; SEQ_CHECK(dump(c) == w, "assign", "assignment"); seq::observe(show(g)); if (g.size() > 1) seq::nontrivial();
  } catch (const pfi::lang::parse_error &x) {
    SEQ_CHECK(!ok, "refused", "refused: %s", x.what());
    SEQ_CHECK(x.lineno() == e.line && x.pos() == e.pos, "position", "error reported at line %d, position %d instead of line %d, position %d", x.lineno(), x.pos(), e.line, e.pos);
    SEQ_CHECK(x.filename() == (file ? path : S()), "filename", "the error names file %s", x.filename().c_str()); seq::observe(x.what() + (file ? path.size() : 0));
  }
}
static void reg() {
  bool t = seq::thorough; { const char *d = getenv("TMPDIR"); path = S(d ? d : "/tmp") + "/c31-" + tos(getpid()) + "-"; }
  seq::task("texts", 8, 16, [=](int p, int np) { seq::strings(seq::chars("[]=;\"a \n"), 0, t ? 7 : 6, p, np, [](const S &s) { one(s, false); }); });
  seq::task("spaces", 2, 8, [=](int p, int np) { seq::strings({"[", "]", "=", "\t", "\r", "\n", "k", "\xe3\x81\x82", "\v", "\f"}, 0, t ? 6 : 5, p, np, [](const S &s) { one(s, false); }); });
  seq::task("lines", 3, 8, [=](int p, int np) { std::vector<S> l; const char *L[] = {"[s]", " [s] ", "[t] ", "[]", "[s", "[s]x", "[ s ]", "a=1", " a = 2 ", "a=\"q \"", "b=\"\"", "b=\"", "c==d", "=v", "k=", "; comment", "  ;x=[", "noequals", "", "   ", "u=[x]", "x;y=1", "d=a;b", "e=\" \"\" \"", "[s][t]", "\xff=\xfe"}; for (const char *x : L) { l.push_back(S(x) + "\n"); } seq::strings(l, 1, t ? 4 : 3, p, np, [](const S &s) { one(s, false); if (s.size() > 1) one(s.substr(0, s.size() - 1), false); }); });
  seq::task("every byte", 1, 1, [=](int, int) { for (int b = 1; b < 256; b++) if (b != '\n') { S c(1, (char)b); for (const S &l : {c, c + "x", c + "x=1", "x" + c + "=1", "x=" + c + "1", "x=1" + c, "x=1" + c + "2", "x=\"" + c + "\"", "[s" + c + "]", "[" + c + "s]", "[s]" + c, c + "[s]", c + c + "y=2", "=" + c}) { one(l, false); one("[t]\n" + l + "\nz=9\n", false); } } });
  seq::task("files", 1, 1, [=](int, int) { path += tos(getpid()); std::vector<S> l; const char *L[] = {"[s]", "[s", "a=1", "b=\"x y\"", "noequals", ";c", "[t]z"}; for (const char *x : L) l.push_back(S(x) + "\n"); seq::strings(l, 0, 3, 0, 1, [](const S &s) { one(s, true); }); unlink(path.c_str()); });
  seq::task("long", 1, 1, [=](int, int) { for (int n : {127, 128, 255, 256, 1000, 1023, 1024, 4095, 4096, 70000}) { one("[" + S(n, 's') + "]\n" + S(n, 'k') + "=" + S(n, 'v') + "\n", false); one(S(n, '\n') + "bad\n", false); one(S(n, ' ') + "k" + S(n, ' ') + "=" + S(n, ' ') + "v" + S(n, ' '), false); S many; for (int i = 0; i < n; i++) many += "k" + tos(i) + "=" + tos(i * 7) + "\n"; one(many, false); } });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
