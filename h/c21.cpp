// C21: sparse matrix files: every row reads back as written, transposition is exact whatever the memory limit
#include "../mc/seq.h"
#include <data/sparse_matrix/sparse_matrix.h>
#include <system/sysstat.h>
#include <unistd.h>
#include <sys/stat.h>
#include <algorithm>
typedef std::string S;
typedef std::vector<std::pair<int, unsigned char>> Row;
typedef std::vector<Row> Mat;
using namespace pfi::data::sparse_matrix;
static uint64_t g_free = 1ull << 30;
namespace pfi { namespace system { namespace sysstat { int get_sysstat(sysstat_ret &r) { memset(&r, 0, sizeof r); r.free_memory = g_free; r.total_memory = 1ull << 32; return 0; } } } }
static S dir() { static S d; if (d.empty()) { const char *t = getenv("TMPDIR"); d = (t ? S(t) : S("/tmp")) + "/c21." + std::to_string(getpid()); mkdir(d.c_str(), 0700); } return d; }
static void clean() { for (const char *f : {"/a", "/a.offset", "/b", "/b.offset", "/c", "/c.offset"}) unlink((dir() + f).c_str()); rmdir(dir().c_str()); }
static S str(const Mat &m) { S r; for (auto &x : m) { r += "["; for (auto &e : x) r += std::to_string(e.first) + ":" + std::to_string(e.second) + " "; r += "]"; } return r; }
static Mat readall(const S &fn, int how, bool &ok) {
  Mat m; sparse_matrix_reader r; ok = r.open(fn) == 0; if (!ok) return m; int n = r.row_num(); m.resize(n);
  for (int j = 0; j < n; j++) {
    int i = how & 1 ? n - 1 - j : j;   // any order of access
    if (how < 2) { m[i] = Row(3, {99, 99}); r.get_row(i, m[i]); }
    else if (how < 4) { std::map<int, unsigned char> t; r.get_row(i, t); m[i].assign(t.begin(), t.end()); }
    else { pfi::data::unordered_map<int, unsigned char> t; r.get_row(i, t); m[i].assign(t.begin(), t.end()); std::sort(m[i].begin(), m[i].end()); }
    if (r.get_row_size(i) != (int)m[i].size() || r.get_row_nonzero_value_num(i) != (int)m[i].size()) ok = false;
  }
  Row none(1, {7, 7}); r.get_row(n, none); if (r.get_row_size(n) > 0) ok = false;
  r.close(); if (r.row_num() != 0) ok = false;
  return m;
}
static void write(const S &fn, const Mat &m, int how, bool &ok) {
  sparse_matrix_writer w; ok = w.open(fn) == 0;
  for (auto &x : m) { if (how) { std::map<int, unsigned char> t(x.begin(), x.end()); w.append_row(t); } else w.append_row(x); }
  if (w.row_num() != (int)m.size()) ok = false; w.close();
}
static Mat trans(const Mat &m) { Mat t; for (size_t i = 0; i < m.size(); i++) for (auto &e : m[i]) { if (e.first >= (int)t.size()) t.resize(e.first + 1); t[e.first].push_back({(int)i, e.second}); } return t; }
static void one(const Mat &m, int limits) {
  seq::begin_s(str(m)); S a = dir() + "/a", b = dir() + "/b", c = dir() + "/c"; bool ok;
  for (int how = 0; how < 2; how++) { write(a, m, how, ok); SEQ_CHECK(ok, "write", "writing failed"); if (how == 0) for (int rh = 0; rh < 6; rh++) { seq::op(); Mat g = readall(a, rh, ok); SEQ_CHECK(ok && g == m, "read", "(%d) read back as %s", rh, str(g).c_str()); } else { Mat g = readall(a, 0, ok); SEQ_CHECK(ok && g == m, "read", "written as maps, read back as %s", str(g).c_str()); } }
  for (int l = 0; l < limits; l++) {
    g_free = l == 0 ? 1ull << 30 : 20ull * l; seq::op();
    SEQ_CHECK(matrix_transpose(a, b) == 0, "transpose", "transposing failed"); Mat g = readall(b, 0, ok), w = trans(m); while (!g.empty() && g.back().empty()) g.pop_back();
    SEQ_CHECK(ok && g == w, "transpose", "transposed (pieces of %d) as %s, expected %s", l, str(g).c_str(), str(w).c_str());
    SEQ_CHECK(matrix_transpose(b, c) == 0, "transpose", "transposing back failed"); g = readall(c, 0, ok); w = m; while (!g.empty() && g.back().empty()) g.pop_back(); while (!w.empty() && w.back().empty()) w.pop_back();
    SEQ_CHECK(ok && g == w, "transpose", "transposed twice (pieces of %d) as %s", l, str(g).c_str());
  }
  seq::observe(str(m)); if (m.size() > 1) seq::nontrivial();
}
static std::vector<Row> rows(const std::vector<int> &cols, const std::vector<int> &vals, int maxn) {
  std::vector<Row> r; int nc = cols.size();
  for (int mask = 0; mask < 1 << nc; mask++) { if (__builtin_popcount(mask) > maxn) continue; std::vector<Row> cur(1); for (int i = 0; i < nc; i++) if (mask >> i & 1) { std::vector<Row> nx; for (auto &x : cur) for (int v : vals) { Row y = x; y.push_back({cols[i], (unsigned char)v}); nx.push_back(y); } cur = nx; } r.insert(r.end(), cur.begin(), cur.end()); }
  return r;
}
static void reg() {
  stderr = fopen("/dev/null", "w");
  seq::task("small", 4, 8, [](int p, int np) { auto r = rows({0, 1, 2}, {0, 1, 255}, 3); int n = r.size(); for (int len = 0; len <= 2; len++) seq::tuples(n, len, p, np, [&](const std::vector<int> &d) { Mat m; for (int i : d) m.push_back(r[i]); one(m, 4); }); clean(); });
  seq::task("three", 8, 8, [](int p, int np) { auto r = rows({0, 1, 3}, seq::thorough ? std::vector<int>{0, 128} : std::vector<int>{200}, 3); seq::tuples(r.size(), 3, p, np, [&](const std::vector<int> &d) { Mat m; for (int i : d) m.push_back(r[i]); one(m, 6); }); clean(); });
  seq::task("gaps", 4, 8, [](int p, int np) { auto r = rows({0, 126, 127, 128, 254, 255, 16382, 16383, 16384, 20000}, {129}, seq::thorough ? 3 : 2); for (size_t i = p; i < r.size(); i += np) { Mat m = {r[i], {}, r[(i * 7 + 3) % r.size()]}; one(m, 2); } clean(); });
  seq::task("wide", 2, 4, [](int p, int np) {   // columns beyond what can be transposed in memory
    std::vector<int> cols = {0, (1 << 21) - 2, (1 << 21) - 1, 1 << 21, (1 << 28) - 1, 1 << 28, 0x7ffffffe, 0x7fffffff}; auto r = rows(cols, {1, 254}, 2); for (size_t i = p; i < r.size(); i += np) { Mat m = {r[i], r[(i * 3 + 1) % r.size()], {}}; one(m, 0); } clean(); });
  seq::task("large", 1, 1, [](int, int) {   // rows of many bytes, many rows
    for (int n : {127, 128, 5000, 21845, 21846, 40000}) { Mat m(3); for (int i = 0; i < n; i++) m[0].push_back({i * 131, (unsigned char)i}); m[1].push_back({5, 1}); m[2] = m[0]; seq::begin("row of %d entries", n); bool ok; S a = dir() + "/a"; write(a, m, 0, ok); SEQ_CHECK(ok, "write", "writing failed"); for (int rh = 0; rh < 6; rh++) { seq::op(); Mat g = readall(a, rh, ok); SEQ_CHECK(ok && g == m, "read", "(%d) large rows differ", rh); } }
    for (int n : {255, 256, 257, 70000}) { Mat m(n); for (int i = 0; i < n; i++) for (int k = 0; k < i % 3; k++) m[i].push_back({(i * 7 + k * 3) % 97 + 100 * k, (unsigned char)(i + k)}); seq::begin("%d rows", n); bool ok; S a = dir() + "/a", b = dir() + "/b"; write(a, m, 1, ok); SEQ_CHECK(ok, "write", "writing failed"); Mat g = readall(a, 1, ok); SEQ_CHECK(ok && g == m, "read", "many rows differ"); for (int l : {0, 1, 1000}) { g_free = l ? 20ull * l : 1 << 30; seq::op(); SEQ_CHECK(matrix_transpose(a, b) == 0, "transpose", "failed"); g = readall(b, 0, ok); SEQ_CHECK(ok && g == trans(m), "transpose", "transposition of many rows differs"); } }
    clean(); });
  seq::task("reopen", 1, 1, [](int, int) {   // one reader / writer object used for several files
    auto r = rows({0, 1, 130}, {3}, 2); S a = dir() + "/a", b = dir() + "/b";
    for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r.size(); j++) { seq::begin("reopen %zu %zu", i, j); seq::op(); sparse_matrix_writer w; SEQ_CHECK(w.open(a) == 0, "reopen", "open"); w.append_row(r[i]); w.append_row(r[j]); SEQ_CHECK(w.open(b) == 0, "reopen", "open"); w.append_row(r[j]); w.close(); w.append_row(r[i]);
      sparse_matrix_reader rd; Row x; SEQ_CHECK(rd.open(a) == 0 && rd.row_num() == 2, "reopen", "first file has %d rows", rd.row_num()); rd.get_row(1, x); SEQ_CHECK(x == r[j], "reopen", "wrong row in the first file"); SEQ_CHECK(rd.open(b) == 0 && rd.row_num() == 1, "reopen", "second file has %d rows", rd.row_num()); rd.get_row(0, x); SEQ_CHECK(x == r[j], "reopen", "wrong row in the second file"); SEQ_CHECK(rd.open(dir() + "/none") < 0, "reopen", "a missing file was opened"); }
    clean(); });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
