// C32: IPv4 addresses: printing, reading, comparing
#include "../mc/seq.h"
#include <network/ipv4.h>
#include <set>
typedef std::string S; typedef pfi::network::ipv4_address A;
static S tos(long v) { char b[24]; snprintf(b, sizeof b, "%ld", v); return b; }
static S txt(int a, int b, int c, int d) { return tos(a) + "." + tos(b) + "." + tos(c) + "." + tos(d); }
static void addr(int a, int b, int c, int d) {
  S w = txt(a, b, c, d); seq::begin_s(w); seq::op(3); A x(a, b, c, d); SEQ_CHECK(x.to_string() == w, "print", "printed as %s", x.to_string().c_str()); A y(w); SEQ_CHECK(y == x && !(y != x) && y.to_string() == w, "read", "read back as %s", y.to_string().c_str()); SEQ_CHECK(!(x < y) && !(y < x), "order", "differs from itself"); A z; SEQ_CHECK(z.to_string() == "0.0.0.0", "default", "the default address is %s", z.to_string().c_str()); seq::observe(w);
  SEQ_CHECK((x == A::none) == (w == "255.255.255.255"), "none", "compares equal to none");
}
static void bad(const S &s) { seq::begin_s(seq::show(s)); seq::op(); A x(s); SEQ_CHECK(x == A::none, "invalid", "accepted as %s", x.to_string().c_str()); seq::nontrivial(); }
static const int B[] = {0, 1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 129, 199, 200, 249, 250, 254, 255};
static void reg() {
  seq::task("octets", 4, 8, [](int p, int np) { int n = 0; for (int pos = 0; pos < 4; pos++) for (int v = 0; v < 256; v++) { if (n++ % np != p) continue; for (int o : {0, 1, 77, 128, 255}) for (int q : {0, 9, 10, 255}) { int x[4] = {o, q, o, q}; x[pos] = v; addr(x[0], x[1], x[2], x[3]); } } });
  seq::task("boundaries", 4, 8, [](int p, int np) { int n = 0; for (int a : B) for (int b : B) { if (n++ % np != p) continue; for (int c : B) for (int d : B) addr(a, b, c, d); } });
  seq::task("order", 2, 4, [](int p, int np) { std::vector<std::vector<int> > v; static const int D[] = {0, 1, 127, 128, 255}; seq::tuples(5, 4, 0, 1, [&](const std::vector<int> &ix) { std::vector<int> x; for (int i : ix) x.push_back(D[i]); v.push_back(x); }); int n = 0; for (auto &a : v) { if (n++ % np != p) continue; for (auto &b : v) { seq::begin_s(txt(a[0], a[1], a[2], a[3]) + " and " + txt(b[0], b[1], b[2], b[3])); seq::op(); A x(a[0], a[1], a[2], a[3]), y(b[0], b[1], b[2], b[3]); SEQ_CHECK((x == y) == (a == b) && (x != y) == (a != b), "equal", "== is %d", x == y); SEQ_CHECK((x < y) == (a < b), "order", "< is %d", x < y); } } });
  seq::task("range", 2, 4, [](int p, int np) { std::vector<S> big = {"256", "257", "300", "511", "512", "999", "1000", "65536", "65537", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967551", "8589934593", "1099511627777", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103233", "340282366920938463463374607431768211457", "-1", "-255", "-256", "-4294967295"}; int n = 0; for (int pos = 0; pos < 4; pos++) for (auto &b : big) { if (n++ % np != p) continue; for (int o : {0, 1, 127, 255}) { S x[4]; for (int i = 0; i < 4; i++) x[i] = i == pos ? b : tos(o); bad(x[0] + "." + x[1] + "." + x[2] + "." + x[3]); } } });
  seq::task("malformed", 3, 8, [](int p, int np) { bool t = seq::thorough;
    // anything but four numbers is not an address
    if (p == 0) for (int a : B) for (int d : B) { S ok = txt(a, 2, 3, d); for (int c = 1; c < 256; c++) if (!isdigit(c)) { bad(ok + (char)c); bad(ok + (char)c + "1"); } bad(ok + "%eth0"); }
    seq::strings({"0", "1", "25", "255", ".", "a", ":"}, 0, t ? 8 : 7, p, np, [](const S &s) { std::vector<S> parts(1); for (char c : s) if (c == '.') parts.push_back(""); else parts.back() += c; bool lead = true; for (size_t i = 0; i < 4; i++) if (i >= parts.size() || parts[i].empty() || !isdigit((unsigned char)parts[i][0])) lead = false; for (auto &q : parts) { for (char c : q) if (!isdigit((unsigned char)c)) lead = false; if (q.size() > 9 || atol(q.c_str()) > 255) lead = false; } if (parts.size() != 4 || !lead) bad(s); }); });
  seq::task("named", 1, 1, [](int, int) { seq::begin("named addresses"); seq::op(4); SEQ_CHECK(A::any.to_string() == "0.0.0.0" && A::broadcast.to_string() == "255.255.255.255" && A::loopback.to_string() == "127.0.0.1" && A::none.to_string() == "255.255.255.255", "named", "a named address is wrong"); SEQ_CHECK(A::any == A(0, 0, 0, 0) && A::loopback == A("127.0.0.1"), "named", "a named address is wrong"); });
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
