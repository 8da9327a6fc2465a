// C08: cached DNS resolver = lookup + bounded, expiring LRU cache
#include "conc.h"
#include "../mc/net.h"
#include <map>
#include <network/dns.h>
using namespace pfi::network;
typedef std::pair<std::string, int> Key;
static int g_gen; static std::vector<double> *g_when; static std::vector<std::string> *g_host;
static void setup() {
  mc::quiet(true);
  g_gen = 0; g_when = new std::vector<double>; g_host = new std::vector<std::string>;
  mc::net_dns = [](const std::string &h) {
    std::vector<uint32_t> r; int g = g_gen++;
    g_when->push_back(mc::now()); g_host->push_back(h);
    r.push_back(0x0a000000u + g);
    if (h == "b") r.push_back(0x0b000000u + g);  // a name with two addresses
    return r;
  };
  mc::quiet(false);
}
// which lookup produced this answer (-1: none)
static int lookup_of(const std::vector<ipv4_address> &v, const std::string &h) {
  if (v.empty()) return -1;
  unsigned a, b, c, d; if (sscanf(v[0].to_string().c_str(), "%u.%u.%u.%u", &a, &b, &c, &d) != 4 || a != 10) return -1;
  int g = b * 65536 + c * 256 + d;
  if (g < 0 || g >= (int)g_host->size() || (*g_host)[g] != h) return -1;
  if (v.size() != (h == "b" ? 2u : 1u)) return -1;
  if (h == "b") { char e[40]; snprintf(e, sizeof e, "11.%u.%u.%u", b, c, d); if (v[1].to_string() != e) return -1; }
  return g;
}
struct Model {  // bounded, expiring LRU cache
  int max, exp; std::map<Key, std::pair<double, std::pair<double, int> > > m;  // key -> (last access, (resolved, lookup))
  bool hit(const Key &k, double t, int *g) {
    auto i = m.find(k); if (i == m.end()) return false;
    if (t - i->second.second.first < exp) { i->second.first = t; *g = i->second.second.second; return true; }
    m.erase(i); return false;
  }
  void store(const Key &k, double t, int g) {
    while ((int)m.size() >= max && !m.empty()) { auto o = m.begin(); for (auto i = m.begin(); i != m.end(); ++i) if (i->second.first < o->second.first) o = i; m.erase(o); }
    if (max > 0) m[k] = {t, {t, g}};
  }
};
static void sequential(int max, int exp, int len, int first) {
  setup();
  cached_dns_resolver *r = new cached_dns_resolver(max, exp);
  static const Key keys[] = {{"a", 1}, {"b", 1}, {"c", 1}, {"a", 2}};
  Model md; md.max = max; md.exp = exp;
  std::string tr;
  for (int i = 0; i < len; i++) {
    int o = i == 0 ? first : mc::choose(9);
    mc::advance(1);
    double t = mc::now(); char b[40];
    if (o < 4) {
      Key k = keys[o]; int n0 = g_gen;
      std::vector<ipv4_address> v = r->resolve(k.first, k.second);
      mc::quiet(true);
      snprintf(b, sizeof b, "%g:resolve(%s,%d) ", t, k.first.c_str(), k.second); tr += b;
      int g = lookup_of(v, k.first), want;
      if (md.hit(k, t, &want)) {
        MC_REQUIRE(g_gen == n0, "a cached name was looked up again (max %d, expire %d): %s", max, exp, tr.c_str());
        MC_REQUIRE(g == want, "wrong cached addresses: %s", tr.c_str());
      } else {
        MC_REQUIRE(g_gen == n0 + 1, "%d lookups instead of one: the entry should not have been kept (max %d, expire %d): %s", g_gen - n0, max, exp, tr.c_str());
        MC_REQUIRE(g == n0, "not the addresses just looked up: %s", tr.c_str());
        md.store(k, t, g);
      }
      mc::quiet(false);
    } else if (o == 4) { r->clear_cache(); mc::quiet(true); md.m.clear(); tr += "clear "; mc::quiet(false); }
    else if (o < 7) { r->delete_cache(keys[o - 5].first, keys[o - 5].second); mc::quiet(true); md.m.erase(keys[o - 5]); tr += "delete "; mc::quiet(false); }
    else { mc::advance(o == 7 ? exp - 2 : exp); tr += "wait "; }
  }
  delete r;
  mc::quiet(true); mc::outcome(std::to_string(g_gen)); delete g_when; delete g_host; mc::quiet(false);
}
// many names and ports do not get into each other's way
static void many(bool ports) {
  setup();
  std::vector<Key> ks;
  if (ports) for (int p = 0; p < 65536; p += p < 20 || p > 65520 ? 1 : 1277) ks.push_back({"a", p});
  if (ports) for (int b = 8; b < 16; b++) for (int d = 0; d < 3; d++) ks.push_back({"c", (1 << b) + d});
  if (ports) for (int d = 0; d < 3; d++) ks.push_back({"c", d});
  if (!ports) for (int n : {1, 2, 3, 15, 16, 17, 63, 64, 255}) for (char l : {'a', 'A', 'c', '.', '-'}) for (char f : {'x', 'X'}) ks.push_back({f + std::string(n - 1, 'q') + l, 1});
  cached_dns_resolver *r = new cached_dns_resolver(1 << 20, 100);
  for (int round = 0; round < 2; round++) {
    int n0 = g_gen;
    for (size_t i = 0; i < ks.size(); i++) {
      int g = lookup_of(r->resolve(ks[i].first, ks[i].second), ks[i].first);
      MC_REQUIRE(g == (int)i, "%s port %d: %s (lookup %d)", ks[i].first.c_str(), ks[i].second, g < 0 ? "not the addresses of that name" : round ? "a cached name was looked up again" : "answered from the entry of another name or port", g);
    }
    MC_REQUIRE(g_gen == (round ? n0 : (int)ks.size()), "%d lookups", g_gen - n0);
  }
  delete r;
  mc::quiet(true); mc::outcome(std::to_string(g_gen)); delete g_when; delete g_host; mc::quiet(false);
}
// concurrent use
struct Cop { int kind; std::string h; int port; };
static void concurrent(int max, const std::vector<std::vector<int> > &prog, bool slow) {
  setup();
  if (slow) mc::net.dns_time = 1;
  int exp = 5;
  cached_dns_resolver *r = new cached_dns_resolver(max, exp);
  static const Key keys[] = {{"a", 1}, {"b", 1}, {"c", 1}, {"a", 2}};
  for (size_t t = 0; t < prog.size(); t++) {
    std::vector<int> p = prog[t];
    mc::go([=]() {
      for (int o : p) {
        if (o < 4) {
          double t0 = mc::now();
          std::vector<ipv4_address> v = r->resolve(keys[o].first, keys[o].second);
          mc::quiet(true);
          int g = lookup_of(v, keys[o].first);
          MC_REQUIRE(g >= 0, "resolve(%s) returned something else than the addresses of that name", keys[o].first.c_str());
          MC_REQUIRE(t0 - (*g_when)[g] < exp + 1.5, "expired entry returned");
          mc::quiet(false);
        } else if (o == 4) r->clear_cache();
        else if (o == 5) r->delete_cache("a", 1);
        else mc::advance(exp);
      }
    });
  }
  mc::join_all();
  // afterwards the cache is bounded and still works
  mc::net.dns_time = 0;
  int hits = 0;
  for (int k = 0; k < 4; k++) {
    int n0 = g_gen;
    int g = lookup_of(r->resolve(keys[k].first, keys[k].second), keys[k].first);
    MC_REQUIRE(g >= 0, "wrong addresses after concurrent use");
    if (g_gen != n0) break;
    hits++;
  }
  MC_REQUIRE(hits <= max, "%d entries are kept, at most %d allowed", hits, max);
  mc::advance(exp + 1);
  for (int k = 0; k < 4; k++) {
    int n0 = g_gen;
    r->resolve(keys[k].first, keys[k].second);
    MC_REQUIRE(g_gen == n0 + 1, "an entry outlived its expiration");
    mc::advance(1);
    r->resolve(keys[k].first, keys[k].second);
    MC_REQUIRE(g_gen == n0 + 1 || max == 0, "the most recent entry was not kept");
  }
  delete r;
  mc::quiet(true); delete g_when; delete g_host; mc::quiet(false);
}
static void reg() {
  mc::add("many.ports", O(0), O(0), []() { many(true); });
  mc::add("many.names", O(0), O(0), []() { many(false); });
  for (int max = 0; max <= 3; max++)
    for (int exp = 3; exp <= 6; exp += 3)
      for (int f = 0; f < 9; f++)
        mc::add("seq.max" + std::to_string(max) + ".exp" + std::to_string(exp) + ".first" + std::to_string(f), O(0), O(0), [=]() {
          sequential(max, exp, mc::active() ? 5 : 5, f);
        });
  for (int max = 1; max <= 3; max++)
    for (int f = 0; f < 9; f++)
      mc::add("seqdeep.max" + std::to_string(max) + ".first" + std::to_string(f), O(0), O(0), [=]() { sequential(max, 4, 7, f); }, true);
  static const int A = 0, B = 1, C = 2, A2 = 3, CL = 4, DA = 5, ADV = 6;
  struct P { const char *n; std::vector<std::vector<int> > p; };
  static const P ps[] = {
      {"same", {{A}, {A}}}, {"same3", {{A}, {A}, {A}}}, {"same_then", {{A, B}, {A, C}}}, {"differ", {{A, A}, {B, B}}},
      {"clear", {{A, A}, {CL}, {A}}}, {"delete", {{A, A}, {DA}, {A}}}, {"delete2", {{A, DA}, {A, DA}}}, {"three", {{A}, {B}, {C}}},
      {"ports", {{A, A2}, {A2, A}}}, {"expire", {{A, ADV, A}, {A, B}}}, {"mixed", {{A, B, A}, {B, A, B}}}};
  for (auto &p : ps)
    for (int max = 1; max <= 2; max++)
      for (int slow = 0; slow < 2; slow++) {
        bool big = p.p.size() > 2 || p.p[0].size() > 2;
        mc::add(std::string("conc.") + p.n + ".max" + std::to_string(max) + (slow ? ".slow" : ""), O(big ? 1 : 2, 1), O(big ? 2 : 3, 2), [=]() { concurrent(max, p.p, slow); });
      }
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
