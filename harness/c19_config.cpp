#include "h.hpp"
#include "scl/net/config.h"
#include <fstream>
#include <algorithm>
using namespace h;
using scl::NetworkConfig; using scl::Party;
static std::string tmpf() { char b[] = "/tmp/vh_cfg_XXXXXX"; int f = mkstemp(b); close(f); return b; }
void run() {
  Rng r(seed * 73); std::string f = tmpf();
  auto wr = [&](const std::string& s) { std::ofstream o(f, std::ios::trunc); o << s; };
  auto host = [&] { std::string s; static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789.-:"; size_t n = 1 + r.below(20); for (size_t i = 0; i < n; i++) s += al[r.below(sizeof al - 1)]; return s; };
  SECTION("load") for (size_t n = 1; n < (thorough ? 40u : 14u); n++) for (int it = 0; it < 4; it++) { std::vector<Party> ps; for (size_t i = 0; i < n; i++) ps.push_back({(unsigned)i, host(), (int)r.below(65536)}); std::vector<size_t> ord(n); for (size_t i = 0; i < n; i++) ord[i] = i; if (it) for (size_t i = n; i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]); std::string s; for (auto o : ord) s += std::to_string(ps[o].id) + "," + ps[o].hostname + "," + std::to_string(ps[o].port) + "\n"; if (it == 3) s.pop_back(); wr(s); unsigned me = r.below(n); casef("file with %zu entries: %.300s", n, s.c_str()); auto c = NetworkConfig::Load(me, f); CHECK(c.Id() == me && c.NetworkSize() == n, "id or size"); auto all = c.Parties(); CHECK(all.size() == n, "Parties()"); for (size_t i = 0; i < n; i++) { auto p = c.GetParty(i); CHECK(p.id == i && p.hostname == ps[i].hostname && p.port == ps[i].port, "GetParty(%zu) is party %u", i, p.id); CHECK(all[i].id == ord[i] && all[i].hostname == ps[ord[i]].hostname && all[i].port == ps[ord[i]].port, "Parties()[%zu]", i); } CHECK(throws_as<std::invalid_argument>([&] { (void)NetworkConfig::Load(n, f); }), "own id outside the network accepted"); }
  SECTION("malformed") for (const char* s : {"nocommas\n", "0,127.0.0.1\n", "0;1.2.3.4;55\n", "0,h,80\n1,g\n", ",\n", "0,a,1\n\n", "5\n"}) { casef("file: %s", s); wr(s); CHECK(throws([&] { (void)NetworkConfig::Load(0, f); }), "malformed entry accepted"); }
  SECTION("malformed") { casef("missing file"); CHECK(throws_as<std::invalid_argument>([&] { (void)NetworkConfig::Load(0, "/tmp/vh_no_such_dir/x"); }), "missing file accepted"); wr(""); casef("empty file"); CHECK(throws_as<std::invalid_argument>([&] { (void)NetworkConfig::Load(0, f); }), "empty file accepted"); }
  SECTION("validate") for (int it = 0; it < (thorough ? 5000 : 600); it++) { size_t n = 1 + r.below(7); std::vector<Party> ps; std::string s; for (size_t i = 0; i < n; i++) { unsigned id = r.below(8) == 0 ? r.below(n + 2) : i; ps.push_back({id, "h" + std::to_string(i), (int)i}); } if (it % 3) for (size_t i = n; i > 1; i--) std::swap(ps[i - 1], ps[r.below(i)]); unsigned me = r.below(n + 1); if (r.below(2)) me = r.below(n); std::vector<int> cnt(n, 0); bool ok = me < n; for (auto& p : ps) { s += std::to_string(p.id) + " "; if (p.id >= n || cnt[p.id]++) ok = false; } casef("ids %s, me %u", s.c_str(), me); bool th = throws_as<std::invalid_argument>([&] { NetworkConfig c(me, ps); if (ok) for (size_t i = 0; i < n; i++) { CHECK(c.GetParty(i).id == i, "GetParty(%zu)", i); } }); CHECK(th == !ok, ok ? "valid config rejected" : "invalid config accepted"); }
  SECTION("validate-large") for (size_t n : {10u, 17u, 40u, 70u, 130u, 257u, 300u, 600u}) for (int it = 0; it < 12; it++) { std::vector<Party> ps; for (size_t i = 0; i < n; i++) ps.push_back({(unsigned)i, "h" + std::to_string(i), (int)i}); if (it % 2) for (size_t i = n; i > 1; i--) std::swap(ps[i - 1], ps[r.below(i)]); unsigned me = r.below(n); size_t x = r.below(n), y = r.below(n); if (it == 4) x = 0, y = n - 1; bool ok = it < 4 || x == y; if (it >= 4) ps[y].id = ps[x].id; casef("%zu parties, entry %zu has the id of entry %zu", n, y, x); bool th = throws_as<std::invalid_argument>([&] { NetworkConfig c(me, ps); if (ok) for (size_t i = 0; i < n; i++) { auto p = c.GetParty(i); CHECK(p.id == i && p.port == (int)i && p.hostname == "h" + std::to_string(i), "GetParty(%zu)", i); } }); CHECK(th == !ok, ok ? "valid config rejected" : "invalid config accepted"); }
  SECTION("load-large") for (size_t n : {257u, 300u}) { std::string s; for (size_t i = n; i-- > 0;) s += std::to_string(i) + ",host" + std::to_string(i) + "," + std::to_string(40000 + i) + "\n"; wr(s); casef("file with %zu entries", n); auto c = NetworkConfig::Load(n - 1, f); CHECK(c.Id() == n - 1 && c.NetworkSize() == n, "id or size"); for (size_t i = 0; i < n; i++) { auto p = c.GetParty(i); CHECK(p.id == i && p.hostname == "host" + std::to_string(i) && p.port == 40000 + (int)i, "GetParty(%zu)", i); } }
  SECTION("localhost") for (size_t n = 1; n < 30; n++) for (size_t id = 0; id < n; id += 1 + n / 5) { casef("Localhost(%zu,%zu)", id, n); auto c = NetworkConfig::Localhost(id, n, 4000); CHECK(c.Id() == id && c.NetworkSize() == n, "id or size"); for (size_t i = 0; i < n; i++) { auto p = c.GetParty(i); CHECK(p.id == i && p.port == 4000 + (int)i && p.hostname == "127.0.0.1", "party %zu", i); } auto d = NetworkConfig::Localhost(id, n); for (size_t i = 0; i < n; i++) CHECK(d.GetParty(i).port == DEFAULT_PORT_OFFSET + (int)i, "default port %zu", i); CHECK(throws_as<std::invalid_argument>([&] { (void)NetworkConfig::Localhost(n, n, 4000); }), "id outside the network accepted"); }
  SECTION("localhost-large") for (size_t n : {257u, 300u, 700u}) for (size_t id : {(size_t)0, n - 1}) { casef("Localhost(%zu,%zu)", id, n); auto c = NetworkConfig::Localhost(id, n, 4000); CHECK(c.Id() == id && c.NetworkSize() == n, "id or size"); for (size_t i = 0; i < n; i++) { auto p = c.GetParty(i); CHECK(p.id == i && p.port == 4000 + (int)i && p.hostname == "127.0.0.1", "party %zu", i); } auto d = NetworkConfig::Localhost(id, n); for (size_t i = 0; i < n; i++) CHECK(d.GetParty(i).port == DEFAULT_PORT_OFFSET + (int)i, "default port %zu", i); CHECK(throws_as<std::invalid_argument>([&] { (void)NetworkConfig::Localhost(n, n, 4000); }), "id outside the network accepted"); }
  SECTION("tostring") for (size_t n = 1; n < 8; n++) { casef("n=%zu", n); std::vector<Party> ps; std::string w = "[id=0, "; for (size_t i = 0; i < n; i++) { ps.push_back({(unsigned)i, host(), (int)r.below(9999)}); w += "{" + std::to_string(i) + ", " + ps[i].hostname + ", " + std::to_string(ps[i].port) + "}" + (i + 1 < n ? ", " : "]"); } CHECK(NetworkConfig(0, ps).ToString() == w, "ToString"); }
  unlink(f.c_str());
}
