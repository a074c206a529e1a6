#include "h.hpp"
#include "scl/net/network.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
using namespace h;
using Srv = scl::DiscoveryServer; using Clt = scl::DiscoveryClient;
static void sendcfg(scl::Channel* c, const std::vector<scl::Party>& ps) { c->Send((std::size_t)ps.size()); for (auto& p : ps) { c->Send(p.id); c->Send(p.port); std::size_t l = p.hostname.size(); c->Send(l); c->Send((const u8*)p.hostname.data(), l); } }
void run() {
  Rng r(seed * 79);
  SECTION("agree") for (size_t n = 1; n < (thorough ? 30u : 10u); n++) for (int it = 0; it < 6; it++) { unsigned me = r.below(n); bool inorder = it % 2 == 0; std::vector<std::string> hs; for (size_t i = 0; i < n; i++) hs.push_back("10.0." + std::to_string(r.below(256)) + "." + std::to_string(i)); std::vector<unsigned> ids; for (size_t i = 0; i < n; i++) if (i != me) ids.push_back(i); if (!inorder) for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[r.below(i)]); std::vector<int> ports(n); for (auto& p : ports) p = (int)r.below(65536); std::string os; for (auto x : ids) os += std::to_string(x) + ","; casef("n=%zu server=%u ids in order of arrival %s", n, me, os.c_str());
    auto mock = scl::Network::CreateMock(me, n); auto rem = std::get<1>(mock); scl::Party pm{me, hs[me], ports[me]}; Srv::Ctx ctx{pm, std::get<0>(mock)}; Srv::CollectIdsAndPorts prot(hs); std::vector<Clt::ReceiveNetworkConfig> next; std::vector<size_t> where; size_t k = 0; for (size_t i = 0; i < n; i++) if (i != me) { unsigned id = ids[k++]; Clt::SendIdAndPort cp(id, ports[id]); next.push_back(cp.Run(rem[i])); where.push_back(i); }
    auto nx = prot.Run(ctx); auto cfg = nx.Finalize(ctx); auto good = [&](const scl::NetworkConfig& c, unsigned id, const char* who) { CHECK(c.Id() == id && c.NetworkSize() == n, "%s %u: id or size", who, id); for (size_t i = 0; i < n; i++) { auto p = c.GetParty(i); CHECK(p.id == i && p.port == ports[i], "%s %u: entry %zu is id %u port %d want port %d", who, id, i, p.id, p.port, ports[i]); CHECK(p.hostname == cfg.GetParty(i).hostname, "%s %u disagrees with the server about host %zu", who, id, i); if (inorder) CHECK(p.hostname == hs[i], "%s %u: hostname of %zu", who, id, i); } };
    good(cfg, me, "server"); for (size_t j = 0; j < next.size(); j++) good(next[j].Finalize(rem[where[j]]), ids[j], "client"); }
  SECTION("server-rejects") for (size_t n = 2; n < 9; n++) for (int it = 0; it < 8; it++) { unsigned me = r.below(n); std::vector<unsigned> ids; for (size_t i = 0; i < n; i++) if (i != me) ids.push_back(i); size_t w = r.below(ids.size()); unsigned old = ids[w]; if (it % 4 == 0) ids[w] = n; else if (it % 4 == 1) ids[w] = 0xffffffffu - r.below(3); else if (it % 4 == 2) ids[w] = me; else if (ids.size() > 1) ids[w] = ids[(w + 1) % ids.size()]; else ids[w] = n + r.below(100); (void)old; std::string os; for (auto x : ids) os += std::to_string(x) + ","; casef("n=%zu server=%u claimed ids %s", n, me, os.c_str()); auto mock = scl::Network::CreateMock(me, n); auto rem = std::get<1>(mock); Srv::Ctx ctx{scl::Party{me, "h", 1}, std::get<0>(mock)}; Srv::CollectIdsAndPorts prot(std::vector<std::string>(n, "h")); size_t k = 0; for (size_t i = 0; i < n; i++) if (i != me) { rem[i]->Send(ids[k++]); rem[i]->Send((int)5); } CHECK(throws([&] { auto nx = prot.Run(ctx); (void)nx.Finalize(ctx); }), "out-of-range or repeated ids accepted"); }
  SECTION("client-rejects") for (size_t n = 1; n < 8; n++) for (int it = 0; it < 6; it++) { std::vector<scl::Party> ps; for (size_t i = 0; i < n; i++) ps.push_back({(unsigned)i, "h", 9}); unsigned me = r.below(n); bool bad = true; if (it % 3 == 0) ps[r.below(n)].id = n + r.below(1000); else if (it % 3 == 1 && n > 1) ps[r.below(n)].id = 0xffffffff; else if (n > 1) { size_t i = r.below(n); ps[i].id = (ps[i].id + 1) % n; } else me = n; std::string os; for (auto& p : ps) os += std::to_string(p.id) + ","; casef("n=%zu me=%u ids %s", n, me, os.c_str()); auto c = scl::InMemoryChannel::CreatePaired(); std::shared_ptr<scl::Channel> a = c[0]; sendcfg(c[1].get(), ps); Clt::ReceiveNetworkConfig prot(me); CHECK(throws([&] { (void)prot.Finalize(a); }) == bad, "config with out-of-range or repeated ids accepted"); }
  SECTION("max-parties") for (std::size_t n : {(std::size_t)256, (std::size_t)257, (std::size_t)1000, (std::size_t)1 << 32}) { casef("n=%zu", n); CHECK(throws_as<std::invalid_argument>([&] { Srv s(n); }) && throws_as<std::invalid_argument>([&] { Srv s(9999, n); }), "more than 255 parties accepted"); }
}
