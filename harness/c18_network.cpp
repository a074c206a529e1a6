#include "h.hpp"
#include "scl/net/network.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <thread>
using namespace h;
static void exchange(std::vector<scl::Network>& nets, Rng& r, bool self) {
  size_t n = nets.size(); auto tag = [](u64 i, u64 j, u64 k) { return (i << 40) | (j << 20) | k; };
  for (u64 k = 0; k < 3; k++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (self || i != j) nets[i].Party(j)->Send(tag(i, j, k));
  for (size_t i = n; i-- > 0;) for (size_t j0 = 0; j0 < n; j0++) { size_t j = (j0 * 7 + i) % n; (void)r; if (n % 7 == 0) j = j0; if (!self && i == j) continue; for (u64 k = 0; k < 3; k++) { u64 v = 0; nets[i].Party(j)->Recv(v); CHECK(v == tag(j, i, k), "message %llu from %zu to %zu arrives as sender %llu receiver %llu number %llu", (unsigned long long)k, j, i, (unsigned long long)(v >> 40), (unsigned long long)((v >> 20) & 0xfffff), (unsigned long long)(v & 0xfffff)); } }
}
static int freeport(int n, Rng& r) { for (int tr = 0; tr < 200; tr++) { int b = 20000 + r.below(12000); bool ok = true; std::vector<int> fs; for (int i = 0; i < n && ok; i++) { int f = socket(AF_INET, SOCK_STREAM, 0); int o = 1; setsockopt(f, SOL_SOCKET, SO_REUSEADDR, &o, sizeof o); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = INADDR_ANY; a.sin_port = htons(b + i); ok = !bind(f, (sockaddr*)&a, sizeof a); fs.push_back(f); } for (int f : fs) close(f); if (ok) return b; } return -1; }
void run() {
  Rng r(seed * 71);
  SECTION("full") for (size_t n = 1; n < (thorough ? 24u : 13u); n++) { casef("CreateFullInMemory(%zu)", n); auto nets = scl::Network::CreateFullInMemory(n); CHECK(nets.size() == n, "number of networks"); for (size_t i = 0; i < n; i++) { CHECK(nets[i].Size() == n, "size of network %zu", i); for (size_t j = 0; j < n; j++) CHECK(nets[i].Party(j) != nullptr, "no channel %zu->%zu", i, j); } exchange(nets, r, true); }
  SECTION("mock") for (size_t n = 1; n < (thorough ? 14u : 9u); n++) for (size_t id = 0; id < n; id++) { casef("CreateMock(%zu,%zu)", id, n); auto m = scl::Network::CreateMock(id, n); auto net = std::get<0>(m); auto rem = std::get<1>(m); CHECK(net.Size() == n && rem.size() == n, "sizes"); for (size_t i = 0; i < n; i++) { if (i == id) { CHECK(rem[i] == nullptr, "own remote"); net.Party(i)->Send((int)(i + 5)); } else { net.Party(i)->Send((int)(100 + i)); rem[i]->Send((int)(200 + i)); } } for (size_t i = 0; i < n; i++) { int v = 0; if (i == id) { net.Party(i)->Recv(v); CHECK(v == (int)i + 5, "self channel"); } else { net.Party(i)->Recv(v); CHECK(v == 200 + (int)i, "party %zu", i); rem[i]->Recv(v); CHECK(v == 100 + (int)i, "remote %zu", i); } } }
  SECTION("mock-large") for (size_t n : {70u, 200u, 300u}) for (size_t id : {(size_t)0, (size_t)3, n / 2, n - 1}) { casef("CreateMock(%zu,%zu)", id, n); auto m = scl::Network::CreateMock(id, n); auto net = std::get<0>(m); auto rem = std::get<1>(m); CHECK(net.Size() == n && rem.size() == n, "sizes"); for (size_t i = 0; i < n; i++) { if (i == id) { CHECK(rem[i] == nullptr, "own remote"); net.Party(i)->Send((int)(i + 5)); } else { net.Party(i)->Send((int)(100 + i)); rem[i]->Send((int)(200 + i)); } } for (size_t i = 0; i < n; i++) { int v = 0; if (i == id) { net.Party(i)->Recv(v); CHECK(v == (int)i + 5, "self channel"); } else { net.Party(i)->Recv(v); CHECK(v == 200 + (int)i, "party %zu", i); rem[i]->Recv(v); CHECK(v == 100 + (int)i, "remote %zu", i); } } }
  SECTION("full-large") for (size_t n : {70u}) { casef("CreateFullInMemory(%zu)", n); auto nets = scl::Network::CreateFullInMemory(n); CHECK(nets.size() == n, "number of networks"); exchange(nets, r, true); }
  SECTION("tcp") for (int thr = 0; thr < 2; thr++) for (size_t n = 1; n < (thorough ? 7u : 5u); n++) { int base = freeport(n, r); if (base < 0) continue; casef("%s(%zu parties) over loopback", thr ? "CreateThreadedSenders" : "Create", n); auto* nets = new std::vector<scl::Network>(n); std::vector<scl::Party> ps; for (size_t i = 0; i < n; i++) ps.push_back({(unsigned)i, "127.0.0.1", base + (int)i}); std::vector<std::thread> ts; std::vector<int> ord(n); for (size_t i = 0; i < n; i++) ord[i] = i; for (size_t i = n; i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]); bool err = false;
    for (size_t k = 0; k < n; k++) { size_t i = ord[k]; ts.emplace_back([&, i] { auto q = ps; if (i % 2) std::reverse(q.begin(), q.end()); try { scl::NetworkConfig cfg(i, q); (*nets)[i] = thr ? scl::Network::CreateThreadedSenders(cfg) : scl::Network::Create(cfg); } catch (const std::exception&) { err = true; } }); } for (auto& t : ts) t.join(); if (err) { printf("NOTE loopback network could not be built\n"); continue; } for (auto& x : *nets) CHECK(x.Size() == n, "size"); exchange(*nets, r, true); if (!thr) for (auto& x : *nets) x.Close(); }
}
