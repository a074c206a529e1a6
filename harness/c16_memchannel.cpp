#include "h.hpp"
#include "scl/net/mem_channel.h"
#include <deque>
#include <thread>
using namespace h;
static void fifo(bool self, Rng& r, int steps, int it) {
  std::shared_ptr<scl::InMemoryChannel> a, b; if (self) a = b = scl::InMemoryChannel::CreateSelfConnecting(); else { auto c = scl::InMemoryChannel::CreatePaired(); a = c[0]; b = c[1]; }
  std::shared_ptr<scl::InMemoryChannel> e[2] = {a, b}; std::deque<u8> q[2]; // q[i]: bytes readable at end i
  std::string log;
  for (int s = 0; s < steps; s++) { int i = self ? 0 : r.below(2); int peer = self ? 0 : 1 - i; unsigned op = r.below(20);
    if (op == 0) { e[i]->Flush(); q[i].clear(); log += "F" + std::to_string(i) + " "; }
    else if (op < 10) { size_t n = r.below(8) == 0 ? 0 : r.below(r.below(6) == 0 ? 300 : 9); std::vector<u8> d(n); for (auto& x : d) x = (u8)r.next(); log += "S" + std::to_string(i) + ":" + std::to_string(n) + " "; e[i]->Send(d.data(), n); for (auto& x : d) { q[peer].push_back(x); x = 0xEE; } }
    else { size_t n = r.below(q[i].size() + 1); if (r.below(4) == 0) n = q[i].size(); log += "R" + std::to_string(i) + ":" + std::to_string(n) + " "; casef("%s it=%d history=%.1500s", self ? "self-connecting" : "pair", it, log.c_str()); std::vector<u8> d(n + 16, 0x5A); e[i]->Recv(d.data() + 8, n); for (size_t k = 0; k < n; k++) { CHECK(d[8 + k] == q[i].front(), "byte %zu of the read is wrong", k); q[i].pop_front(); } for (int k = 0; k < 8; k++) CHECK(d[k] == 0x5A && d[8 + n + k] == 0x5A, "bytes outside the request written"); } }
  for (int i = 0; i < (self ? 1 : 2); i++) { size_t n = q[i].size(); std::vector<u8> d(n); e[i]->Recv(d.data(), n); for (size_t k = 0; k < n; k++) CHECK(d[k] == q[i][k], "drained byte %zu", k); }
}
void run() {
  Rng r(seed * 61);
  SECTION("fifo") for (int it = 0; it < (thorough ? 4000 : 500); it++) { casef("it=%d", it); fifo(false, r, 5 + r.below(60), it); }
  SECTION("self") for (int it = 0; it < (thorough ? 2000 : 250); it++) { casef("it=%d", it); fifo(true, r, 5 + r.below(60), it); }
  SECTION("blocking") for (int it = 0; it < (thorough ? 200 : 20); it++) { casef("two threads it=%d", it); auto c = scl::InMemoryChannel::CreatePaired(); size_t N = 5000; std::vector<u8> d(N), o(N); for (auto& x : d) x = (u8)r.next(); u64 s1 = r.next(), s2 = r.next();
    std::thread w([&] { Rng q(s1); size_t i = 0; while (i < N) { size_t n = std::min<size_t>(N - i, q.below(200)); c[0]->Send(d.data() + i, n); i += n; } }); { Rng q(s2); size_t i = 0; while (i < N) { size_t n = std::min<size_t>(N - i, q.below(170)); c[1]->Recv(o.data() + i, n); i += n; } } w.join(); CHECK(d == o, "bytes lost, duplicated or reordered between threads"); }
}
