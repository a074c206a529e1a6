#include "tp_util.hpp"
using namespace h;
void run() {
  SECTION("set-threshold") for (size_t n = 1; n < (thorough ? 26u : 20u); n++) for (size_t k = 1; k < 10; k++) { Plan p; p.clients = 1; p.k = k; p.ops = {{'I', 0, 0}, {'M', 0, 0}, {'O', 0, 1}}; p.layerOf = {0, 0, 0}; Session s(p, n); s.c(0).GenCorrelator(); for (size_t t = 0; t < 24; t++) { casef("n=%zu k=%zu t=%zu", n, k, t); bool ok = n == t + 2 * (k - 1) + 1 && n > 2 * t; CHECK(throws_as<std::invalid_argument>([&] { s.c(0).SetThreshold(t); }) == !ok, "threshold acceptance: want %s", ok ? "accepted" : "rejected"); } }
  SECTION("correlator") for (size_t n = 1; n < 20; n++) for (size_t k = 1; k < 10; k++) { tp::Correlator co(1, 1, 1, k); Rng q(1); auto nets = scl::Network::CreateFullInMemory(n); co.SetNetwork(std::make_shared<scl::Network>(nets[0]), 0); for (size_t t = 0; t < 24; t++) { casef("n=%zu k=%zu t=%zu", n, k, t); bool ok = n == t + 2 * (k - 1) + 1 && n > 2 * t; CHECK(throws_as<std::invalid_argument>([&] { co.SetThreshold(t); }) == !ok, "threshold acceptance: want %s", ok ? "accepted" : "rejected"); } }
  SECTION("baseline") for (size_t n = 0; n < (thorough ? 80u : 40u); n++) for (size_t t = 0; t < 40; t++) { casef("n=%zu t=%zu", n, t); bool ok = n > 2 * t; CHECK(throws_as<std::invalid_argument>([&] { tp::DN07 d(n, t); }) == !ok, "threshold acceptance: want %s", ok ? "accepted" : "rejected"); }
}
