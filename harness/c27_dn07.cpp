#include "tp_util.hpp"
using namespace h;
static void go(Rng& r, const Plan& p, size_t n, size_t t, int mode) { auto in = randomInputs(r, p); auto v = p.eval(in); Session s(p, n); std::vector<tp::DN07> d; d.reserve(n); for (size_t i = 0; i < n; i++) { tp::DN07 x(n, t); x.SetCircuit(s.c(i)); d.push_back(x); } auto all = [&](auto f) { for (auto& x : d) f(x); };
  if (mode == 0) { all([](auto& x) { x.PrepPartiesSend(); }); all([](auto& x) { x.PrepPartiesReceive(); }); } else if (mode == 1) { tp::FF L = U61::mk(r.next128() % U61::P()); all([&](auto& x) { x.DummyPrep(L); }); } else all([](auto& x) { x.DummyPrep(); });
  all([](auto& x) { x.FDMapPrepToGates(); }); all([](auto& x) { x.FDMultPartiesSendP1(); }); all([](auto& x) { x.FDMultP1Receives(); });
  for (size_t i = 0; i < p.clients; i++) { std::vector<tp::FF> q; for (auto o : p.ownerInputs(i)) q.push_back(U61::mk(in[o])); auto bad = q; bad.emplace_back(1); CHECK(throws_as<std::invalid_argument>([&] { d[i].SetInputs(bad); }), "wrong number of inputs accepted"); d[i].SetInputs(q); }
  all([](auto& x) { x.InputPartiesSendOwners(); }); for (size_t i = 0; i < p.clients; i++) d[i].InputOwnersReceiveAndSendParties(); all([](auto& x) { x.InputPartiesReceive(); });
  auto wire = [&](size_t g) { Shared sh(s.gather([&](size_t i) { return s.b[i].g[g]->GetDn07Share(); })); CHECK(sh.degree() <= t, "wire %zu: sharing of degree %zu > t", g, sh.degree()); CHECK(sh.at(0) == v[g], "wire %zu: shared value differs from the circuit's value", g); };
  for (auto g : p.of('I')) wire(g); for (size_t l = 0; l < p.layers; l++) { all([&](auto& x) { x.MultPartiesSendP1(l); }); all([&](auto& x) { if (l % 2) x.MultP1ReceivesAndSendsParties(l); else { x.MultP1Receives(l); x.MultP1SendsParties(l); } }); all([&](auto& x) { x.MultPartiesReceive(l); }); for (auto g : p.layer(l)) wire(g); }
  all([](auto& x) { x.OutputPartiesSendOwners(); }); for (size_t i = 0; i < p.clients; i++) d[i].OutputOwnersReceive(); for (size_t c = 0; c < p.clients; c++) { auto o = p.ownerOutputs(c); for (size_t j = 0; j < o.size(); j++) CHECK(U61::val(d[c].GetOutput(c, j)) == v[o[j]], "client %zu output %zu differs from the circuit's value", c, j); } }
void run() {
  Rng r(seed * 109);
  for (int mode = 0; mode < 3; mode++) { static const char* nm[] = {"real-prep", "constant-prep", "zero-prep"}; SECTION(nm[mode]) for (int it = 0; it < (thorough ? 300 : mode ? 25 : 60); it++) { size_t t = r.below(thorough ? 6 : 5), n = 2 * t + 1; Plan p = randomPlan(r, 1 + r.below(n), 1 + r.below(4), true, it % 8 == 1 ? 16 : it % 4 == 0 ? 4 : 0); casef("%s n=%zu t=%zu %.3000s", nm[mode], n, t, p.str().c_str()); go(r, p, n, t, mode); } }
  SECTION("threshold") for (size_t n = 1; n < 12; n++) for (size_t t = 0; t < 12; t++) { casef("n=%zu t=%zu", n, t); CHECK(throws_as<std::invalid_argument>([&] { tp::DN07 d(n, t); }) == (n <= 2 * t), "threshold acceptance"); }
}
