// Every correlation of the circuit-independent phase is used for one thing only.
#include "fi_util.hpp"
#include <map>
using namespace h;
// forwards to another channel and keeps what was sent
struct Spy : scl::Channel { scl::Channel* in; std::vector<u8> sent; bool on = false; explicit Spy(scl::Channel* c) : in(c) {} void Send(const unsigned char* p, std::size_t m) override { if (on) sent.insert(sent.end(), p, p + m); in->Send(p, m); } void Recv(unsigned char* p, std::size_t m) override { in->Recv(p, m); } void Close() override { in->Close(); } };
void run() {
  Rng r(seed * 107);
  SECTION("once") for (int it = 0; it < (thorough ? 400 : 60); it++) { size_t n, k, t; Plan p = fiplan(r, n, k, t, false, it % 10 == 1 ? 24 : it % 3 == 0 ? 4 : 0); casef("n=%zu t=%zu %.3000s", n, t, p.str().c_str()); Session s(p, n); s.fi(t, true); std::vector<tp::Correlator> co; for (size_t i = 0; i < n; i++) co.push_back(s.c(i).GetCorrelator()); std::map<Raw61, std::string> zero, ind, trip; auto once = [&](std::map<Raw61, std::string>& m, Raw61 x, std::string what) { auto [i, ok] = m.emplace(x, what); CHECK(ok, "the same sharing serves %s and %s", i->second.c_str(), what.c_str()); };
    for (size_t g = 0; g < p.ops.size(); g++) if (p.ops[g].t == 'I' || p.ops[g].t == 'M') once(ind, s.gather([&](size_t i) { return co[i].mMapIndShrs.at(s.b[i].g[g]); }), "the mask of gate " + std::to_string(g));
    for (auto& mb : multBatches(p)) { std::vector<tp::MultBatchFIPrep> d; for (size_t i = 0; i < n; i++) { auto* e = findBatch(co[i].mMapMultBatch, [&](auto& b) { return b->GetMultGate(0) == s.b[i].g[mb[0]]; }); CHECK(e != nullptr, "batch without preprocessing"); d.push_back(e->second); } std::string w = " of the product batch of gate " + std::to_string(mb[0]); once(trip, s.gather([&](size_t i) { return d[i].mShrA; }), "factor A" + w); once(trip, s.gather([&](size_t i) { return d[i].mShrB; }), "factor B" + w); if (n > k) { once(zero, s.gather([&](size_t i) { return d[i].mShrO1; }), "O1" + w); once(zero, s.gather([&](size_t i) { return d[i].mShrO2; }), "O2" + w); once(zero, s.gather([&](size_t i) { return d[i].mShrO3; }), "O3" + w); } }
    if (n > k) for (size_t c = 0; c < p.clients; c++) { auto in = p.ownerInputs(c), ou = p.ownerOutputs(c); for (size_t q = 0; q < in.size(); q += k) once(zero, s.gather([&](size_t i) { auto* e = findBatch(co[i].mMapInputBatch, [&](auto& b) { return b->GetInputGate(0) == s.b[i].g[in[q]]; }); if (!e) h::fail("input batch without preprocessing"); return e->second.mShrO; }), "the input batch of gate " + std::to_string(in[q])); for (size_t q = 0; q < ou.size(); q += k) once(zero, s.gather([&](size_t i) { auto* e = findBatch(co[i].mMapOutputBatch, [&](auto& b) { return b->GetOutputGate(0) == s.b[i].g[ou[q]]; }); if (!e) h::fail("output batch without preprocessing"); return e->second.mShrO; }), "the output batch of gate " + std::to_string(ou[q])); } }
  // The products are opened to party 0 under masks: no mask is one of the factors and no mask is taken twice.
  SECTION("masks") for (int it = 0; it < (thorough ? 200 : 40); it++) { size_t n, k, t; Plan p = fiplan(r, n, k, t, false, it % 3 == 0 ? 4 : 0); auto mbs = multBatches(p); size_t nb = mbs.size(); if (!nb) continue; casef("n=%zu t=%zu %.3000s", n, t, p.str().c_str()); Session s(p, n); std::vector<std::shared_ptr<Spy>> to0;
    for (size_t i = 0; i < n; i++) { std::vector<std::shared_ptr<scl::Channel>> ch; for (size_t j = 0; j < n; j++) { auto y = std::make_shared<Spy>(s.nets[i].Party(j)); if (!j) to0.push_back(y); ch.push_back(y); } s.c(i).SetNetwork(std::make_shared<scl::Network>(ch), i); }
    s.all([](auto& c) { c.GenCorrelator(); }); s.all([&](auto& c) { c.SetThreshold(t); }); s.all([](auto& c) { c.FIPrepSend(); }); s.all([](auto& c) { c.FIPrepRecv(); }); for (auto& y : to0) y->on = true; s.all([](auto& c) { c.GenProdPartiesSendP1(); }); for (auto& y : to0) y->on = false;
    s.all([](auto& c) { c.GenProdP1ReceivesAndSends(); }); s.all([](auto& c) { c.GenProdPartiesReceive(); }); s.all([](auto& c) { c.MapCorrToCircuit(); });
    bool plain = true; for (auto& y : to0) plain = plain && y->sent.size() == 8 * k * nb; if (!plain) continue;  // one element per slot and batch
    std::vector<tp::Correlator> co; for (size_t i = 0; i < n; i++) co.push_back(s.c(i).GetCorrelator()); Raw61 xs; for (size_t i = 0; i < n; i++) xs.push_back(i + 1); std::map<u128, std::string> used;
    auto once = [&](u128 x, std::string what) { auto [i, ok] = used.emplace(x, what); CHECK(ok, "the same value serves as %s and as %s", i->second.c_str(), what.c_str()); };
    for (size_t b = 0; b < nb; b++) { std::vector<tp::MultBatchFIPrep> d; for (size_t i = 0; i < n; i++) { auto* e = findBatch(co[i].mMapMultBatch, [&](auto& m) { return m->GetMultGate(0) == s.b[i].g[mbs[b][0]]; }); CHECK(e != nullptr, "batch without preprocessing"); d.push_back(e->second); }
      auto A = S61::interp(xs, s.gather([&](size_t i) { return d[i].mShrA; })), B = S61::interp(xs, s.gather([&](size_t i) { return d[i].mShrB; }));
      for (size_t j = 0; j < k; j++) { auto x = U61::sub(0, j); auto a = S61::ev(A, x), c = S61::ev(B, x); auto W = S61::interp(xs, s.gather([&](size_t i) { return tp::FF::Read(to0[i]->sent.data() + 8 * (j * nb + b)); })); std::string w = " of slot " + std::to_string(j) + " of batch " + std::to_string(b); once(a, "factor A" + w); once(c, "factor B" + w); once(U61::sub(S61::ev(W, x), U61::mul(a, c)), "the mask" + w); } } }
}
