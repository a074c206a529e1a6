#include "fi_util.hpp"
using namespace h;
void run() {
  Rng r(seed * 101);
  SECTION("correlations") for (int it = 0; it < (thorough ? 400 : 50); it++) { size_t n, k, t; Plan p = fiplan(r, n, k, t, true, it % 10 == 3 ? 24 : it % 5 == 0 ? 6 : 0); casef("n=%zu t=%zu %.3000s", n, t, p.str().c_str()); Session s(p, n); s.fi(t, true); std::vector<tp::Correlator> co; for (size_t i = 0; i < n; i++) co.push_back(s.c(i).GetCorrelator());
    Raw61 lam(p.ops.size()); for (size_t g = 0; g < p.ops.size(); g++) { Shared sh(s.gather([&](size_t i) { return co[i].mMapIndShrs.at(s.b[i].g[g]); })); CHECK(sh.degree() <= n - k, "individual sharing of gate %zu has degree %zu > n-k", g, sh.degree()); lam[g] = sh.at(0); for (size_t j = 1; j < k; j++) CHECK(sh.at(j) == lam[g], "individual sharing of gate %zu: slot %zu differs from slot 0", g, j); if (p.ops[g].t == 'A') CHECK(lam[g] == U61::add(lam[p.ops[g].a], lam[p.ops[g].b]), "mask of addition %zu", g); if (p.ops[g].t == 'O') CHECK(lam[g] == lam[p.ops[g].b], "mask of output %zu", g); }
    for (auto& mb : multBatches(p)) { std::vector<tp::MultBatchFIPrep> d; for (size_t i = 0; i < n; i++) { auto* e = findBatch(co[i].mMapMultBatch, [&](auto& b) { return b->GetMultGate(0) == s.b[i].g[mb[0]]; }); CHECK(e != nullptr, "batch of product %zu has no preprocessing", mb[0]); d.push_back(e->second); } Shared A(s.gather([&](size_t i) { return d[i].mShrA; })), B(s.gather([&](size_t i) { return d[i].mShrB; })), C(s.gather([&](size_t i) { return d[i].mShrC; })), o1(s.gather([&](size_t i) { return d[i].mShrO1; })), o2(s.gather([&](size_t i) { return d[i].mShrO2; })), o3(s.gather([&](size_t i) { return d[i].mShrO3; })); CHECK(A.degree() <= n - k && B.degree() <= n - k && C.degree() <= n - k, "triple of batch %zu: degrees %zu %zu %zu > n-k", mb[0], A.degree(), B.degree(), C.degree()); for (size_t j = 0; j < k; j++) { CHECK(C.at(j) == U61::mul(A.at(j), B.at(j)), "triple of batch %zu: slot %zu is not a product", mb[0], j); CHECK(o1.at(j) == 0 && o2.at(j) == 0 && o3.at(j) == 0, "zero sharing of batch %zu: slot %zu is not zero", mb[0], j); } }
    for (size_t c = 0; c < p.clients; c++) { auto in = p.ownerInputs(c), ou = p.ownerOutputs(c); for (size_t q = 0; q < in.size(); q += k) { Shared z(s.gather([&](size_t i) { auto* e = findBatch(co[i].mMapInputBatch, [&](auto& b) { return b->GetInputGate(0) == s.b[i].g[in[q]]; }); if (!e) h::fail("input batch without preprocessing"); return e->second.mShrO; })); for (size_t j = 0; j < k; j++) CHECK(z.at(j) == 0, "zero sharing of an input batch"); } for (size_t q = 0; q < ou.size(); q += k) { Shared z(s.gather([&](size_t i) { auto* e = findBatch(co[i].mMapOutputBatch, [&](auto& b) { return b->GetOutputGate(0) == s.b[i].g[ou[q]]; }); if (!e) h::fail("output batch without preprocessing"); return e->second.mShrO; })); for (size_t j = 0; j < k; j++) CHECK(z.at(j) == 0, "zero sharing of an output batch"); } } }
}
