// The whole protocol: circuit-independent phase, circuit-dependent phase,
// online phase; every wire of the online phase is value minus its mask.
#include "fi_util.hpp"
using namespace h;
static void full(Rng& r, const Plan& p, size_t n, size_t t, bool real, u128 L) { auto in = randomInputs(r, p); auto v = p.eval(in); Session s(p, n); s.fi(t, real, L); std::vector<tp::Correlator> co; for (size_t i = 0; i < n; i++) co.push_back(s.c(i).GetCorrelator()); Raw61 lam(p.ops.size()); for (size_t g = 0; g < p.ops.size(); g++) lam[g] = Shared(s.gather([&](size_t i) { return co[i].mMapIndShrs.at(s.b[i].g[g]); })).at(0);
  s.fd(); for (size_t g = 0; g < p.ops.size(); g++) if (p.ops[g].t == 'I' || p.ops[g].t == 'O') CHECK(U61::val(s.b[p.ops[g].a].g[g]->GetDummyLambda()) == lam[g], "owner %zu learns the wrong mask of gate %zu", p.ops[g].a, g); s.setInputs(in); s.online(v, [&](size_t i) { return lam[i]; }); s.outputs(v); }
void run() {
  Rng r(seed * 103);
  SECTION("full") for (int it = 0; it < (thorough ? 500 : 60); it++) { size_t n, k, t; Plan p = fiplan(r, n, k, t, true); casef("real preprocessing n=%zu t=%zu %.3000s", n, t, p.str().c_str()); full(r, p, n, t, true, 0); }
  SECTION("dummy") for (int it = 0; it < (thorough ? 300 : 40); it++) { size_t n, k, t; Plan p = fiplan(r, n, k, t, true); u128 L = it % 4 ? r.next128() % U61::P() : 0; casef("constant correlations %s n=%zu t=%zu %.3000s", s128(L).c_str(), n, t, p.str().c_str()); full(r, p, n, t, false, L); }
  SECTION("large") for (int it = 0; it < (thorough ? 10 : 2); it++) { size_t k = 4 + r.below(3), t = 2 * k - 2 - r.below(2), n = t + 2 * (k - 1) + 1; Plan p = randomPlan(r, n, k, true, 6); casef("large n=%zu t=%zu %.3000s", n, t, p.str().c_str()); full(r, p, n, t, true, 0); }
}
