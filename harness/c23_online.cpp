// Online phase against the circuit's value, for dummy preprocessing.
#include "tp_util.hpp"
using namespace h;
void run() {
  Rng r(seed * 97);
  auto mkplan = [&](size_t& n, size_t& k) { k = 1 + r.below(thorough ? 6 : 5); n = 2 * k - 1 + r.below(4); return randomPlan(r, 1 + r.below(n), k); };
  SECTION("masks") for (int it = 0; it < (thorough ? 1200 : 160); it++) { size_t n, k; Plan p = mkplan(n, k); auto in = randomInputs(r, p); auto v = p.eval(in); Raw61 lam(p.ops.size()); for (size_t i = 0; i < p.ops.size(); i++) { auto& o = p.ops[i]; lam[i] = o.t == 'A' ? U61::add(lam[o.a], lam[o.b]) : o.t == 'O' ? lam[o.b] : r.below(6) ? r.next128() % U61::P() : 0; } casef("n=%zu %.3000s", n, p.str().c_str()); Session s(p, n); for (size_t q = 0; q < n; q++) { for (size_t i = 0; i < p.ops.size(); i++) { if (p.ops[i].t == 'I') std::static_pointer_cast<tp::InputGate>(s.b[q].g[i])->SetLambda(U61::mk(lam[i])); if (p.ops[i].t == 'M') std::static_pointer_cast<tp::MultGate>(s.b[q].g[i])->SetDummyLambda(U61::mk(lam[i])); } s.c(q).PopulateDummyLambdas(); s.c(q).PrepFromDummyLambdas(); for (size_t i = 0; i < p.ops.size(); i++) CHECK(U61::val(s.b[q].g[i]->GetDummyLambda()) == lam[i], "mask of gate %zu", i); } s.setInputs(in); s.online(v, [&](size_t i) { return lam[i]; }); s.outputs(v); }
  SECTION("constant-mask") for (int it = 0; it < (thorough ? 300 : 50); it++) { size_t n, k; Plan p = mkplan(n, k); auto in = randomInputs(r, p); auto v = p.eval(in); u128 L = it % 5 ? r.next128() % U61::P() : 0; casef("n=%zu lambda=%s %.3000s", n, s128(L).c_str(), p.str().c_str()); Session s(p, n); s.all([&](auto& c) { if (it % 2) c._DummyPrep(U61::mk(L)); else { c.SetDummyLambdas(U61::mk(L)); c.PopulateDummyLambdas(); c.PrepFromDummyLambdas(); } }); s.setInputs(in); s.online(v, [&](size_t) { return L; }); s.outputs(v); }
  SECTION("zero-mask") for (int it = 0; it < (thorough ? 100 : 20); it++) { size_t n, k; Plan p = mkplan(n, k); auto in = randomInputs(r, p); auto v = p.eval(in); casef("n=%zu zero masks %.3000s", n, p.str().c_str()); Session s(p, n); s.all([&](auto& c) { c._DummyPrep(); }); s.setInputs(in); s.online(v, [&](size_t) { return (u128)0; }); s.outputs(v); }
  SECTION("single-party") for (int it = 0; it < 10; it++) { Plan p = randomPlan(r, 1, 1); auto in = randomInputs(r, p); auto v = p.eval(in); casef("n=1 RunProtocol %.3000s", p.str().c_str()); Session s(p, 1); s.c(0)._DummyPrep(U61::mk(r.next128() % U61::P())); s.setInputs(in); s.c(0).RunProtocol(); s.outputs(v); }
}
