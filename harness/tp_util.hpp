#pragma once
#include "ss_util.hpp"
#include "tp/circuits.h"
#include "tp/dn07.h"
using S61 = SU<61>; using U61 = FU<61>; using Raw61 = std::vector<h::u128>;
// A circuit description executed identically at every party, with an
// evaluator of its own (the oracle of "the circuit's value").
struct Op { char t; size_t a, b; };  // I owner | A l r | M l r | O owner src
struct Plan {
  size_t clients = 1, k = 1, layers = 1; std::vector<Op> ops; std::vector<size_t> layerOf;  // per op (M only)
  std::vector<size_t> ownerInputs(size_t c) const { std::vector<size_t> o; for (size_t i = 0; i < ops.size(); i++) if (ops[i].t == 'I' && ops[i].a == c) o.push_back(i); return o; }
  std::vector<size_t> ownerOutputs(size_t c) const { std::vector<size_t> o; for (size_t i = 0; i < ops.size(); i++) if (ops[i].t == 'O' && ops[i].a == c) o.push_back(i); return o; }
  std::vector<size_t> of(char t) const { std::vector<size_t> o; for (size_t i = 0; i < ops.size(); i++) if (ops[i].t == t) o.push_back(i); return o; }
  std::vector<size_t> layer(size_t l) const { std::vector<size_t> o; for (size_t i = 0; i < ops.size(); i++) if (ops[i].t == 'M' && layerOf[i] == l) o.push_back(i); return o; }
  std::string str() const { std::string s = "clients=" + std::to_string(clients) + " k=" + std::to_string(k) + " layers=" + std::to_string(layers) + ":"; size_t cur = 0; for (size_t i = 0; i < ops.size(); i++) { if (ops[i].t == 'M') while (cur < layerOf[i]) { s += " |"; cur++; } s += std::string(" ") + ops[i].t + std::to_string(ops[i].a) + (ops[i].t == 'I' ? "" : "," + std::to_string(ops[i].b)); } return s; }
  Raw61 eval(const Raw61& in) const {  // in: per op index of I
    Raw61 v(ops.size()); for (size_t i = 0; i < ops.size(); i++) switch (ops[i].t) { case 'I': v[i] = in[i]; break; case 'A': v[i] = U61::add(v[ops[i].a], v[ops[i].b]); break; case 'M': v[i] = U61::mul(v[ops[i].a], v[ops[i].b]); break; case 'O': v[i] = v[ops[i].b]; } return v; }
};
struct Built { std::shared_ptr<tp::Circuit> c; std::vector<std::shared_ptr<tp::Gate>> g; };
inline Built build(const Plan& p) {
  Built b; b.c = std::make_shared<tp::Circuit>(p.clients, p.k); auto& c = *b.c; size_t cur = 0; bool inClosed = false, last = false;
  auto closeIn = [&] { if (!inClosed) { c.CloseInputs(); inClosed = true; } };
  auto closeMul = [&] { closeIn(); if (!last) { while (cur + 1 < p.layers) { c.NewLayer(); cur++; } c.LastLayer(); last = true; } };
  for (size_t i = 0; i < p.ops.size(); i++) { auto& o = p.ops[i]; switch (o.t) {
    case 'I': b.g.push_back(c.Input(o.a)); break;
    case 'A': closeIn(); b.g.push_back(c.Add(b.g[o.a], b.g[o.b])); break;
    case 'M': closeIn(); while (cur < p.layerOf[i]) { c.NewLayer(); cur++; } b.g.push_back(c.Mult(b.g[o.a], b.g[o.b])); break;
    case 'O': closeMul(); b.g.push_back(c.Output(o.a, b.g[o.b])); break; } }
  closeMul(); c.CloseOutputs(); return b;
}
inline Plan randomPlan(h::Rng& r, size_t clients, size_t k, bool emptyLayers = true, size_t size = 0) {
  Plan p; p.clients = clients; p.k = k; auto add = [&](char t, size_t a, size_t b, size_t l) { p.ops.push_back({t, a, b}); p.layerOf.push_back(l); };
  size_t sz = size ? size : 1 + r.below(3); size_t ni = 1 + r.below(2 * k * sz); for (size_t i = 0; i < ni; i++) add('I', r.below(4) ? r.below(clients) : 0, 0, 0);
  p.layers = 1 + r.below(3); std::vector<size_t> avail; for (size_t i = 0; i < ni; i++) avail.push_back(i);
  for (size_t l = 0; l < p.layers; l++) { size_t base = avail.size(); auto pick = [&] { size_t x = r.below(3) ? avail[avail.size() - 1 - r.below(std::min<size_t>(avail.size(), 6))] : avail[r.below(avail.size())]; return x; };
    size_t na = r.below(4); for (size_t i = 0; i < na; i++) { size_t a = pick(), b = r.below(6) ? pick() : a; add('A', a, b, 0); avail.push_back(p.ops.size() - 1); } (void)base;
    size_t nm = emptyLayers && r.below(9) == 0 ? 0 : 1 + r.below(k * sz + 1); std::vector<size_t> fresh; for (size_t i = 0; i < nm; i++) { size_t a = pick(), b = r.below(6) ? pick() : a; add('M', a, b, l); fresh.push_back(p.ops.size() - 1); } avail.insert(avail.end(), fresh.begin(), fresh.end()); }
  for (size_t i = r.below(3); i-- > 0;) { add('A', avail[avail.size() - 1 - r.below(std::min<size_t>(avail.size(), 5))], avail[r.below(avail.size())], 0); avail.push_back(p.ops.size() - 1); }
  size_t no = 1 + r.below(2 * k + 1); for (size_t i = 0; i < no; i++) add('O', r.below(clients), avail[r.below(3) ? avail.size() - 1 - r.below(std::min<size_t>(avail.size(), 5)) : r.below(avail.size())], 0);
  return p;
}
inline Raw61 randomInputs(h::Rng& r, const Plan& p) { Raw61 in(p.ops.size(), 0); for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].t == 'I') in[i] = r.below(5) ? r.next128() % U61::P() : (r.below(2) ? r.below(2) : U61::P() - 1); return in; }
struct Session {  // all parties in one process
  size_t n; const Plan& p; std::vector<scl::Network> nets; std::vector<Built> b;
  Session(const Plan& q, size_t parties) : n(parties), p(q), nets(scl::Network::CreateFullInMemory(parties)) { for (size_t i = 0; i < n; i++) { b.push_back(build(p)); b[i].c->SetNetwork(std::make_shared<scl::Network>(nets[i]), i); } }
  tp::Circuit& c(size_t i) { return *b[i].c; }
  template <typename F> void all(F f) { for (size_t i = 0; i < n; i++) f(c(i)); }
  void setInputs(const Raw61& in) { for (size_t i = 0; i < p.clients; i++) { std::vector<tp::FF> v; for (auto o : p.ownerInputs(i)) v.push_back(U61::mk(in[o])); c(i).SetInputs(v); } }
  void fi(size_t t, bool real, h::u128 lam = 0) { all([](auto& c) { c.GenCorrelator(); }); if (real) { all([&](auto& c) { c.SetThreshold(t); }); all([](auto& c) { c.FIPrepSend(); }); all([](auto& c) { c.FIPrepRecv(); }); all([](auto& c) { c.GenProdPartiesSendP1(); }); all([](auto& c) { c.GenProdP1ReceivesAndSends(); }); all([](auto& c) { c.GenProdPartiesReceive(); }); } else all([&](auto& c) { c.PopulateDummyCorrelator(U61::mk(lam)); }); all([](auto& c) { c.MapCorrToCircuit(); }); }
  void fd() { all([](auto& c) { c.PrepMultPartiesSendP1(); }); all([](auto& c) { c.PrepMultP1ReceivesAndSends(); }); all([](auto& c) { c.PrepMultPartiesReceive(); }); all([](auto& c) { c.PrepIOPartiesSendOwner(); }); all([](auto& c) { c.PrepIOOwnerReceives(); }); }
  void input() { all([](auto& c) { c.InputOwnerSendsP1(); }); all([](auto& c) { c.InputP1Receives(); }); }
  void mult(size_t l) { all([&](auto& c) { c.MultP1Sends(l); }); all([&](auto& c) { c.MultPartiesReceive(l); }); all([&](auto& c) { c.MultPartiesSend(l); }); all([&](auto& c) { c.MultP1Receives(l); }); }
  void output() { all([](auto& c) { c.OutputP1SendsMu(); }); all([](auto& c) { c.OutputOwnerReceivesMu(); }); }
  // runs the online phase; lam(op) is the wire mask of an input or product
  template <typename L> void online(const Raw61& v, L lam) {
    for (auto i : p.of('I')) CHECK(!std::static_pointer_cast<tp::InputGate>(b[0].g[i])->IsLearned(), "gate %zu learned before the input phase", i);
    input(); for (auto i : p.of('I')) CHECK(U61::val(b[0].g[i]->GetMu()) == U61::sub(v[i], lam(i)), "mu of input %zu is not value minus mask", i);
    for (size_t l = 0; l < p.layers; l++) { for (auto i : p.layer(l)) CHECK(throws([&] { (void)b[0].g[i]->GetMu(); }), "product %zu available before its layer ran", i); mult(l); for (auto i : p.layer(l)) CHECK(U61::val(b[0].g[i]->GetMu()) == U61::sub(v[i], lam(i)), "layer %zu: mu of product %zu is not value minus mask", l, i); }
    output(); }
  void outputs(const Raw61& v) { for (size_t c_ = 0; c_ < p.clients; c_++) { auto o = p.ownerOutputs(c_); auto got = c(c_).GetOutputs(); CHECK(got.size() == o.size(), "client %zu: number of outputs", c_); for (size_t j = 0; j < o.size(); j++) CHECK(U61::val(got[j]) == v[o[j]], "client %zu output %zu differs from the circuit's value", c_, j); } }
  template <typename G> Raw61 gather(G f) { Raw61 s; for (size_t i = 0; i < n; i++) s.push_back(U61::val(f(i))); return s; }
};
// The polynomial through the n shares (points 1..n); its degree and values.
struct Shared { Raw61 poly; size_t deg1; explicit Shared(const Raw61& s) { Raw61 x; for (size_t i = 0; i < s.size(); i++) x.push_back(i + 1); poly = S61::interp(x, s); deg1 = S61::deg(poly); }
  h::u128 at(size_t j) const { return S61::ev(poly, U61::frm(-(long long)j)); }  // slot j
  size_t degree() const { return deg1 ? deg1 - 1 : 0; } };
inline tp::FF slotPoint(size_t j) { return U61::mk(U61::frm(-(long long)j)); }
