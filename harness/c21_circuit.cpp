#include "tp_util.hpp"
using namespace h;
static size_t cdiv(size_t a, size_t b) { return a == 0 ? 1 : (a + b - 1) / b; }
void run() {
  Rng r(seed * 83);
  SECTION("metrics") for (int it = 0; it < (thorough ? 1500 : 200); it++) { size_t cl = 1 + r.below(5), k = 1 + r.below(5); Plan p = randomPlan(r, cl, k); casef("%.3000s", p.str().c_str()); Built b = build(p); auto& c = *b.c; size_t ib = 0, ob = 0, mb = 0, w = 0; for (size_t i = 0; i < cl; i++) { ib += cdiv(p.ownerInputs(i).size(), k); ob += cdiv(p.ownerOutputs(i).size(), k); } for (size_t l = 0; l < p.layers; l++) { size_t s = p.layer(l).size(); mb += cdiv(s, k); w = std::max(w, s); }
    CHECK(c.GetNInputs() == p.of('I').size() && c.GetNOutputs() == p.of('O').size() && c.GetSize() == p.of('M').size(), "gate counts"); CHECK(c.GetDepth() == p.layers, "depth %zu want %zu", c.GetDepth(), p.layers); CHECK(c.GetWidth() == w, "width %zu want %zu", c.GetWidth(), w); CHECK(c.GetNInputBatches() == ib, "input batches %zu want %zu", c.GetNInputBatches(), ib); CHECK(c.GetNOutputBatches() == ob, "output batches"); CHECK(c.GetNMultBatches() == mb, "mult batches %zu want %zu", c.GetNMultBatches(), mb);
    for (size_t i = 0; i < cl; i++) { auto o = p.ownerInputs(i); for (size_t j = 0; j < o.size(); j++) { CHECK(c.GetInputGate(i, j) == b.g[o[j]], "input gate (%zu,%zu)", i, j); CHECK(c.GetInputGate(i, j)->GetOwner() == i, "owner"); } auto q = p.ownerOutputs(i); for (size_t j = 0; j < q.size(); j++) { CHECK(c.GetOutputGate(i, j) == b.g[q[j]] && c.GetOutputGate(i, j)->GetOwner() == i, "output gate (%zu,%zu)", i, j); CHECK(c.GetOutputGate(i, j)->GetLeft() == b.g[p.ops[q[j]].b], "output gate source"); } }
    auto I = p.of('I'), O = p.of('O'); for (size_t j = 0; j < I.size(); j++) CHECK(c.GetInputGate(j) == b.g[I[j]], "flat input %zu", j); for (size_t j = 0; j < O.size(); j++) CHECK(c.GetOutputGate(j) == b.g[O[j]], "flat output %zu", j); for (size_t l = 0; l < p.layers; l++) { auto m = p.layer(l); for (size_t j = 0; j < m.size(); j++) { CHECK(c.GetMultGate(l, j) == b.g[m[j]], "mult gate (%zu,%zu)", l, j); CHECK(b.g[m[j]]->GetLeft() == b.g[p.ops[m[j]].a] && b.g[m[j]]->GetRight() == b.g[p.ops[m[j]].b], "operands of product %zu", m[j]); } } }
  SECTION("layers") for (size_t k = 1; k < 7; k++) for (size_t m = 0; m < 20; m++) { casef("k=%zu gates=%zu", k, m); auto src = std::make_shared<tp::InputGate>(3); tp::MultLayer ml(k); tp::InputLayer il(3, k); tp::OutputLayer ol(3, k); std::vector<std::shared_ptr<tp::MultGate>> mg; std::vector<std::shared_ptr<tp::InputGate>> ig; std::vector<std::shared_ptr<tp::OutputGate>> og; for (size_t i = 0; i < m; i++) { mg.push_back(std::make_shared<tp::MultGate>(src, src)); ml.Append(mg[i]); ig.push_back(std::make_shared<tp::InputGate>(3)); il.Append(ig[i]); og.push_back(std::make_shared<tp::OutputGate>(3, src)); ol.Append(og[i]); } ml.Close(); il.Close(); ol.Close(); size_t nb = cdiv(m, k); CHECK(ml.GetSize() == nb && il.GetSize() == nb && ol.GetSize() == nb, "number of batches"); tp::FF z(0);
    for (size_t b = 0; b < nb; b++) { auto x = ml.GetMultBatch(b); auto y = il.GetInputBatch(b); auto w = ol.GetOutputBatch(b); CHECK(!x->HasRoom() && !y->HasRoom() && !w->HasRoom(), "batch %zu not full after Close", b); for (size_t j = 0; j < k; j++) { size_t g = b * k + j; if (g < m) { CHECK(x->GetMultGate(j) == mg[g] && y->GetInputGate(j) == ig[g] && w->GetOutputGate(j) == og[g], "batch %zu slot %zu is not gate %zu", b, j, g); CHECK(!x->GetMultGate(j)->IsPadding() && !y->GetInputGate(j)->IsPadding(), "real gate marked as padding"); } else { auto a = x->GetMultGate(j); CHECK(a->IsPadding() && a->GetMu() == z && a->GetDummyLambda() == z && a->GetLeft()->GetMu() == z && a->GetRight()->GetMu() == z && a->GetLeft()->GetDummyLambda() == z, "padding product"); auto e = y->GetInputGate(j); CHECK(e->IsPadding() && e->GetMu() == z && e->GetDummyLambda() == z && e->GetOwner() == 3, "padding input"); auto o = w->GetOutputGate(j); CHECK(o->IsPadding() && o->GetMu() == z && o->GetDummyLambda() == z && o->GetOwner() == 3, "padding output"); } }
      CHECK(throws_as<std::invalid_argument>([&] { x->Append(std::make_shared<tp::MultGate>(src, src)); }) && throws_as<std::invalid_argument>([&] { y->Append(std::make_shared<tp::InputGate>(3)); }) && throws_as<std::invalid_argument>([&] { w->Append(std::make_shared<tp::OutputGate>(3, src)); }), "a full batch accepts another gate"); }
    tp::InputBatch ib(2, k); tp::OutputBatch ob(2, k); CHECK(throws_as<std::invalid_argument>([&] { ib.Append(std::make_shared<tp::InputGate>(3)); }) && throws_as<std::invalid_argument>([&] { ob.Append(std::make_shared<tp::OutputGate>(1, src)); }), "gate of another owner accepted"); CHECK(throws_as<std::invalid_argument>([&] { il.Append(std::make_shared<tp::InputGate>(2)); }), "gate of another owner accepted by the layer"); }
  SECTION("order") { casef("SetNetwork before closing, correlator before network"); Rng q(3); auto nets = scl::Network::CreateFullInMemory(3); tp::Circuit c(3, 2); auto x = c.Input(0); c.CloseInputs(); c.Mult(x, x); c.LastLayer(); auto nw = std::make_shared<scl::Network>(nets[0]); CHECK(throws_as<std::invalid_argument>([&] { c.SetNetwork(nw, 0); }), "network accepted before the outputs are closed"); c.Output(0, x); c.CloseOutputs(); CHECK(throws_as<std::invalid_argument>([&] { c.GenCorrelator(); }), "correlator accepted without a network"); c.SetNetwork(nw, 0); c.GenCorrelator(); c.SetInputs({tp::FF(1)}); CHECK(throws_as<std::invalid_argument>([&] { c.SetInputs({}); }) && throws_as<std::invalid_argument>([&] { c.SetInputs({tp::FF(1), tp::FF(2)}); }), "wrong number of inputs accepted"); }
  SECTION("from-config") for (int it = 0; it < (thorough ? 1500 : 300); it++) { tp::CircuitConfig cfg; cfg.n_parties = 1 + r.below(5); cfg.inp_gates.assign(cfg.n_parties + (r.below(10) == 0), 0); cfg.out_gates.assign(cfg.n_parties + (r.below(10) == 0), 0); for (auto& x : cfg.inp_gates) x = r.below(4); for (auto& x : cfg.out_gates) x = r.below(4); cfg.inp_gates[0]++; size_t ni = cfg.ComputeNumberOfInputs(), no = cfg.ComputeNumberOfOutputs(), ei = 0, eo = 0; for (auto x : cfg.inp_gates) ei += x; for (auto x : cfg.out_gates) eo += x; cfg.width = r.below(6) ? ni * (1 + r.below(3)) : ni * 2 + 2; cfg.depth = 1 + r.below(it % 4 ? 4 : 9); cfg.batch_size = 1 + r.below(5); casef("parties=%zu inputs=%zu/%zu outputs=%zu/%zu width=%zu depth=%zu k=%zu", cfg.n_parties, ni, cfg.inp_gates.size(), no, cfg.out_gates.size(), cfg.width, cfg.depth, cfg.batch_size); CHECK(ni == ei && no == eo, "input/output totals");
    bool ok = cfg.inp_gates.size() == cfg.n_parties && cfg.out_gates.size() == cfg.n_parties && cfg.width % ni == 0 && ni % 2 == 0; if (!ok) { CHECK(throws_as<std::invalid_argument>([&] { (void)tp::Circuit::FromConfig(cfg); }), "invalid configuration accepted"); continue; }
    auto c = tp::Circuit::FromConfig(cfg); CHECK(c.GetDepth() == cfg.depth && c.GetWidth() == cfg.width && c.GetSize() == cfg.width * cfg.depth && c.GetNInputs() == ni && c.GetNOutputs() == no, "shape"); CHECK(c.GetNMultBatches() == cfg.depth * cdiv(cfg.width, cfg.batch_size), "mult batches"); std::vector<tp::FF> in; Raw61 v; for (size_t i = 0; i < ni; i++) { v.push_back(r.next128() % U61::P()); in.push_back(U61::mk(v[i])); } c.SetClearInputsFlat(in); auto cur = Raw61(cfg.width); for (size_t d = 0; d < cfg.depth; d++) { Raw61 nx(cfg.width); for (size_t i = 0; i < cfg.width / 2; i++) { auto x = d ? cur[2 * i] : v[(2 * i) % ni], y = d ? cur[2 * i + 1] : v[(2 * i + 1) % ni]; auto s = U61::add(x, y); nx[2 * i] = U61::mul(x, s); nx[2 * i + 1] = U61::mul(y, s); } cur = nx; } auto o = c.GetClearOutputsFlat(); CHECK(o.size() == no, "outputs"); for (size_t j = 0; j < no; j++) CHECK(U61::val(o[j]) == cur[j % cfg.width], "output %zu", j); }
}
