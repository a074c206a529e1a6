#include "tp_util.hpp"
using namespace h;
void run() {
  Rng r(seed * 89);
  SECTION("value") for (int it = 0; it < (thorough ? 3000 : 400); it++) { size_t cl = 1 + r.below(5), k = 1 + r.below(5); Plan p = randomPlan(r, cl, k); auto in = randomInputs(r, p); auto v = p.eval(in); casef("%.3000s", p.str().c_str()); Built b = build(p); auto& c = *b.c; std::vector<std::vector<tp::FF>> per(cl); std::vector<tp::FF> flat; for (size_t i = 0; i < cl; i++) for (auto o : p.ownerInputs(i)) { per[i].push_back(U61::mk(in[o])); flat.push_back(U61::mk(in[o])); } if (it % 2) c.SetClearInputs(per); else c.SetClearInputsFlat(flat); std::vector<std::vector<tp::FF>> o; std::vector<tp::FF> f; if (it % 4 < 2) { o = c.GetClearOutputs(); f = c.GetClearOutputsFlat(); } else { f = c.GetClearOutputsFlat(); o = c.GetClearOutputs(); } CHECK(o.size() == cl, "clients"); for (size_t i = 0; i < cl; i++) { auto q = p.ownerOutputs(i); CHECK(o[i].size() == q.size(), "outputs of %zu", i); for (size_t j = 0; j < q.size(); j++) CHECK(U61::val(o[i][j]) == v[q[j]], "output %zu of client %zu", j, i); } auto O = p.of('O'); CHECK(f.size() == O.size(), "flat outputs"); for (size_t j = 0; j < O.size(); j++) CHECK(U61::val(f[j]) == v[O[j]], "flat output %zu", j); for (size_t g = 0; g < b.g.size(); g++) { CHECK(U61::val(b.g[g]->GetClear()) == v[g], "gate %zu", g); CHECK(b.g[g]->IsEvaluated(), "gate %zu not marked as evaluated", g); } }
  SECTION("errors") for (int it = 0; it < (thorough ? 300 : 60); it++) { size_t cl = 1 + r.below(4); Plan p = randomPlan(r, cl, 1 + r.below(3)); casef("%.3000s", p.str().c_str()); Built b = build(p); auto& c = *b.c; for (auto i : p.of('I')) CHECK(throws_as<std::invalid_argument>([&] { (void)b.g[i]->GetClear(); }), "unset input evaluated"); std::vector<std::vector<tp::FF>> per(cl); for (size_t i = 0; i < cl; i++) per[i].assign(p.ownerInputs(i).size(), tp::FF(1)); auto a = per; a.emplace_back(); CHECK(throws_as<std::invalid_argument>([&] { c.SetClearInputs(a); }), "too many clients accepted"); a = per; a.pop_back(); CHECK(throws_as<std::invalid_argument>([&] { c.SetClearInputs(a); }), "too few clients accepted"); size_t i = r.below(cl); a = per; a[i].push_back(tp::FF(2)); CHECK(throws_as<std::invalid_argument>([&] { c.SetClearInputs(a); }), "too many inputs accepted"); if (per[i].size()) { a = per; a[i].pop_back(); CHECK(throws_as<std::invalid_argument>([&] { c.SetClearInputs(a); }), "too few inputs accepted"); } }
}
