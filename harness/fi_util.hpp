#pragma once
#include "tp_util.hpp"
inline Plan fiplan(h::Rng& r, size_t& n, size_t& k, size_t& t, bool empty, size_t size = 0) { k = 1 + r.below(h::thorough ? 5 : 4); t = r.below(2 * k - 1); if (r.below(2)) t = 2 * k - 2; n = t + 2 * (k - 1) + 1; return randomPlan(r, 1 + r.below(n), k, empty, size); }
// first real gate of each non-empty product batch, and batches per owner
inline std::vector<std::vector<size_t>> multBatches(const Plan& p) { std::vector<std::vector<size_t>> o; for (size_t l = 0; l < p.layers; l++) { auto m = p.layer(l); for (size_t i = 0; i < m.size(); i += p.k) o.emplace_back(m.begin() + i, m.begin() + std::min(m.size(), i + p.k)); } return o; }
template <typename M, typename G> auto* findBatch(M& m, G first) { for (auto& kv : m) if (first(kv.first)) return &kv; return (decltype(&*m.begin()))nullptr; }
