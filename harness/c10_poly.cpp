#include "field_util.hpp"
#include "scl/prg.h"
#include "scl/secret_sharing.h"
using namespace h;
template <unsigned B> void poly() {
  using U = FU<B>; using F = typename U::F; using V = scl::Vec<F>; using Po = scl::details::Polynomial<F>; const u128 P = U::P(); Rng r(seed * 37 + B); using Raw = std::vector<u128>;
  auto norm = [](Raw a) { while (!a.empty() && !a.back()) a.pop_back(); return a; };
  auto mk = [&](const Raw& a) { V v; for (auto x : a) v.Emplace(U::mk(x)); return Po::Create(v); };
  auto raw = [&](const Po& p) { Raw a; for (size_t i = 0; i <= p.Degree(); i++) a.push_back(U::val(p[i])); if (a.size() == 1 && !a[0]) a.clear(); return a; };
  auto gen = [&](size_t n) { Raw a(n); for (auto& x : a) x = r.below(3) ? r.next128() % P : r.below(2); if (n && r.below(3) == 0) for (size_t i = n - 1 - r.below(n); i < n; i++) a[i] = 0; return a; };
  auto ev = [&](const Raw& a, u128 x) { u128 s = 0, p = 1; for (auto c : a) { s = U::add(s, U::mul(c, p)); p = U::mul(p, x); } return s; };
  auto add = [&](Raw a, const Raw& b, bool neg) { a.resize(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < b.size(); i++) a[i] = neg ? U::sub(a[i], b[i]) : U::add(a[i], b[i]); return norm(a); };
  auto mul = [&](const Raw& a, const Raw& b) { if (a.empty() || b.empty()) return Raw{}; Raw c(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) c[i + j] = U::add(c[i + j], U::mul(a[i], b[j])); return norm(c); };
  for (unsigned n = 0; n < 9; n++) for (unsigned m = 0; m < 9; m++) for (unsigned it = 0; it < (thorough ? 12u : 3u); it++) { Raw a = gen(n), b = gen(m); if (it == 1 && n == m) { for (unsigned i = n / 2; i < n; i++) b[i] = a[i]; } if (it == 2 && n == m) for (unsigned i = n / 2; i < n; i++) b[i] = U::sub(0, a[i]); Po p = mk(a), q = mk(b); Raw na = norm(a), nb = norm(b);
    std::string d; for (auto x : a) d += s128(x) + " "; d += "| "; for (auto x : b) d += s128(x) + " ";
    SECTION("create") { casef("FF<%u> %s", B, d.c_str()); CHECK(raw(p) == na, "coefficients after removing leading zeros"); CHECK(p.Degree() == (na.empty() ? 0 : na.size() - 1), "Degree %zu", p.Degree()); CHECK(p.IsZero() == na.empty(), "IsZero"); CHECK(U::val(p.ConstantTerm()) == (na.empty() ? 0 : na[0]), "ConstantTerm"); CHECK(U::val(p.LeadingTerm()) == (na.empty() ? 0 : na.back()), "LeadingTerm"); std::string s = "g(y) = " + p[0].ToString(); for (size_t i = 1; i <= p.Degree(); i++) { s += " + " + p[i].ToString() + "y"; if (i > 1) s += "^" + std::to_string(i); } CHECK(p.ToString("g", "y") == s, "ToString %s", p.ToString("g", "y").c_str()); }
    SECTION("evaluate") { casef("FF<%u> %s", B, d.c_str()); for (u128 x : {(u128)0, (u128)1, P - 1, r.next128() % P}) CHECK(U::val(p.Evaluate(U::mk(x))) == ev(a, x), "Evaluate at %s", s128(x).c_str()); CHECK(raw(p) == na, "Evaluate modifies"); }
    SECTION("ring-ops") { casef("FF<%u> %s", B, d.c_str()); CHECK(raw(p.Add(q)) == add(na, nb, false), "Add"); CHECK(raw(p.Subtract(q)) == add(na, nb, true), "Subtract"); CHECK(raw(p.Multiply(q)) == mul(na, nb), "Multiply"); CHECK(raw(p) == na && raw(q) == nb, "operands modified"); for (auto z : {p.Add(q), p.Subtract(q), p.Multiply(q)}) CHECK(z.Degree() == 0 || z.LeadingTerm() != F(0), "result has a zero leading coefficient"); }
    SECTION("divide") { casef("FF<%u> %s", B, d.c_str()); if (nb.empty()) { CHECK(throws_as<std::invalid_argument>([&] { p.Divide(q); }), "division by the zero polynomial must throw"); } else { auto qr = p.Divide(q); Raw Q = raw(qr[0]), Rm = raw(qr[1]); CHECK(add(mul(Q, nb), Rm, false) == na, "p != quotient*d + remainder"); CHECK(Rm.empty() || Rm.size() < nb.size(), "remainder degree not below divisor degree"); CHECK(raw(p) == na && raw(q) == nb, "operands modified"); auto e = p.Multiply(q).Divide(q); CHECK(raw(e[0]) == na && e[1].IsZero(), "exact division"); } }
  }
  SECTION("constants") { casef("FF<%u>", B); Po z; CHECK(z.IsZero() && z.Degree() == 0 && U::val(z.Evaluate(F(7))) == 0, "default polynomial is not zero"); Po c(F(9)); CHECK(!c.IsZero() && c.Degree() == 0 && U::val(c.Evaluate(F(3))) == 9, "constant polynomial"); }
}
void run() { poly<61>(); poly<127>(); }
