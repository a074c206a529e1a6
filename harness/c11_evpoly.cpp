#include "field_util.hpp"
#include "scl/prg.h"
#include "scl/secret_sharing.h"
using namespace h;
template <unsigned B> void ep() {
  using U = FU<B>; using F = typename U::F; using V = scl::Vec<F>; using E = scl::details::EvPolynomial<F>; const u128 P = U::P(); Rng r(seed * 41 + B); using Raw = std::vector<u128>;
  auto mkv = [&](const Raw& a) { V v; for (auto x : a) v.Emplace(U::mk(x)); return v; };
  auto ev = [&](const Raw& a, u128 x) { u128 s = 0; for (size_t i = a.size(); i-- > 0;) s = U::add(U::mul(s, x), a[i]); return s; };
  auto rawv = [&](const V& v) { Raw o; for (size_t i = 0; i < v.Size(); i++) o.push_back(U::val(v[i])); return o; };
  for (unsigned n = 1; n < (thorough ? 20u : 11u); n++) for (unsigned it = 0; it < 6; it++) { Raw co(n), xs, ys; for (auto& c : co) c = r.next128() % P; if (it == 0) for (unsigned i = 0; i < n; i++) xs.push_back(i); if (it == 1) for (unsigned i = 0; i < n; i++) xs.push_back(U::sub(0, i)); if (it == 2) for (unsigned i = 0; i < n; i++) xs.push_back(P - 1 - 2 * i); while (xs.size() < n) { u128 x = it == 3 ? r.below(50) : r.next128() % P; bool d = false; for (auto y : xs) d |= x == y; if (!d) xs.push_back(x); } for (auto x : xs) ys.push_back(ev(co, x)); if (it == 5) { for (auto& y : ys) y = 0; co.assign(n, 0); }
    E e(mkv(xs), mkv(ys)); std::string d; for (unsigned i = 0; i < n; i++) d += "(" + s128(xs[i]) + "," + s128(ys[i]) + ") "; d = d.substr(0, 1500);
    SECTION("evaluate") { casef("FF<%u> points %s", B, d.c_str()); for (unsigned i = 0; i < n; i++) CHECK(U::val(e.Evaluate(U::mk(xs[i]))) == ys[i], "does not pass through point %u", i); Raw pts{0, 1, P - 1, 2, n, n + 1}; for (int i = 0; i < 4; i++) pts.push_back(r.next128() % P); for (auto x : pts) CHECK(U::val(e.Evaluate(U::mk(x))) == ev(co, x), "value at %s", s128(x).c_str()); V o = e.Evaluate(mkv(pts)); CHECK(o.Size() == pts.size(), "vector evaluation size"); for (size_t i = 0; i < pts.size(); i++) CHECK(U::val(o[i]) == ev(co, pts[i]), "vector evaluation entry %zu", i); CHECK(e.Evaluate(V()).Size() == 0, "empty evaluation"); }
    SECTION("accessors") { casef("FF<%u> points %s", B, d.c_str()); CHECK(e.Degree() == n - 1, "Degree"); CHECK(rawv(e.GetX()) == xs && rawv(e.GetY()) == ys, "GetX/GetY"); CHECK(U::val(e.GetFirstPoint()) == xs[0], "GetFirstPoint"); for (unsigned i = 0; i < n; i++) CHECK(U::val(e[i]) == ys[i], "operator[]"); CHECK(e.IsZero() == (n == 1 && ys[0] == 0), "IsZero"); E w = e; w[n - 1] = U::mk(U::add(ys[n - 1], 1)); Raw y2 = ys; y2[n - 1] = U::add(ys[n - 1], 1); CHECK(rawv(w.GetY()) == y2 && rawv(e.GetY()) == ys, "element write"); }
    SECTION("add-subtract") { casef("FF<%u> points %s", B, d.c_str()); Raw c2(n), y2; for (auto& c : c2) c = r.next128() % P; for (auto x : xs) y2.push_back(ev(c2, x)); E g(mkv(xs), mkv(y2)); E s = e.Add(g), t = e.Subtract(g); for (u128 x : {(u128)0, (u128)17, r.next128() % P}) { CHECK(U::val(s.Evaluate(U::mk(x))) == U::add(ev(co, x), ev(c2, x)), "Add"); CHECK(U::val(t.Evaluate(U::mk(x))) == U::sub(ev(co, x), ev(c2, x)), "Subtract"); } CHECK(rawv(s.GetX()) == xs, "Add changes the points"); Raw x3 = xs; x3[r.below(n)] = (u128)123456789 + r.below(1000); if (x3 != xs) { E bad(mkv(x3), mkv(y2)); CHECK(throws_as<std::invalid_argument>([&] { (void)e.Add(bad); }), "Add with different points"); CHECK(throws_as<std::invalid_argument>([&] { (void)e.Subtract(bad); }), "Subtract with different points"); } }
    SECTION("constructors") { casef("FF<%u> points %s", B, d.c_str()); Raw bad = xs; bad.push_back(424242); CHECK(throws_as<std::invalid_argument>([&] { E(mkv(bad), mkv(ys)); }), "more points than values"); CHECK(throws_as<std::invalid_argument>([&] { E(mkv(xs), mkv(bad)).Degree(); }), "more values than points"); u128 st = r.below(2) ? r.next128() % P : P - 1 - r.below(n); E c(U::mk(st), mkv(ys)); Raw xw; for (unsigned i = 0; i < n; i++) xw.push_back(U::add(st, i)); CHECK(rawv(c.GetX()) == xw && rawv(c.GetY()) == ys, "consecutive points from a start"); E z(mkv(ys)); Raw x0; for (unsigned i = 0; i < n; i++) x0.push_back(i); CHECK(rawv(z.GetX()) == x0 && rawv(z.GetY()) == ys, "points 0,1,2,..."); }
  }
  SECTION("degenerate") { casef("FF<%u>", B); V em; CHECK(throws_as<std::invalid_argument>([&] { E x(em, em); }), "empty"); CHECK(throws_as<std::invalid_argument>([&] { E x(F(3), em); }), "empty from start"); CHECK(throws_as<std::invalid_argument>([&] { E x(em); }), "empty values"); E z; CHECK(z.IsZero() && z.Evaluate(F(5)) == F(0), "default is not zero"); E c(F(8)); CHECK(c.Evaluate(F(0)) == F(8) && c.Evaluate(F(11)) == F(8) && c.Degree() == 0, "constant"); E dup(V{F(2), F(2)}, V{F(1), F(3)}); CHECK(throws([&] { (void)dup.Evaluate(F(1)); }), "evaluation with coinciding points must throw"); }
}
void run() { ep<61>(); ep<127>(); }
