#include "field_util.hpp"
#include "scl/prg.h"
using namespace h;
template <unsigned B> void mat() {
  using U = FU<B>; using F = typename U::F; using M = scl::Mat<F>; const u128 P = U::P(); Rng r(seed * 19 + B);
  struct R { size_t n, m; std::vector<u128> v; u128& at(size_t i, size_t j) { return v[i * m + j]; } bool operator==(const R& o) const { return n == o.n && m == o.m && v == o.v; } };
  auto gen = [&](size_t n, size_t m) { R x{n, m, std::vector<u128>(n * m)}; for (auto& e : x.v) e = r.below(4) ? r.next128() % P : (r.below(2) ? r.below(3) : P - 1 - r.below(2)); return x; };
  auto mk = [&](R x) { M a(x.n, x.m); for (size_t i = 0; i < x.n; i++) for (size_t j = 0; j < x.m; j++) a(i, j) = U::mk(x.at(i, j)); return a; };
  auto raw = [&](const M& a) { R x{a.Rows(), a.Cols(), {}}; for (size_t i = 0; i < x.n; i++) for (size_t j = 0; j < x.m; j++) x.v.push_back(U::val(a(i, j))); return x; };
  auto map2 = [&](R a, const R& b, auto f) { for (size_t i = 0; i < a.v.size(); i++) a.v[i] = f(a.v[i], b.v[i]); return a; };
  const std::pair<unsigned, unsigned> dims[] = {{1, 1}, {1, 2}, {2, 1}, {1, 5}, {5, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {4, 7}, {7, 4}, {8, 8}, {9, 16}, {16, 9}, {20, 3}, {65, 66}, {66, 65}, {2, 300}, {1, 4200}};
  for (auto [n, m] : dims) for (int it = 0; it < (n * m > 200 ? 1 : thorough ? 12 : 3); it++) {
    R a = gen(n, m), b = gen(n, m); M x = mk(a), y = mk(b); u128 k = r.next128() % P; F s = U::mk(k);
    SECTION("entrywise") { casef("FF<%u> %ux%u it=%d", B, n, m, it); CHECK(x.Rows() == n && x.Cols() == m, "shape"); CHECK(raw(x) == a, "stored entries");
      CHECK(raw(x.Add(y)) == map2(a, b, U::add), "Add"); CHECK(raw(x.Subtract(y)) == map2(a, b, U::sub), "Subtract"); CHECK(raw(x.MultiplyEntryWise(y)) == map2(a, b, U::mul), "MultiplyEntryWise"); R sc = a; for (auto& e : sc.v) e = U::mul(e, k); CHECK(raw(x.ScalarMultiply(s)) == sc, "ScalarMultiply"); CHECK(raw(x) == a && raw(y) == b, "operands modified");
      M t = x; CHECK(&t.AddInPlace(y) == &t && raw(t) == map2(a, b, U::add), "AddInPlace"); { M o = x; o.ScalarMultiplyInPlace(o(0, 0)); R os = a; for (auto& e : os.v) e = U::mul(e, a.v[0]); CHECK(raw(o) == os, "ScalarMultiplyInPlace by own entry"); o = x; o.AddInPlace(o); CHECK(raw(o) == map2(a, a, U::add), "AddInPlace(self)"); o = x; o.SubtractInPlace(o); CHECK(raw(o) == map2(a, a, U::sub), "SubtractInPlace(self)"); o = x; o.MultiplyEntryWiseInPlace(o); CHECK(raw(o) == map2(a, a, U::mul), "MultiplyEntryWiseInPlace(self)"); } t = x; CHECK(&t.SubtractInPlace(y) == &t && raw(t) == map2(a, b, U::sub), "SubtractInPlace"); t = x; CHECK(&t.MultiplyEntryWiseInPlace(y) == &t && raw(t) == map2(a, b, U::mul), "MultiplyEntryWiseInPlace"); t = x; CHECK(&t.ScalarMultiplyInPlace(s) == &t && raw(t) == sc, "ScalarMultiplyInPlace"); t = x; t.AddInPlace(t); CHECK(raw(t) == map2(a, a, U::add), "self AddInPlace"); t = x; t.SubtractInPlace(t); CHECK(raw(t) == map2(a, a, U::sub), "self SubtractInPlace"); }
    SECTION("multiply") for (unsigned q : {1u, 2u, 3u, 5u, 8u}) { R c = gen(m, q); M z = mk(c); casef("FF<%u> %ux%u * %ux%u it=%d", B, n, m, m, q, it); R w{n, q, std::vector<u128>(n * q, 0)}; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < q; j++) for (size_t l = 0; l < m; l++) w.at(i, j) = U::add(w.at(i, j), U::mul(a.at(i, l), c.at(l, j))); CHECK(raw(x.Multiply(z)) == w, "matrix product"); CHECK(raw(x) == a && raw(z) == c, "operands modified"); }
    SECTION("transpose-identity") { casef("FF<%u> %ux%u it=%d", B, n, m, it); R w{m, n, std::vector<u128>(n * m)}; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) w.at(j, i) = a.at(i, j); CHECK(raw(x.Transpose()) == w, "Transpose"); CHECK(raw(x) == a, "Transpose modifies"); CHECK(x.IsSquare() == (n == m), "IsSquare");
      M I = M::Identity(n); R id{n, n, std::vector<u128>(n * n, 0)}; for (size_t i = 0; i < n; i++) id.at(i, i) = 1; CHECK(raw(I) == id && I.IsIdentity(), "Identity"); CHECK(raw(I.Multiply(x)) == a && raw(x.Multiply(M::Identity(m))) == a, "identity product");
      for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { M t = I; t(i, j) = t(i, j) + F(1 + (int)r.below(3)); CHECK(!t.IsIdentity(), "IsIdentity misses entry %zu,%zu", i, j); if (i == j) { t(i, j) = F(0); CHECK(!t.IsIdentity(), "IsIdentity with zero diagonal"); } } if (n != m) { M t(n, m); for (size_t i = 0; i < std::min(n, m); i++) t(i, i) = F(1); CHECK(!t.IsIdentity(), "non-square identity"); } }
    SECTION("equality") { casef("FF<%u> %ux%u it=%d", B, n, m, it); CHECK(x.Equals(mk(a)), "equal matrices"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) { M t = x; t(i, j) += F(1); CHECK(!t.Equals(x) && !x.Equals(t), "difference at %zu,%zu missed", i, j); CHECK(raw(x) == a, "copy shares storage"); } M z(m, n); M zz(n, m); if (n != m) CHECK(!z.Equals(zz), "different shapes compare equal"); }
    SECTION("shape-errors") { casef("FF<%u> %ux%u it=%d", B, n, m, it); const std::pair<unsigned, unsigned> od[] = {{n + 1, m}, {n, m + 1}, {m, n}, {n * m, 1}, {1, n * m}}; for (auto [p, q] : od) { if (p == n && q == m) continue; M z = mk(gen(p, q)); M t = x;
#define MM(e) CHECK(throws_as<std::invalid_argument>([&] { e; }), #e " %ux%u with %ux%u must throw", n, m, p, q)
        MM((void)x.Add(z)); MM((void)x.Subtract(z)); MM((void)x.MultiplyEntryWise(z)); MM(t.AddInPlace(z)); MM(t.SubtractInPlace(z)); MM(t.MultiplyEntryWiseInPlace(z)); if (p != m) MM((void)x.Multiply(z)); else (void)x.Multiply(z); CHECK(raw(t) == a, "changed by a rejected operation"); if ((size_t)p * q != n * m) MM(t.Resize(p, q)); else { t.Resize(p, q); R w = a; w.n = p; w.m = q; CHECK(raw(t) == w, "Resize keeps row-major order"); } }
      CHECK(throws_as<std::invalid_argument>([&] { M(0, m); }), "0 rows"); CHECK(throws_as<std::invalid_argument>([&] { M(n, 0); }), "0 columns"); std::vector<F> fl; for (auto e : a.v) fl.push_back(U::mk(e)); CHECK(raw(M::FromVector(n, m, fl)) == a, "FromVector is row-major"); fl.push_back(F(1)); CHECK(throws_as<std::invalid_argument>([&] { M::FromVector(n, m, fl); }), "FromVector with a wrong length"); fl.pop_back(); fl.pop_back(); CHECK(throws_as<std::invalid_argument>([&] { M::FromVector(n, m, fl); }), "FromVector too short"); R z0{n, m, std::vector<u128>(n * m, 0)}; CHECK(raw(M(n, m)) == z0, "new matrix not zero"); }
    SECTION("random") { u8 sd[16]; for (auto& c : sd) c = (u8)r.next(); casef("FF<%u> %ux%u seed=%s", B, n, m, hex(sd, 16).c_str()); scl::PRG p(sd), q(sd); M v = M::Random(n, m, p); auto buf = q.Next(n * m * F::ByteSize()); CHECK(v.Rows() == n && v.Cols() == m, "Random shape"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) CHECK(v(i, j) == F::Read(buf.data() + (i * m + j) * F::ByteSize()), "Random entry %zu,%zu is not the next piece of the stream", i, j); CHECK(p.Counter() == q.Counter(), "draws consumed"); }
  }
}
void run() { mat<61>(); mat<127>(); }
