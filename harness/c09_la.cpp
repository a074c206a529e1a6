#include "field_util.hpp"
#include "scl/prg.h"
#include "scl/secret_sharing.h"
#include "scl/math/la.h"
using namespace h;
template <unsigned B> void la() {
  using U = FU<B>; using F = typename U::F; using M = scl::Mat<F>; using V = scl::Vec<F>; const u128 P = U::P(); Rng r(seed * 29 + B);
  using R = std::vector<std::vector<u128>>;
  auto rawm = [&](const M& a) { R x(a.Rows(), std::vector<u128>(a.Cols())); for (size_t i = 0; i < a.Rows(); i++) for (size_t j = 0; j < a.Cols(); j++) x[i][j] = U::val(a(i, j)); return x; };
  auto mkm = [&](const R& x) { M a(x.size(), x[0].size()); for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < x[0].size(); j++) a(i, j) = U::mk(x[i][j]); return a; };
  // independent RREF
  auto rref = [&](R a) { size_t n = a.size(), m = a[0].size(), row = 0; for (size_t c = 0; c < m && row < n; c++) { size_t p = row; while (p < n && !a[p][c]) p++; if (p == n) continue; std::swap(a[p], a[row]); u128 iv = U::inv(a[row][c]); for (auto& e : a[row]) e = U::mul(e, iv); for (size_t i = 0; i < n; i++) if (i != row && a[i][c]) { u128 f = a[i][c]; for (size_t j = 0; j < m; j++) a[i][j] = U::sub(a[i][j], U::mul(f, a[row][j])); } row++; } return a; };
  auto small = [&]() { return r.below(3) ? r.below(3) : r.next128() % P; };
  auto structured = [&](size_t n, size_t m, size_t rank) { R a(n, std::vector<u128>(m, 0)); R l(n, std::vector<u128>(rank)), q(rank, std::vector<u128>(m)); for (auto& x : l) for (auto& e : x) e = small(); for (auto& x : q) for (auto& e : x) e = small(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) for (size_t k = 0; k < rank; k++) a[i][j] = U::add(a[i][j], U::mul(l[i][k], q[k][j])); return a; };
  unsigned reps = thorough ? 40 : 6;
  SECTION("row-reduce") for (unsigned n = 1; n <= 6; n++) for (unsigned m = 1; m <= 7; m++) for (unsigned it = 0; it < reps; it++) { R a = it % 2 ? structured(n, m, r.below(std::min(n, m) + 1)) : structured(n, m, std::min(n, m)); if (it % 3 == 0) for (auto& x : a) if (!r.below(3)) x.assign(m, 0); M x = mkm(a); std::string t = x.ToString(); casef("FF<%u> RowReduceInPlace %s", B, t.substr(0, 1500).c_str()); scl::details::RowReduceInPlace(x); CHECK(rawm(x) == rref(a), "result is not the reduced row echelon form, got %s", x.ToString().substr(0, 800).c_str()); }
  SECTION("solve") for (unsigned n = 1; n <= 6; n++) for (unsigned m = 1; m <= 6; m++) for (unsigned it = 0; it < 2 * reps; it++) { R a = structured(n, m, it % 3 == 0 ? r.below(std::min(n, m) + 1) : std::min(n, m)); std::vector<u128> b(n, 0), x0(m); bool forced = it % 2; for (auto& e : x0) e = small(); if (forced) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) b[i] = U::add(b[i], U::mul(a[i][j], x0[j])); else for (auto& e : b) e = small();
    R aug = a; for (size_t i = 0; i < n; i++) aug[i].push_back(b[i]); R e = rref(aug); size_t rk = 0; bool cons = true; for (auto& row : e) { bool z = true; for (size_t j = 0; j < m; j++) z &= row[j] == 0; if (!z) rk++; else if (row[m]) cons = false; } bool uniq = cons && rk == m;
    M A = mkm(a); V bb(n), x(m); for (size_t i = 0; i < n; i++) bb[i] = U::mk(b[i]); casef("FF<%u> solve %s b=%s", B, A.ToString().substr(0, 1200).c_str(), bb.ToString().substr(0, 400).c_str()); bool got = scl::details::SolveLinearSystem(x, A, bb); CHECK(got == uniq, "SolveLinearSystem says %d, a unique solution %s", got, uniq ? "exists" : "does not exist"); if (uniq) { CHECK(x.Size() == m, "size of the solution"); for (size_t j = 0; j < m; j++) CHECK(U::val(x[j]) == e[j][m], "x[%zu] wrong", j); } CHECK(rawm(A) == a, "A modified");
    M ra = mkm(e); CHECK(scl::details::HasSolution(ra, false) == cons, "HasSolution(any)"); CHECK(scl::details::HasSolution(ra, true) == uniq, "HasSolution(unique)"); }
  SECTION("size-mismatch") for (unsigned n = 1; n < 5; n++) for (unsigned k = 0; k < 7; k++) if (k != n) { casef("%u rows, b of size %u", n, k); M A(n, n); V b(k), x(n); CHECK(throws_as<std::invalid_argument>([&] { scl::details::SolveLinearSystem(x, A, b); }), "must throw"); }
  SECTION("augment-inverse") for (unsigned n = 1; n <= 7; n++) for (unsigned it = 0; it < reps; it++) { scl::PRG prg; u8 sd[16]; for (auto& c : sd) c = (u8)r.next(); scl::PRG p(sd); M A = M::Random(n, n, p), Bm = M::Random(n, 1 + r.below(5), p); casef("FF<%u> n=%u seed=%s", B, n, hex(sd, 16).c_str()); auto g = scl::details::CreateAugmentedMatrix(A, Bm); CHECK(g.Rows() == n && g.Cols() == n + Bm.Cols(), "shape of [A|B]"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < g.Cols(); j++) CHECK(g(i, j) == (j < n ? A(i, j) : Bm(i, j - n)), "[A|B] entry %zu,%zu", i, j); auto ai = scl::details::CreateAugmentedMatrix(A, M::Identity(n)); scl::details::RowReduceInPlace(ai); M inv(n, n); bool idl = true; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { inv(i, j) = ai(i, n + j); idl &= U::val(ai(i, j)) == (i == j); } if (idl) CHECK(A.Multiply(inv).IsIdentity(), "inverse by row reduction"); }
}
void run() { la<61>(); la<127>(); }
