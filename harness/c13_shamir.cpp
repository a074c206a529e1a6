#include "ss_util.hpp"
#include <algorithm>
#include <set>
using namespace h;
template <unsigned B> void sh() {
  using S = SU<B>; using U = FU<B>; using F = typename U::F; using V = scl::Vec<F>; using Raw = typename S::Raw; const u128 P = U::P(); Rng r(seed * 47 + B);
  auto alphasOf = [&](const V& a) { return S::rawv(a); };
  SECTION("create") for (unsigned t = 1; t < 9; t++) for (unsigned n : {t, t + 1, 2 * t + 1, 3 * t + 1, 3 * t + 4}) for (int it = 0; it < (thorough ? 10 : 3); it++) { u8 sd[16]; mkseed(r, sd); u128 s = it ? r.next128() % P : 0; casef("FF<%u> t=%u n=%u secret=%s seed=%s", B, t, n, s128(s).c_str(), hex(sd, 16).c_str()); scl::PRG p(sd), q(sd); auto x = scl::CreateShamirShares(U::mk(s), n, t, p); CHECK(x.Size() == n, "number of shares"); auto po = scl::details::CreateShamirSharePolynomial(U::mk(s), t, q); CHECK(po.Degree() == t, "sharing polynomial degree %zu want %u", po.Degree(), t); CHECK(U::val(po.ConstantTerm()) == s, "constant term is not the secret"); std::set<std::string> cs; for (unsigned i = 1; i <= t; i++) cs.insert(po[i].ToString()); CHECK(cs.size() == t, "coefficients repeat"); for (unsigned i = 0; i < n; i++) CHECK(x[i] == po.Evaluate(F((int)i + 1)), "share %u is not the polynomial at %u", i, i + 1);
    if (n > t) { Raw xs, ys; for (unsigned i = 0; i < n; i++) { xs.push_back(i + 1); ys.push_back(U::val(x[i])); } Raw c = S::interp(xs, ys); CHECK(S::deg(c) <= t + 1 && c[0] == s, "shares are not on a degree-t polynomial through the secret"); CHECK(n <= t + 0 || c[t] != 0 , "effective degree below t"); }
    scl::PRG p2(sd); u128 s2 = U::add(s, 1 + r.below(1000)); auto x2 = scl::CreateShamirShares(U::mk(s2), n, t, p2); for (unsigned i = 0; i < n; i++) CHECK(U::sub(U::val(x2[i]), U::val(x[i])) == U::sub(s2, s), "masking randomness depends on the secret"); auto x3 = scl::CreateShamirShares(U::mk(s), n, t, p); unsigned same = 0; for (unsigned i = 0; i < n; i++) same += x3[i] == x[i]; CHECK(!same, "randomness reused by the next sharing");
    Raw al; while (al.size() < n) { u128 a = r.next128() % P; if (a && std::find(al.begin(), al.end(), a) == al.end()) al.push_back(a); } auto z = scl::CreateShamirShares(po, S::mkv(al)); CHECK(z.Size() == n, "custom points"); for (unsigned i = 0; i < n; i++) CHECK(z[i] == po.Evaluate(U::mk(al[i])), "share at a chosen point"); V ca = scl::CanonicalAlphas<F>(n); for (unsigned i = 0; i < n; i++) CHECK(U::val(ca[i]) == i + 1, "canonical point %u", i); }
  SECTION("passive") for (unsigned t = 1; t < 8; t++) for (int it = 0; it < (thorough ? 20 : 5); it++) { unsigned n = t + 1 + r.below(4); u8 sd[16]; mkseed(r, sd); scl::PRG p(sd); u128 s = r.next128() % P; auto po = scl::details::CreateShamirSharePolynomial(U::mk(s), t, p); Raw al; while (al.size() < n) { u128 a = it % 2 ? r.next128() % P : 1 + r.below(40); if (a && std::find(al.begin(), al.end(), a) == al.end()) al.push_back(a); } V A = S::mkv(al); auto x = scl::CreateShamirShares(po, A); u128 pos = it % 3 == 0 ? 0 : it % 3 == 1 ? al[r.below(n)] : r.next128() % P; casef("FF<%u> t=%u n=%u seed=%s pos=%s", B, t, n, hex(sd, 16).c_str(), s128(pos).c_str()); CHECK(scl::ReconstructShamirPassive(x, A, U::mk(pos), t) == po.Evaluate(U::mk(pos)), "reconstruction at a position from arbitrary points"); CHECK(scl::ReconstructShamirPassive(x, A, F(0), t) == U::mk(s), "reconstruction of the secret"); auto y = scl::CreateShamirShares(U::mk(s), n, t, p); CHECK(scl::ReconstructShamirPassive(y, t) == U::mk(s), "default points");
    V few(x.begin(), x.begin() + t), fa(A.begin(), A.begin() + t); CHECK(throws_as<std::invalid_argument>([&] { (void)scl::ReconstructShamirPassive(few, A, F(0), t); }), "t shares accepted"); CHECK(throws_as<std::invalid_argument>([&] { (void)scl::ReconstructShamirPassive(x, fa, F(0), t); }), "t points accepted"); CHECK(throws_as<std::invalid_argument>([&] { (void)scl::ReconstructShamirPassive(few, t); }), "t shares accepted (default points)"); }
  SECTION("detect") for (unsigned t = 1; t < 7; t++) for (int it = 0; it < (thorough ? 40 : 10); it++) { unsigned n = 2 * t + 1 + r.below(3); u8 sd[16]; mkseed(r, sd); scl::PRG p(sd); u128 s = r.next128() % P; auto x = scl::CreateShamirShares(U::mk(s), n, t, p); casef("FF<%u> t=%u n=%u seed=%s", B, t, n, hex(sd, 16).c_str()); CHECK(scl::ReconstructShamir(x, t) == U::mk(s), "honest shares"); V A = scl::CanonicalAlphas<F>(n); auto po = S::interp(S::rawv(A), S::rawv(x)); u128 pos = r.next128() % P; CHECK(U::val(scl::ReconstructShamir(x, A, U::mk(pos), t)) == S::ev(po, pos), "honest shares at a position"); unsigned e = 1 + r.below(t); std::set<unsigned> bad; while (bad.size() < e) bad.insert(it % 3 == 0 ? r.below(t + 1) : it % 3 == 1 && e <= t ? t + 1 + r.below(t) : r.below(2 * t + 1)); V y = x; for (auto b : bad) y[b] += U::mk(1 + r.next128() % (P - 1)); std::string bs; for (auto b : bad) bs += std::to_string(b) + ","; casef("FF<%u> t=%u n=%u seed=%s corrupted=%s", B, t, n, hex(sd, 16).c_str(), bs.c_str()); CHECK(throws_as<std::logic_error>([&] { (void)scl::ReconstructShamir(y, t); }) && !throws_as<std::invalid_argument>([&] { (void)scl::ReconstructShamir(y, t); }), "between 1 and t corrupted shares not detected"); V few(x.begin(), x.begin() + 2 * t); CHECK(throws_as<std::invalid_argument>([&] { (void)scl::ReconstructShamir(few, t); }), "2t shares accepted"); V fa(A.begin(), A.begin() + 2 * t); CHECK(throws_as<std::invalid_argument>([&] { (void)scl::ReconstructShamir(x, fa, F(0), t); }), "2t points accepted"); }
  SECTION("robust") for (unsigned t = 1; t < (thorough ? 6u : 5u); t++) for (int it = 0; it < (thorough ? 25 : 8); it++) for (unsigned e = 0; e <= t; e++) { unsigned n = 3 * t + 1 + (it % 4 == 3 ? r.below(2) : 0); u8 sd[16]; mkseed(r, sd); scl::PRG p(sd); u128 s = r.next128() % P; auto po = scl::details::CreateShamirSharePolynomial(U::mk(s), t, p); Raw al; while (al.size() < n) { u128 a = it % 2 ? r.next128() % P : al.size() + 1; if (a && std::find(al.begin(), al.end(), a) == al.end()) al.push_back(a); } V A = S::mkv(al); auto x = scl::CreateShamirShares(po, A); std::set<unsigned> bad; while (bad.size() < e) bad.insert(r.below(3 * t + 1)); std::string bs; for (auto b : bad) { x[b] += U::mk(1 + r.next128() % (P - 1)); bs += std::to_string(b) + ","; } casef("FF<%u> t=%u n=%u seed=%s corrupted=%s", B, t, n, hex(sd, 16).c_str(), bs.c_str()); auto res = scl::ReconstructShamirRobust(x, A, t); CHECK(res[0].Degree() == po.Degree(), "degree of the corrected polynomial"); for (unsigned i = 0; i <= t; i++) CHECK(res[0][i] == po[i], "coefficient %u of the corrected polynomial", i); for (unsigned i = 0; i < 3 * t + 1; i++) CHECK((res[1].Evaluate(A[i]) == F(0)) == (bad.count(i) > 0), "error polynomial does not single out the corrupted positions (%u)", i); CHECK(res[1].Degree() == e, "error polynomial degree"); V few(x.begin(), x.begin() + 3 * t), fa(A.begin(), A.begin() + 3 * t); CHECK(throws_as<std::invalid_argument>([&] { (void)scl::ReconstructShamirRobust(few, A, t); }), "3t shares accepted"); CHECK(throws_as<std::invalid_argument>([&] { (void)scl::ReconstructShamirRobust(x, fa, t); }), "3t points accepted"); }
  SECTION("many") for (unsigned n : {255u, 256u, 257u, 300u, 1000u, 65537u}) { casef("FF<%u> n=%u", B, n); V ca = scl::CanonicalAlphas<F>(n); CHECK(ca.Size() == n, "number of points"); for (unsigned i = 0; i < n; i++) CHECK(U::val(ca[i]) == i + 1, "canonical point %u", i); u8 sd[16]; mkseed(r, sd); scl::PRG p(sd), q(sd); unsigned t = 3; auto x = scl::CreateShamirShares(U::mk(n), n, t, p); auto po = scl::details::CreateShamirSharePolynomial(U::mk(n), t, q); CHECK(x.Size() == n, "number of shares"); for (unsigned i = 0; i < n; i++) CHECK(x[i] == po.Evaluate(F((int)i + 1)), "share %u", i); }
  SECTION("zero-threshold") { casef("FF<%u>", B); scl::PRG p; CHECK(throws_as<std::invalid_argument>([&] { (void)scl::CreateShamirShares(F(1), 3, 0, p); }), "threshold 0 must be rejected"); CHECK(throws_as<std::invalid_argument>([&] { (void)scl::details::CreateShamirSharePolynomial(F(1), 0, p); }), "threshold 0 must be rejected"); }
}
void run() { sh<61>(); sh<127>(); }
