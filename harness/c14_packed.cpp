#include "ss_util.hpp"
#include <set>
using namespace h;
template <unsigned B> void pk() {
  using S = SU<B>; using U = FU<B>; using F = typename U::F; using V = scl::Vec<F>; using Raw = typename S::Raw; const u128 P = U::P(); Rng r(seed * 53 + B); namespace D = scl::details;
  SECTION("packed") for (unsigned k = 1; k < 8; k++) for (unsigned dd = 0; dd < 6; dd++) for (int it = 0; it < (thorough ? 8 : 2); it++) { unsigned d = k - 1 + dd, n = d + 1 + r.below(4); u8 sd[16]; mkseed(r, sd); scl::PRG p(sd); Raw sec(k); for (auto& s : sec) s = it ? r.next128() % P : 0; casef("FF<%u> secrets=%u degree=%u shares=%u seed=%s", B, k, d, n, hex(sd, 16).c_str()); auto po = D::EvPolyFromSecretsAndDegree(S::mkv(sec), d, p); CHECK(po.Degree() == d, "degree %zu want %u", po.Degree(), d); for (unsigned i = 0; i < k; i++) CHECK(U::val(po.Evaluate(F(-(int)i))) == sec[i], "secret %u is not stored at -%u", i, i); V sh = D::SharesFromEvPoly(po, n); CHECK(sh.Size() == n, "number of shares"); Raw xs, ys; for (unsigned i = 0; i < n; i++) { CHECK(sh[i] == po.Evaluate(F((int)i + 1)), "share %u is not the value at %u", i, i + 1); xs.push_back(i + 1); ys.push_back(U::val(sh[i])); } Raw c = S::interp(xs, ys); CHECK(S::deg(c) <= d + 1, "shares lie on a polynomial of a degree above %u", d); for (unsigned i = 0; i < k; i++) CHECK(S::ev(c, U::sub(0, i)) == sec[i], "shares do not determine secret %u", i); if (dd) CHECK(S::deg(c) == d + 1, "randomising part missing"); V rec = D::SecretsFromSharesAndLength(sh, k); CHECK(S::rawv(rec) == sec, "SecretsFromSharesAndLength"); V first(sh.begin(), sh.begin() + d + 1); CHECK(S::rawv(D::SecretsFromSharesAndLength(first, k)) == sec, "reconstruction from exactly degree+1 shares"); auto back = D::EvPolyFromShares(sh); for (u128 x : {(u128)0, P - 1, (u128)n, r.next128() % P}) CHECK(U::val(back.Evaluate(U::mk(x))) == S::ev(c, x), "EvPolyFromShares at %s", s128(x).c_str());
    Raw pts; for (int i = 0; i < 5; i++) pts.push_back(r.next128() % P); V at = D::SecretsFromPointsAndShares(S::mkv(pts), sh); for (int i = 0; i < 5; i++) CHECK(U::val(at[i]) == S::ev(c, pts[i]) && U::val(D::SecretFromPointAndShares(U::mk(pts[i]), sh)) == S::ev(c, pts[i]), "value at a chosen point"); CHECK(U::val(D::SecretFromShares(sh)) == sec[0], "SecretFromShares");
    // the degree+1-k free evaluations are fresh generator draws, independent of the secrets
    scl::PRG p2(sd); Raw s2 = sec; for (auto& s : s2) s = U::add(s, 1 + r.below(99)); auto q = D::EvPolyFromSecretsAndDegree(S::mkv(s2), d, p2); unsigned same = 0; for (unsigned i = 1; i <= dd; i++) same += po.Evaluate(F((int)i)) == q.Evaluate(F((int)i)); CHECK(same == dd, "randomising evaluations depend on the secrets"); std::set<std::string> fr; for (unsigned i = 1; i <= dd; i++) fr.insert(po.Evaluate(F((int)i)).ToString()); CHECK(fr.size() == dd, "randomising evaluations repeat"); auto po2 = D::EvPolyFromSecretsAndDegree(S::mkv(sec), d, p); for (unsigned i = 1; i <= dd; i++) CHECK(po2.Evaluate(F((int)i)) != po.Evaluate(F((int)i)), "randomness reused by the next sharing"); }
  SECTION("single-at-point") for (unsigned d = 0; d < 8; d++) for (int it = 0; it < 6; it++) { u8 sd[16]; mkseed(r, sd); scl::PRG p(sd); u128 s = r.next128() % P; int pt = it % 3 == 0 ? 0 : -(int)r.below(20); unsigned n = d + 1 + r.below(3); casef("FF<%u> degree=%u point=%d n=%u seed=%s", B, d, pt, n, hex(sd, 16).c_str()); auto po = D::EvPolyFromSecretAndPointAndDegree(U::mk(s), F(pt), d, p); CHECK(po.Degree() == d, "degree"); CHECK(U::val(po.Evaluate(F(pt))) == s, "secret is not stored at the point"); V sh = D::SharesFromEvPoly(po, n); CHECK(U::val(D::SecretFromPointAndShares(F(pt), sh)) == s, "SecretFromPointAndShares"); Raw xs, ys; for (unsigned i = 0; i < n; i++) { xs.push_back(i + 1); ys.push_back(U::val(sh[i])); } Raw c = S::interp(xs, ys); CHECK(S::deg(c) <= d + 1, "degree of the shares"); if (d) CHECK(S::deg(c) == d + 1, "randomising part missing"); auto p0 = D::EvPolyFromSecretAndDegree(U::mk(s), d, p); CHECK(U::val(D::SecretFromShares(D::SharesFromEvPoly(p0, n))) == s && p0.Degree() == d, "secret at 0"); }
  SECTION("chosen-points") for (unsigned k = 0; k < 6; k++) for (unsigned m = 1; m < 9; m++) { scl::PRG p; Raw sec(k), xs; for (auto& s : sec) s = r.next128() % P; for (unsigned i = 0; i < m; i++) xs.push_back(1000 * i + r.below(1000)); casef("FF<%u> secrets=%u points=%u", B, k, m); if (k > m) { CHECK(throws_as<std::invalid_argument>([&] { (void)D::EvPolyFromSecretsAndPoints(S::mkv(sec), S::mkv(xs), p); }), "more secrets than points"); CHECK(throws_as<std::invalid_argument>([&] { (void)D::EvPolyFromSecretsAndDegree(S::mkv(sec), m - 1, p); }), "more secrets than degree+1"); continue; } auto po = D::EvPolyFromSecretsAndPoints(S::mkv(sec), S::mkv(xs), p); for (unsigned i = 0; i < k; i++) CHECK(U::val(po.Evaluate(U::mk(xs[i]))) == sec[i], "secret %u is not stored at its point", i); CHECK(S::rawv(po.GetX()) == xs, "points"); }
  SECTION("linear") for (unsigned k = 1; k < 6; k++) for (int it = 0; it < 3; it++) { scl::PRG p; unsigned d = k - 1 + r.below(4), n = 2 * d + 1; Raw a(k), b(k); for (auto& s : a) s = r.next128() % P; for (auto& s : b) s = r.next128() % P; casef("FF<%u> k=%u degree=%u", B, k, d); V x = D::SharesFromEvPoly(D::EvPolyFromSecretsAndDegree(S::mkv(a), d, p), n), y = D::SharesFromEvPoly(D::EvPolyFromSecretsAndDegree(S::mkv(b), d, p), n); V s = D::SecretsFromSharesAndLength(x.Add(y), k), m = D::SecretsFromSharesAndLength(x.MultiplyEntryWise(y), k); for (unsigned i = 0; i < k; i++) CHECK(U::val(s[i]) == U::add(a[i], b[i]) && U::val(m[i]) == U::mul(a[i], b[i]), "share-wise sum/product of packed sharings, slot %u", i); }
}
void run() { pk<61>(); pk<127>(); }
