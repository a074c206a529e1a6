#include "ss_util.hpp"
#include <set>
using namespace h;
template <typename T> void add(const char* nm, std::function<T(Rng&)> mk) {
  Rng r(seed * 43 + T::BitSize());
  SECTION("share-reconstruct") for (unsigned n = 1; n < 40; n++) for (int it = 0; it < (thorough ? 30 : 6); it++) { u8 sd[16]; mkseed(r, sd); scl::PRG p(sd), q(sd); T s = it == 0 ? T() : mk(r); casef("%s n=%u secret=%s seed=%s", nm, n, s.ToString().c_str(), hex(sd, 16).c_str()); auto sh = scl::CreateAdditiveShares(s, n, p); CHECK(sh.Size() == n, "number of shares"); T su; for (unsigned i = 0; i < n; i++) su += sh[i]; CHECK(su == s, "shares do not sum to the secret"); CHECK(scl::ReconstructAdditive(sh) == s, "ReconstructAdditive");
    // all shares but one are the generator's draws, independent of the secret: same seed, other secret => exactly one share differs
    u8 sd2[16]; memcpy(sd2, sd, 16); scl::PRG p2(sd2); T s2 = s + mk(r); auto sh2 = scl::CreateAdditiveShares(s2, n, p2); unsigned diff = 0; for (unsigned i = 0; i < n; i++) diff += sh[i] != sh2[i]; CHECK(diff <= 1, "%u shares depend on the secret", diff); if (n > 1) { std::set<std::string> v; for (unsigned i = 0; i < n; i++) v.insert(sh[i].ToString()); if (T::BitSize() > 32) CHECK(v.size() == n, "shares repeat"); auto sh3 = scl::CreateAdditiveShares(s, n, p); unsigned same = 0; for (unsigned i = 0; i < n; i++) same += sh3[i] == sh[i]; if (T::BitSize() > 32) CHECK(same == 0, "randomness reused by the next sharing"); } }
  SECTION("linear") for (unsigned n = 1; n < 12; n++) { u8 sd[16]; mkseed(r, sd); scl::PRG p(sd); T a = mk(r), b = mk(r), k = mk(r); casef("%s n=%u", nm, n); auto x = scl::CreateAdditiveShares(a, n, p), y = scl::CreateAdditiveShares(b, n, p); CHECK(scl::ReconstructAdditive(x.Add(y)) == a + b, "sum of sharings"); CHECK(scl::ReconstructAdditive(x.Subtract(y)) == a - b, "difference"); CHECK(scl::ReconstructAdditive(x.ScalarMultiply(k)) == a * k, "scaling"); }
  SECTION("zero-parties") { casef("%s", nm); scl::PRG p; CHECK(throws_as<std::invalid_argument>([&] { scl::CreateAdditiveShares(T(), 0, p); }), "0 parties must be rejected"); }
}
void run() {
  add<scl::FF<61>>("FF61", [](Rng& r) { u64 v[2] = {r.next(), r.next()}; return scl::FF<61>::Read((u8*)v); });
  add<scl::FF<127>>("FF127", [](Rng& r) { u64 v[2] = {r.next(), r.next()}; return scl::FF<127>::Read((u8*)v); });
  add<scl::Z2k<62>>("Z2k62", [](Rng& r) { u64 v[2] = {r.next(), r.next()}; return scl::Z2k<62>::Read((u8*)v); });
  add<scl::Z2k<10>>("Z2k10", [](Rng& r) { u64 v[2] = {r.next(), r.next()}; return scl::Z2k<10>::Read((u8*)v); });
}
