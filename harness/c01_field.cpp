#include "field_util.hpp"
using namespace h;
template <unsigned B> void field() {
  using U = FU<B>; using F = typename U::F; const u128 P = U::P();
  std::vector<u128> e{0, 1, 2, 3, 5, 7, P - 1, P - 2, P - 3, P / 2, P / 2 + 1, P / 3, P / 3 * 2};
  for (unsigned k = 1; k < B; k++) { u128 t = ((u128)1) << k; e.push_back(t); e.push_back(t - 1); e.push_back(t + 1); e.push_back(P - t); }
  u128 w = ~(u64)0; if (B > 64) { for (u128 hi : {(u128)0, (u128)1, (u128)0x7fffffffffffffff, (u128)0x7ffffffffffffffe}) for (u128 lo : {(u128)0, (u128)1, w, w - 1, w / 2}) e.push_back((hi << 64) | lo); }
  Rng r(seed * 31 + B); unsigned nr = thorough ? 400 : 60;
  for (unsigned i = 0; i < nr; i++) e.push_back(r.next128() % P);
  for (unsigned i = 0; i < nr; i++) { u128 v = r.next128() & (r.next128()) & r.next128(); e.push_back(v % P); }
  for (auto& x : e) x %= P;
  SECTION("add-sub-mul") for (u128 a : e) { casef("FF<%u> a=%s", B, s128(a).c_str());
    for (u128 b : e) { F x = U::mk(a), y = U::mk(b); 
      count_key((u64)b ^ (u64)(b >> 64) * 3);
#define T(name, got, want) do { u128 g_ = U::val(got), w_ = (want); if (g_ != w_) fail("FF<%u> " name ": a=%s b=%s got %s want %s", B, s128(a).c_str(), s128(b).c_str(), s128(g_).c_str(), s128(w_).c_str()); } while (0)
      T("a+b", x + y, U::add(a, b)); T("a-b", x - y, U::sub(a, b)); T("a*b", x * y, U::mul(a, b));
      F t = x; t += y; T("a+=b", t, U::add(a, b)); t = x; t -= y; T("a-=b", t, U::sub(a, b)); t = x; t *= y; T("a*=b", t, U::mul(a, b));
      T("left operand of binary operators unchanged", x, a); T("right operand unchanged", y, b);
      if ((x == y) != (a == b)) fail("FF<%u> ==: a=%s b=%s", B, s128(a).c_str(), s128(b).c_str());
      if ((x != y) == (a == b)) fail("FF<%u> !=: a=%s b=%s", B, s128(a).c_str(), s128(b).c_str());
      if (x.Equal(y) != (a == b)) fail("FF<%u> Equal: a=%s b=%s", B, s128(a).c_str(), s128(b).c_str());
    }
    { u128 b = a; F x = U::mk(a); T("-a", -x, U::sub(0, a)); F t = x; T("Negated", t.Negated(), U::sub(0, a)); T("Negated keeps", t, a); t.Negate(); T("Negate", t, U::sub(0, a));
      t = x; t += t; T("a+=a aliased", t, U::add(a, a)); t = x; t -= t; T("a-=a aliased", t, (u128)0); t = x; t *= t; T("a*=a aliased", t, U::mul(a, a)); }
  }
  SECTION("inverse-division") for (u128 a : e) { casef("FF<%u> a=%s", B, s128(a).c_str()); F x = U::mk(a); u128 b = a;
    if (a == 0) { CHECK(throws([&] { F t = x; t.Invert(); }), "Invert of zero must throw"); CHECK(throws([&] { (void)x.Inverse(); }), "Inverse of zero must throw");
      CHECK(throws([&] { (void)(F(1) / x); }), "division by zero must throw"); CHECK(throws([&] { F t(5); t /= x; }), "/= zero must throw"); CHECK(throws([&] { (void)(x / x); }), "0/0 must throw"); continue; }
    u128 ia = U::inv(a); T("Inverse", x.Inverse(), ia); F t = x; t.Invert(); T("Invert", t, ia); T("Inverse keeps", x, a);
    t = x; t /= t; T("a/=a aliased", t, (u128)1);
    for (unsigned i = 0; i < 6; i++) { b = e[r.below(e.size())]; F y = U::mk(b); count_key((u64)b); T("b/a", y / x, U::mul(b, ia)); t = y; t /= x; T("b/=a", t, U::mul(b, ia)); T("divisor unchanged", x, a); }
  }
  SECTION("random-algebra") for (unsigned i = 0; i < (thorough ? 300000u : 30000u); i++) {
    u128 a = r.next128() % P, b = r.next128() % P; F x = U::mk(a), y = U::mk(b); count_key(i);
    if (i % 1000 == 0) casef("FF<%u> random batch %u", B, i / 1000);
    T("a+b", x + y, U::add(a, b)); T("a-b", x - y, U::sub(a, b)); if (i % 4 == 0) T("a*b", x * y, U::mul(a, b));
    F z = x + y; z -= y; T("(a+b)-b", z, a); z = x * y; if (b) { z /= y; T("(a*b)/b", z, a); }
  }
}
void run() { field<61>(); field<127>(); }
