#include "h.hpp"
#include "scl/math.h"
#include "scl/prg.h"
using namespace h;
static std::string dec(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }
template <std::size_t K> void ring() {
  using Z = scl::Z2k<K>; using V = typename Z::ValueType; const u128 M = ~(u128)0 >> (128 - K); const unsigned BS = (K + 7) / 8;
  Rng r(seed * 131 + K);
  auto val = [&](const Z& z) { u8 b[16] = {0}; z.Write(b); u128 v = 0; memcpy(&v, b, 16); return v; };
  SECTION("sizes") { casef("Z2k<%zu>", K); CHECK(Z::ByteSize() == BS, "ByteSize"); CHECK(Z::BitSize() == K, "BitSize"); CHECK(Z::SpecifiedBitSize() == K, "SpecifiedBitSize"); CHECK(val(Z()) == 0, "default not zero"); }
  std::vector<u128> e; if (K <= 6) for (u128 i = 0; i <= M; i++) e.push_back(i); else { for (unsigned k = 0; k < K; k++) { e.push_back((u128)1 << k); e.push_back(((u128)1 << k) - 1); e.push_back(M - ((u128)1 << k)); e.push_back(((u128)1 << k) + 1); } for (int i = 0; i < (thorough ? 300 : 60); i++) e.push_back(r.next128()); e.push_back(0); e.push_back(M); e.push_back(M - 1); }
  // un-normalised representatives: the value type may hold more than K bits
  const u128 VM = sizeof(V) == 16 ? ~(u128)0 : ~(u64)0;
  auto rep = [&](u128 v, bool dirty) { u128 w = v & M; if (dirty) w |= r.next128() & ~M & VM; return Z((V)w); };
  auto check = [&](const char* n, const Z& z, u128 want, u128 a, u128 b) { u128 g = val(z); if (g != (want & M)) fail("Z2k<%zu> %s a=%s b=%s got %s want %s", K, n, s128(a & M).c_str(), s128(b & M).c_str(), s128(g).c_str(), s128(want & M).c_str()); };
  SECTION("ring-ops") for (u128 a : e) { casef("Z2k<%zu> a=%s", K, s128(a & M).c_str());
    for (u128 b : e) for (int d = 0; d < 2; d++) { Z x = rep(a, d), y = rep(b, d); count_key((u64)b * 2 + d);
      check("a+b", x + y, a + b, a, b); check("a-b", x - y, a - b, a, b); check("a*b", x * y, a * b, a, b); Z t = x; t += y; check("a+=b", t, a + b, a, b); t = x; t -= y; check("a-=b", t, a - b, a, b); t = x; t *= y; check("a*=b", t, a * b, a, b);
      check("left operand kept", x, a, a, b); check("right operand kept", y, b, a, b);
      bool eq = (a & M) == (b & M); if ((x == y) != eq || (x != y) == eq || x.Equal(y) != eq) fail("Z2k<%zu> equality a=%s b=%s (dirty=%d)", K, s128(a & M).c_str(), s128(b & M).c_str(), d); }
    for (int d = 0; d < 2; d++) { Z x = rep(a, d); count_key(~(u64)d); check("-a", -x, 0 - a, a, a); check("Negated", x.Negated(), 0 - a, a, a); Z t = x; t.Negate(); check("Negate", t, 0 - a, a, a); if (x.Lsb() != (unsigned)(a & 1)) fail("Lsb of %s", s128(a).c_str());
      if (a & 1) { check("a*a^-1", x * x.Inverse(), 1, a, a); t = x; t.Invert(); check("Invert", t * x, 1, a, a); check("Inverse keeps", x, a, a, a); u128 b = e[r.below(e.size())]; Z y = rep(b, d); check("b/a*a", (y / x) * x, b, b, a); t = y; t /= x; check("b/=a *a", t * x, b, b, a); }
      else { if (!throws([&] { (void)x.Inverse(); })) fail("Z2k<%zu> Inverse of even %s did not throw", K, s128(a & M).c_str()); if (!throws([&] { Z t = x; t.Invert(); })) fail("Invert of even did not throw"); if (!throws([&] { (void)(Z((V)1) / x); })) fail("division by even did not throw"); } } }
  SECTION("bytes") for (u128 a : e) { casef("Z2k<%zu> value=%s", K, s128(a & M).c_str()); auto buf = std::make_unique<u8[]>(BS); u128 raw = a | (r.next128() & ~M); memcpy(buf.get(), &raw, BS); Z x = Z::Read(buf.get()); CHECK(val(x) == (a & M), "Read gives %s", s128(val(x)).c_str());
    std::vector<u8> o(BS + 16, 0x5A); rep(a, true).Write(o.data() + 8); u128 g = 0; memcpy(&g, o.data() + 8, BS); CHECK(g == (a & M), "Write gives %s", s128(g).c_str()); for (int i = 0; i < 8; i++) CHECK(o[i] == 0x5A && o[8 + BS + i] == 0x5A, "Write leaves its ByteSize() bytes"); CHECK(Z::Read(o.data() + 8) == x, "round trip");
    CHECK(rep(a, true).ToString() == dec(a & M), "ToString %s want %s", rep(a, true).ToString().c_str(), dec(a & M).c_str()); CHECK(val(Z::FromString(dec(a & M))) == (a & M), "FromString(%s)", dec(a & M).c_str()); }
  SECTION("random") { u8 sd[16]; for (auto& c : sd) c = (u8)r.next(); casef("Z2k<%zu>::Random", K); scl::PRG p(sd), q(sd); for (int i = 0; i < 300; i++) { u8 b[16] = {0}; q.Next(b, BS); u128 v = 0; memcpy(&v, b, 16); CHECK(val(Z::Random(p)) == (v & M), "Random draw %d", i); } }
}
void run() { ring<1>(); ring<2>(); ring<3>(); ring<4>(); ring<5>(); ring<6>(); ring<7>(); ring<8>(); ring<9>(); ring<10>(); ring<11>(); ring<16>(); ring<19>(); ring<20>(); ring<21>(); ring<31>(); ring<32>(); ring<33>(); ring<39>(); ring<40>(); ring<41>(); ring<62>(); ring<63>(); ring<64>(); ring<65>(); ring<66>(); ring<72>(); ring<79>(); ring<80>(); ring<81>(); ring<100>(); ring<120>(); ring<127>(); ring<128>(); }
