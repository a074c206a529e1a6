#include "field_util.hpp"
#include "scl/prg.h"
#include <climits>
#include <set>
#include <sstream>
using namespace h;
static std::string dec(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }
static std::string bin(u128 v) { std::string s; while (v) { s.insert(s.begin(), '0' + (int)(v & 1)); v >>= 1; } return s.empty() ? "0" : s; }
static std::string hexs(u128 v, bool up) { std::string s; const char* d = up ? "0123456789ABCDEF" : "0123456789abcdef"; while (v) { s.insert(s.begin(), d[v & 15]); v >>= 4; } if (s.empty()) s = "00"; if (s.size() % 2) s.insert(s.begin(), '0'); return s; }
static std::string b64(const std::vector<u8>& b) { const char* d = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string s; size_t i = 0;
  for (; i + 3 <= b.size(); i += 3) { unsigned v = b[i] << 16 | b[i + 1] << 8 | b[i + 2]; s += d[v >> 18]; s += d[(v >> 12) & 63]; s += d[(v >> 6) & 63]; s += d[v & 63]; }
  if (b.size() - i == 1) { unsigned v = b[i] << 16; s += d[v >> 18]; s += d[(v >> 12) & 63]; s += "=="; }
  if (b.size() - i == 2) { unsigned v = b[i] << 16 | b[i + 1] << 8; s += d[v >> 18]; s += d[(v >> 12) & 63]; s += d[(v >> 6) & 63]; s += "="; } return s; }
static std::vector<u8> be(u128 v) { std::vector<u8> b; while (v) { b.insert(b.begin(), (u8)v); v >>= 8; } if (b.empty()) b.push_back(0); return b; }
template <unsigned B> void enc() {
  using U = FU<B>; using F = typename U::F; const u128 P = U::P(); using scl::NumberBase; const unsigned BS = B == 61 ? 8 : 16;
  Rng r(seed * 77 + B);
  SECTION("sizes") { casef("FF<%u>", B); CHECK(F::ByteSize() == BS, "ByteSize %zu", F::ByteSize()); CHECK(F::BitSize() == B, "BitSize %zu", F::BitSize()); CHECK(F::SpecifiedBitSize() == B, "SpecifiedBitSize"); }
  SECTION("from-int") { std::vector<int> is{0, 1, -1, 2, -2, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1}; for (int k = 0; k < 31; k++) { is.push_back(1 << k); is.push_back(-(1 << k)); } for (int i = 0; i < 2000; i++) is.push_back((int)r.next());
    for (int v : is) { casef("FF<%u>(%d)", B, v); CHECK(U::val(F(v)) == U::frm(v), "FF<%u>(%d) = %s, want %s", B, v, s128(U::val(F(v))).c_str(), s128(U::frm(v)).c_str()); } CHECK(U::val(F()) == 0, "default element is not zero"); }
  std::vector<u128> e{0, 1, P - 1, P, P + 1, P - 2, P / 2, ~(u128)0 >> (128 - 8 * BS), (~(u128)0 >> (128 - 8 * BS)) - 1};
  if (B == 127) { e.push_back(2 * P); e.push_back(2 * P + 1); e.push_back(2 * P - 1); } else for (int k = 2; k < 9; k++) { e.push_back(k * P); e.push_back(k * P - 1); e.push_back(k * P + 1); }
  for (unsigned k = 0; k < 8 * BS; k++) { e.push_back((u128)1 << k); e.push_back(((u128)1 << k) - 1); }
  for (int i = 0; i < 3000; i++) e.push_back(r.next128());
  for (auto& v : e) v &= ~(u128)0 >> (128 - 8 * BS);
  SECTION("bytes") for (u128 v : e) { std::vector<u8> buf(BS + 16, 0xA5); std::vector<u8> in(BS); memcpy(in.data(), &v, BS); casef("FF<%u> bytes(LE)=%s", B, hex(in.data(), BS).c_str());
    F x = F::Read(in.data()); x.Write(buf.data() + 8); u128 g = 0; memcpy(&g, buf.data() + 8, BS);
    CHECK(g == v % P, "Read/Write gives %s want %s", s128(g).c_str(), s128(v % P).c_str());
    for (int i = 0; i < 8; i++) CHECK(buf[i] == 0xA5 && buf[BS + 8 + i] == 0xA5, "Write touches bytes outside ByteSize()");
    CHECK(F::Read(buf.data() + 8) == x, "Read(Write(x)) != x"); CHECK(x == U::mk(v % P), "Read not canonical"); }
  SECTION("strings") for (u128 v : e) { casef("FF<%u> value=%s", B, s128(v).c_str()); u128 w = v % P;
#define ST(txt, ...) do { std::string t_ = (txt); u128 g_ = U::val(F::FromString(t_, ##__VA_ARGS__)); CHECK(g_ == w, "FromString(\"%s\") = %s want %s", t_.c_str(), s128(g_).c_str(), s128(w).c_str()); CHECK(F::FromString(t_, ##__VA_ARGS__) == U::mk(w), "FromString(\"%s\") is not equal to the element it denotes", t_.c_str()); } while (0)
    ST(dec(v)); ST(dec(v), NumberBase::DECIMAL); ST(bin(v), NumberBase::BINARY); ST(hexs(v, false), NumberBase::HEX); ST(hexs(v, true), NumberBase::HEX); ST(b64(be(v)), NumberBase::BASE64);
    auto z = be(v); z.insert(z.begin(), 0); if (z.size() <= BS) ST(b64(z), NumberBase::BASE64);
    F x = U::mk(w); CHECK(x.ToString() == dec(w), "ToString gives %s want %s", x.ToString().c_str(), dec(w).c_str()); std::stringstream ss; ss << x; CHECK(ss.str() == dec(w), "stream output %s", ss.str().c_str()); }
  SECTION("bad-strings") { casef("FF<%u> malformed strings", B);
    const std::pair<std::string, NumberBase> bad[] = {{"012", NumberBase::BINARY}, {"10a", NumberBase::BINARY}, {"12a", NumberBase::DECIMAL}, {"-1", NumberBase::DECIMAL}, {" 1", NumberBase::DECIMAL}, {"abc", NumberBase::HEX}, {"0g", NumberBase::HEX}, {"g0", NumberBase::HEX}, {"0G", NumberBase::HEX}, {"0:", NumberBase::HEX}, {"0/", NumberBase::HEX}, {"0@", NumberBase::HEX}, {"0`", NumberBase::HEX}, {"AAA", NumberBase::BASE64}, {"AA-A", NumberBase::BASE64}, {"A===", NumberBase::BASE64}, {"====", NumberBase::BASE64}, {"AAAAA===", NumberBase::BASE64}, {"AA*=", NumberBase::BASE64}};
    for (auto& b : bad) { casef("FF<%u> \"%s\" base %d", B, b.first.c_str(), (int)b.second); CHECK(throws_as<std::invalid_argument>([&] { F::FromString(b.first, b.second); }), "malformed string accepted"); }
    for (int c = 0; c < 256; c++) { std::string s(1, (char)c); bool d = c >= '0' && c <= '9'; casef("FF<%u> decimal char %d", B, c); CHECK(throws([&] { F::FromString(s); }) == !d, "char %d", c); CHECK(throws([&] { F::FromString(s, NumberBase::BINARY); }) == !(c == '0' || c == '1'), "binary char %d", c);
      bool hx = isxdigit(c); CHECK(throws([&] { F::FromString("0" + s, NumberBase::HEX); }) == !hx, "hex char %d", c); CHECK(throws([&] { F::FromString(s + "0", NumberBase::HEX); }) == !hx, "hex char %d", c);
      bool b6 = isalnum(c) || c == '+' || c == '/'; CHECK(throws([&] { F::FromString("A" + s + "AA", NumberBase::BASE64); }) == !b6, "base64 char %d", c); } }
  SECTION("random") { unsigned char sd[16]; for (int i = 0; i < 16; i++) sd[i] = (u8)r.next(); scl::PRG p(sd), q(sd); casef("FF<%u>::Random seed=%s", B, hex(sd, 16).c_str()); std::set<std::string> seen;
    for (int i = 0; i < 3000; i++) { u8 b[16] = {0}; q.Next(b, BS); u128 v = 0; memcpy(&v, b, BS); F x = F::Random(p); CHECK(U::val(x) == v % P, "Random is not the reduction of the next ByteSize() generator bytes (draw %d)", i); seen.insert(x.ToString()); }
    CHECK(seen.size() > 2990, "Random repeats values"); }
}
void run() { enc<61>(); enc<127>(); }
