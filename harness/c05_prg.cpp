#include "h.hpp"
#include "scl/prg.h"
#include <set>
using namespace h;
// Independent AES-128 (tables computed from the field definition).
static u8 xt(u8 a) { return (a << 1) ^ ((a >> 7) * 0x1b); }
static u8 gm(u8 a, u8 b) { u8 r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
static u8 sb[256];
static void mk() { for (int i = 0; i < 256; i++) { u8 inv = 0; for (int j = 1; j < 256 && i; j++) if (gm(i, j) == 1) { inv = j; break; } u8 s = inv; for (int k = 1; k < 5; k++) s ^= (u8)((inv << k) | (inv >> (8 - k))); sb[i] = s ^ 0x63; } }
static void aes(const u8* key, const u8* in, u8* out) { u8 w[176]; memcpy(w, key, 16); u8 rc = 1; for (int i = 16; i < 176; i += 4) { u8 t[4]; memcpy(t, w + i - 4, 4); if (i % 16 == 0) { u8 a = t[0]; t[0] = sb[t[1]] ^ rc; t[1] = sb[t[2]]; t[2] = sb[t[3]]; t[3] = sb[a]; rc = xt(rc); } for (int j = 0; j < 4; j++) w[i + j] = w[i - 16 + j] ^ t[j]; }
  u8 s[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ w[i]; for (int r = 1; r <= 10; r++) { u8 t[16]; for (int i = 0; i < 16; i++) t[i] = sb[s[(i + 4 * (i % 4)) % 16]]; if (r < 10) for (int c = 0; c < 4; c++) { u8* p = t + 4 * c; u8 a = p[0], b = p[1], cc = p[2], d = p[3]; p[0] = xt(a) ^ xt(b) ^ b ^ cc ^ d; p[1] = a ^ xt(b) ^ xt(cc) ^ cc ^ d; p[2] = a ^ b ^ xt(cc) ^ xt(d) ^ d; p[3] = xt(a) ^ a ^ b ^ cc ^ xt(d); } for (int i = 0; i < 16; i++) s[i] = t[i] ^ w[16 * r + i]; } memcpy(out, s, 16); }
void run() { mk(); Rng r(seed); using scl::PRG;
  { u8 k[16], p[16], c[16]; for (int i = 0; i < 16; i++) { k[i] = i; p[i] = i * 0x11; } aes(k, p, c); if (hex(c, 16) != "69c4e0d86a7b0430d8cdb78070b4c55a") fail("oracle AES broken"); }
  // block(seed, i): the first bytes of the stream tell the nonce/initial counter once; every later block must follow from them
  SECTION("stream") for (unsigned it = 0; it < (thorough ? 2000u : 300u); it++) { u8 sd[16]; for (auto& c : sd) c = it < 3 ? (u8)(it * 0x7f) : (u8)r.next(); PRG p(sd); CHECK(!memcmp(p.Seed(), sd, 16), "Seed() differs from the seed given");
      std::vector<size_t> req; std::string rs; for (unsigned i = 0; i < 8; i++) { size_t n = r.below(3) ? r.below(40) : 16 * r.below(6); if (it % 50 == 7 && i == 3) n = 5000; req.push_back(n); rs += std::to_string(n) + ","; } casef("seed=%s requests=%s", hex(sd, 16).c_str(), rs.c_str());
      auto ref = [&](u64 blk) { u8 in[16] = {0}, out[16]; u64 ctr = 0x12345678 * 0 + blk; memcpy(in, &ctr, 8); (void)out; return std::vector<u8>(in, in + 16); }; (void)ref;
      long c0 = p.Counter(); u64 used = 0; std::vector<std::vector<u8>> outs; std::vector<u8> all;
      for (size_t n : req) { std::vector<u8> b(n + 32, 0xEE); p.Next(b.data() + 16, n); for (int i = 0; i < 16; i++) CHECK(b[i] == 0xEE && b[16 + n + i] == 0xEE, "Next writes outside the requested bytes"); outs.emplace_back(b.begin() + 16, b.begin() + 16 + n); used += (n + 15) / 16; CHECK((u64)(p.Counter() - c0) == used, "counter advanced by %ld blocks, want %llu", p.Counter() - c0, (unsigned long long)used); }
      // the same sequence of requests on an equally seeded generator, and after Reset, and through the vector overloads
      PRG q(sd); for (size_t i = 0; i < req.size(); i++) { auto v = q.Next(req[i]); CHECK(v == outs[i], "equal seeds give different streams at request %zu", i); }
      p.Reset(); CHECK(p.Counter() == c0, "Reset does not restore the counter"); CHECK(!memcmp(p.Seed(), sd, 16), "Reset changes the seed"); for (size_t i = 0; i < req.size(); i++) { std::vector<u8> v(req[i]); p.Next(v); CHECK(v == outs[i], "stream after Reset differs at request %zu", i); }
      // position independence: block i of one long request is what skipping i blocks yields
      PRG l(sd); auto big = l.Next(16 * 64); std::set<std::string> bl; for (int i = 0; i < 64; i++) bl.insert(hex(big.data() + 16 * i, 16)); CHECK(bl.size() == 64, "stream repeats a block");
      u64 pos = 0; for (size_t i = 0; i < req.size(); i++) { if (pos + (req[i] + 15) / 16 <= 64) CHECK(std::vector<u8>(big.begin() + 16 * pos, big.begin() + 16 * pos + req[i]) == outs[i], "request %zu does not continue the block stream", i); pos += (req[i] + 15) / 16; }
      // AES-CTR: decrypting block i must give (counter0 + i, nonce)
      { u8 o0[16]; u64 nonce = PRG_NONCE; for (u64 i = 0; i < 64; i++) { u8 in[16]; u64 ct = (u64)c0 + i; memcpy(in, &ct, 8); memcpy(in + 8, &nonce, 8); aes(sd, in, o0); CHECK(!memcmp(o0, big.data() + 16 * i, 16), "block %llu is not AES-128(seed, nonce||counter)", (unsigned long long)i); } } }
  SECTION("seeds-differ") { std::set<std::string> s; for (unsigned bit = 0; bit < 128; bit++) { u8 sd[16] = {0}; sd[bit / 8] = 1 << (bit % 8); casef("seed bit %u", bit); PRG p(sd); auto v = p.Next(16); s.insert(hex(v.data(), 16)); } PRG d; u8 z[16] = {0}; PRG e(z); auto a = d.Next(33), b = e.Next(33); CHECK(a == b, "default generator is not the all-zero seed"); s.insert(hex(a.data(), 16)); CHECK(s.size() == 129, "two seeds give the same stream"); }
  SECTION("overloads") for (unsigned n = 0; n < 70; n++) for (unsigned m = 0; m < 70; m += 3) { casef("buffer %u request %u", n, m); PRG p, q; std::vector<u8> b(n, 0xCD); bool t = throws_as<std::invalid_argument>([&] { p.Next(b, m); }); CHECK(t == (m > n), "request larger than the buffer must be rejected"); if (!t) { auto w = q.Next(m); for (unsigned i = 0; i < n; i++) CHECK(b[i] == (i < m ? w[i] : 0xCD), "byte %u", i); CHECK(p.Counter() == q.Counter(), "counter"); } else { auto w = p.Next(16), x = q.Next(16); CHECK(w == x, "a rejected request consumed randomness"); } }
  // a long request is what many one-block requests give, and leaves the generator where they leave it
  SECTION("large") for (unsigned e = 11; e <= (thorough ? 26u : 22u); e++) for (unsigned v = 0; v < 3; v++) { size_t n = ((size_t)1 << e) + (v == 0 ? 0 : v == 1 ? 16 * (1 + r.below(40)) : r.below(40)); u8 sd[16]; for (auto& c : sd) c = (u8)r.next(); casef("seed=%s requests=%zu", hex(sd, 16).c_str(), n); PRG p(sd), q(sd); size_t h = r.below(40); CHECK(p.Next(h) == q.Next(h), "start"); auto b = p.Next(n); bool same = true; u8 t[16]; for (size_t i = 0; i < n; i += 16) { q.Next(t, 16); same &= !memcmp(t, b.data() + i, std::min<size_t>(16, n - i)); } CHECK(same, "a request for %zu bytes is not the block stream", n); CHECK(p.Counter() == q.Counter(), "the counter after %zu bytes is %ld, want %ld", n, (long)p.Counter(), (long)q.Counter()); CHECK(p.Next(32) == q.Next(32), "the stream does not continue after %zu bytes", n); }
  SECTION("copies") { PRG p; p.Next(5); PRG q = p; casef("copied generator"); CHECK(p.Next(100) == q.Next(100), "a copy does not continue the same stream"); }
}
