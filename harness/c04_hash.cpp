#include "h.hpp"
#include "scl/hash.h"
using namespace h;
// Independent SHA-3 written from FIPS 202: lanes A[x][y], rotation offsets and
// round constants derived from their definitions, byte-wise sponge.
static u64 rol(u64 v, unsigned n) { n %= 64; return n ? (v << n) | (v >> (64 - n)) : v; }
static bool lfsr(unsigned t) { unsigned R = 1; for (unsigned i = 0; i < t % 255; i++) { R <<= 1; if (R & 0x100) R ^= 0x171; } return R & 1; }
static void keccak(u64 A[5][5]) {
  for (int ir = 0; ir < 24; ir++) { u64 C[5], D[5], B[5][5];
    for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] ^= D[x];
    unsigned rot[5][5] = {{0}}; { int x = 1, y = 0; for (int t = 0; t < 24; t++) { rot[x][y] = ((t + 1) * (t + 2) / 2) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; } }
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y][(2 * x + 3 * y) % 5] = rol(A[x][y], rot[x][y]);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
    u64 rc = 0; for (int j = 0; j <= 6; j++) if (lfsr(j + 7 * ir)) rc |= 1ull << ((1 << j) - 1); A[0][0] ^= rc; } }
static std::vector<u8> sha3(unsigned bits, const std::vector<u8>& m) {
  unsigned rate = 200 - 2 * bits / 8; std::vector<u8> p(m); p.push_back(0x06); while (p.size() % rate) p.push_back(0); p.back() |= 0x80; u64 A[5][5] = {{0}};
  for (size_t o = 0; o < p.size(); o += rate) { for (unsigned i = 0; i < rate; i++) A[(i / 8) % 5][i / 40] ^= (u64)p[o + i] << (8 * (i % 8)); keccak(A); }
  std::vector<u8> d; for (unsigned i = 0; i < bits / 8; i++) d.push_back((u8)(A[(i / 8) % 5][i / 40] >> (8 * (i % 8)))); return d; }
template <typename Hs, unsigned B> void hs() {
  Rng r(seed * 5 + B); unsigned rate = 200 - 2 * B / 8;
  auto digest = [&](Hs& x) { auto d = x.Finalize(); return std::vector<u8>(d.begin(), d.end()); };
  SECTION("one-shot") { unsigned lim = thorough ? 900 : 3 * rate + 20; for (unsigned n = 0; n <= lim; n++) { std::vector<u8> m(n); for (auto& c : m) c = (u8)r.next(); casef("SHA3-%u len=%u", B, n); Hs x; x.Update(m); CHECK(digest(x) == sha3(B, m), "digest of a %u-byte message is not SHA3-%u: message %s", n, B, hex(m.data(), std::min<size_t>(n, 64)).c_str()); Hs y; y.Update(m.data(), n); CHECK(digest(y) == sha3(B, m), "pointer overload, len %u", n); } }
  SECTION("chunked") for (unsigned it = 0; it < (thorough ? 4000u : 700u); it++) { unsigned n = r.below(4 * rate); std::vector<u8> m(n); for (auto& c : m) c = (u8)r.next(); Hs x; size_t o = 0; std::string cs; unsigned mode = r.below(4);
      while (o < n) { size_t k = mode == 0 ? r.below(4) : mode == 1 ? r.below(20) : mode == 2 ? r.below(200) : (r.below(3) ? r.below(9) : 8 * r.below(30)); k = std::min<size_t>(k, n - o); std::vector<u8> part(m.begin() + o, m.begin() + o + k); x.Update(part.data(), k); o += k; if (cs.size() < 200) cs += std::to_string(k) + ","; }
      casef("SHA3-%u len=%u chunks=%s", B, n, cs.c_str()); CHECK(digest(x) == sha3(B, m), "digest depends on how the message is cut (message %s...)", hex(m.data(), std::min<size_t>(n, 32)).c_str()); }
  SECTION("boundaries") for (unsigned n : {rate - 1, rate, rate + 1, rate - 8, rate + 8, 2 * rate - 1, 2 * rate, 2 * rate + 1}) for (unsigned c1 = 0; c1 <= std::min(n, 2 * rate); c1 += (thorough ? 1 : 3)) { std::vector<u8> m(n); for (auto& c : m) c = (u8)r.next(); casef("SHA3-%u len=%u split at %u", B, n, c1); Hs x; x.Update(m.data(), c1).Update(m.data() + c1, n - c1); CHECK(digest(x) == sha3(B, m), "two chunks"); }
  // one long chunk after a few pending bytes, ending in and off a block boundary, followed by a few more
  SECTION("large") for (unsigned e = 12; e <= (thorough ? 23u : 20u); e++) for (unsigned v = 0; v < 3; v++) { unsigned pre = v ? r.below(rate) : 0; size_t big = (size_t)1 << e; if (v < 2) { big += rate; big -= (big + pre) % rate; } else big += r.below(16); unsigned post = r.below(20); std::vector<u8> m(pre + big + post); for (auto& c : m) c = (u8)r.next(); casef("SHA3-%u chunks %u,%zu,%u", B, pre, big, post); Hs x; x.Update(m.data(), pre).Update(m.data() + pre, big).Update(m.data() + pre + big, post); CHECK(digest(x) == sha3(B, m), "large message"); }
}
void run() { hs<scl::Hash256, 256>(); hs<scl::Hash384, 384>(); hs<scl::Hash512, 512>(); }
