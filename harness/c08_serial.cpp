#include "field_util.hpp"
#include "scl/prg.h"
using namespace h;
// canonical serialisation of vectors and matrices over several element types
template <typename T> void ser(const char* name) {
  Rng r(seed * 23 + T::BitSize() * 7 + T::ByteSize()); scl::PRG prg; const size_t E = T::ByteSize();
  auto el = [&](const T& t) { std::vector<u8> b(E); auto p = std::make_unique<u8[]>(E); t.Write(p.get()); memcpy(b.data(), p.get(), E); return b; };
  SECTION("vec") for (unsigned n = 0; n < (thorough ? 200u : 40u) + 4; n++) { static const unsigned big[] = {257, 1000, 4099, 70001}; const unsigned n0 = n, lim = thorough ? 200u : 40u; struct Put { unsigned& n; unsigned o; ~Put() { n = o; } } put{n, n0}; if (n0 >= lim) n = big[n0 - lim]; casef("Vec<%s> n=%u", name, n); scl::Vec<T> v = scl::Vec<T>::Random(n, prg); CHECK(v.ByteSize() == n * E, "ByteSize %zu want %zu", v.ByteSize(), n * E); auto p = std::make_unique<u8[]>(n * E); v.Write(p.get()); for (unsigned i = 0; i < n; i++) CHECK(!memcmp(p.get() + i * E, el(v[i]).data(), E), "element %u is not at offset %u*ByteSize", i, i);
    std::vector<u8> g(n * E + 16, 0x77); v.Write(g.data() + 8); for (int i = 0; i < 8; i++) CHECK(g[i] == 0x77 && g[8 + n * E + i] == 0x77, "Write leaves its bytes"); auto w = scl::Vec<T>::Read(n, p.get()); CHECK(w.Size() == n && w.Equals(v), "Read(Write(v)) != v"); for (unsigned i = 0; i < n; i++) CHECK(w[i] == v[i], "entry %u", i);
    auto rb = std::make_unique<u8[]>(n * E); for (size_t i = 0; i < n * E; i++) rb[i] = (u8)r.next(); auto z = scl::Vec<T>::Read(n, rb.get()); for (unsigned i = 0; i < n; i++) CHECK(z[i] == T::Read(rb.get() + i * E) , "Read of arbitrary bytes, entry %u", i); }
  SECTION("mat") for (unsigned n = 1; n < (thorough ? 14u : 7u); n++) for (unsigned m = 1; m < (thorough ? 14u : 8u); m++) { struct Put { unsigned &n, &m, a, b; ~Put() { n = a; m = b; } } put{n, m, n, m}; if (n == 6 && m == 7) n = 40, m = 51; if (n == 6 && m == 6) n = 2, m = 4100; casef("Mat<%s> %ux%u", name, n, m); auto v = scl::Mat<T>::Random(n, m, prg); size_t L = n * m * E; CHECK(v.ByteSize() == L, "ByteSize"); auto p = std::make_unique<u8[]>(L); v.Write(p.get()); for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < m; j++) CHECK(!memcmp(p.get() + (i * m + j) * E, el(v(i, j)).data(), E), "entry %u,%u is not in row-major position", i, j); std::vector<u8> g(L + 16, 0x77); v.Write(g.data() + 8); for (int i = 0; i < 8; i++) CHECK(g[i] == 0x77 && g[8 + L + i] == 0x77, "Write leaves its bytes"); auto w = scl::Mat<T>::Read(n, m, p.get()); CHECK(w.Rows() == n && w.Cols() == m && w.Equals(v), "Read(Write(m)) != m");
    auto rb = std::make_unique<u8[]>(L); for (size_t i = 0; i < L; i++) rb[i] = (u8)r.next(); auto z = scl::Mat<T>::Read(n, m, rb.get()); for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < m; j++) CHECK(z(i, j) == T::Read(rb.get() + (i * m + j) * E), "Read of arbitrary bytes %u,%u", i, j); }
}
void run() { ser<scl::FF<61>>("FF61"); ser<scl::FF<127>>("FF127"); ser<scl::Z2k<3>>("Z2k3"); ser<scl::Z2k<12>>("Z2k12"); ser<scl::Z2k<61>>("Z2k61"); ser<scl::Z2k<64>>("Z2k64"); ser<scl::Z2k<70>>("Z2k70"); ser<scl::Z2k<128>>("Z2k128"); }
