// Typed messages over a channel: a recording loop-back channel (std::deque of
// bytes) is the oracle transport, so only Channel's own templates are judged.
#include "field_util.hpp"
#include "scl/net/channel.h"
#include "scl/prg.h"
#include <deque>
using namespace h;
struct Pipe final : scl::Channel {
  std::deque<u8> q; size_t asked = 0;
  void Close() override {}
  void Send(const u8* p, std::size_t n) override { q.insert(q.end(), p, p + n); }
  void Recv(u8* p, std::size_t n) override { asked += n; if (n > q.size()) throw std::range_error("read past the end of the message"); for (size_t i = 0; i < n; i++) { p[i] = q.front(); q.pop_front(); } }
};
struct Pod { int a; char b; double c; u64 d[3]; };
static void put32(scl::Channel* c, std::uint32_t v) { u8 b[4]; memcpy(b, &v, 4); c->Send((const u8*)b, (size_t)4); }
template <typename T> void typed(const char* name) {
  Rng r(seed * 53 + T::BitSize() + 3); scl::PRG prg; Pipe p; scl::Channel* c = &p;
  SECTION("vec") for (unsigned n = 0; n < (thorough ? 120u : 30u); n++) { casef("Vec<%s> size %u", name, n); auto v = scl::Vec<T>::Random(n, prg); auto w = scl::Vec<T>::Random(n / 2, prg); scl::Vec<T> x = scl::Vec<T>::Random(r.below(5), prg), y;
    c->Send(v); CHECK(p.q.size() == 4 + n * T::ByteSize(), "message is %zu bytes", p.q.size()); std::uint32_t l; u8 lb[4]; for (int i = 0; i < 4; i++) lb[i] = p.q[i]; memcpy(&l, lb, 4); CHECK(l == n, "length prefix %u", l); c->Send(w); int m = 77; c->Send(m);
    c->Recv(x); CHECK(x.Size() == n && x.Equals(v), "received vector differs from the sent one"); c->Recv(y); CHECK(y.Size() == n / 2 && y.Equals(w), "second message differs"); int m2 = 0; c->Recv(m2); CHECK(m2 == 77 && p.q.empty(), "following message misaligned"); }
  SECTION("mat") for (unsigned a = 1; a < 7; a++) for (unsigned b = 1; b < 7; b++) { casef("Mat<%s> %ux%u", name, a, b); auto v = scl::Mat<T>::Random(a, b, prg); c->Send(v); CHECK(p.q.size() == 8 + a * b * T::ByteSize(), "message is %zu bytes", p.q.size()); u64 k = r.next(); c->Send(k); scl::Mat<T> x(1, 1); c->Recv(x); CHECK(x.Rows() == a && x.Cols() == b && x.Equals(v), "received matrix differs from the sent one"); u64 k2 = 0; c->Recv(k2); CHECK(k2 == k && p.q.empty(), "following message misaligned"); }
  SECTION("vec-limit") for (u64 n : {(u64)(1u << 25) + 1, (u64)(1u << 25) + 12345, (u64)1 << 26, (u64)1 << 28, (u64)1 << 29, (u64)1 << 31, (u64)0xffffffff, (u64)0x80000001}) { casef("Vec<%s> announced size %llu", name, (unsigned long long)n); p.q.clear(); put32(c, n); for (int i = 0; i < 64; i++) p.q.push_back(1); p.asked = 0; scl::Vec<T> x; CHECK(throws_as<std::logic_error>([&] { c->Recv(x); }), "announced size above the limit accepted"); CHECK(p.asked <= 4, "payload of an oversized message read"); p.q.clear(); }
  SECTION("mat-limit") for (auto rc : std::vector<std::pair<u64, u64>>{{(1u << 25) + 1, 1}, {1, (1u << 25) + 1}, {1 << 13, (1 << 12) + 1}, {1 << 16, 1 << 16}, {1u << 31, 2}, {2, 1u << 31}, {0xffffffff, 0xffffffff}, {0x80000000, 0x80000000}, {65536, 65537}, {1 << 20, 1 << 12}, {3u << 30, 4}, {0x10001, 0xffff}}) { casef("Mat<%s> announced %llu x %llu", name, (unsigned long long)rc.first, (unsigned long long)rc.second); p.q.clear(); put32(c, rc.first); put32(c, rc.second); for (int i = 0; i < 64; i++) p.q.push_back(1); p.asked = 0; scl::Mat<T> x(1, 1); CHECK(throws_as<std::logic_error>([&] { c->Recv(x); }), "announced size above the limit accepted"); CHECK(p.asked <= 8, "payload of an oversized message read"); p.q.clear(); }
}
void run() {
  Pipe p; scl::Channel* c = &p; Rng r(seed * 59);
  SECTION("pod") for (int it = 0; it < (thorough ? 2000 : 200); it++) { casef("it=%d", it); Pod a; memset(&a, 0, sizeof a); a.a = (int)r.next(); a.b = (char)r.next(); a.c = (double)r.next(); for (auto& x : a.d) x = r.next(); u64 q = r.next(); short s = (short)r.next(); bool bo = r.below(2); c->Send(a); CHECK(p.q.size() == sizeof(Pod), "bytes on the wire"); c->Send(q); c->Send(s); c->Send(bo); Pod b; u64 q2; short s2; bool b2; c->Recv(b); c->Recv(q2); c->Recv(s2); c->Recv(b2); CHECK(!memcmp(&a, &b, sizeof a) && q == q2 && s == s2 && bo == b2 && p.q.empty(), "received value differs"); }
  SECTION("std-vector") for (unsigned n = 0; n < 60; n++) { casef("std::vector n=%u", n); std::vector<u64> a(n), b(n); std::vector<short> d(n), e(n); for (auto& x : a) x = r.next(); for (auto& x : d) x = (short)r.next(); c->Send(a); c->Send(d); CHECK(p.q.size() == n * 10, "bytes on the wire"); c->Recv(b); c->Recv(e); CHECK(a == b && d == e && p.q.empty(), "received vector differs"); }
  SECTION("element") for (int it = 0; it < 50; it++) { casef("FF it=%d", it); u128 v = r.next128() % FU<61>::P(), w = r.next128() % FU<127>::P(); auto a = FU<61>::mk(v); auto b = FU<127>::mk(w); c->Send(a); c->Send(b); scl::FF<61> a2; scl::FF<127> b2; c->Recv(a2); c->Recv(b2); CHECK(a == a2 && b == b2 && p.q.empty(), "field element differs"); }
  typed<scl::FF<61>>("FF61"); typed<scl::FF<127>>("FF127"); typed<scl::Z2k<12>>("Z2k12"); typed<scl::Z2k<61>>("Z2k61"); typed<scl::Z2k<123>>("Z2k123");
}
