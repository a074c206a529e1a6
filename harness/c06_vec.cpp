#include "field_util.hpp"
#include "scl/prg.h"
#include <sstream>
using namespace h;
template <unsigned B> void vec() {
  using U = FU<B>; using F = typename U::F; using V = scl::Vec<F>; const u128 P = U::P(); Rng r(seed * 17 + B);
  using Raw = std::vector<u128>;
  auto gen = [&](size_t n) { Raw v(n); for (auto& x : v) x = r.below(4) ? r.next128() % P : (r.below(2) ? r.below(3) : P - 1 - r.below(2)); return v; };
  auto mk = [&](const Raw& v) { std::vector<F> f; for (auto x : v) f.push_back(U::mk(x)); return V(f); };
  auto raw = [&](const V& v) { Raw o; for (size_t i = 0; i < v.Size(); i++) o.push_back(U::val(v[i])); return o; };
  auto map2 = [&](const Raw& a, const Raw& b, auto f) { Raw o; for (size_t i = 0; i < a.size(); i++) o.push_back(f(a[i], b[i])); return o; };
  for (unsigned n : {0u, 1u, 2u, 3u, 4u, 5u, 7u, 8u, 9u, 16u, 17u, 31u, 64u, 100u, 257u, 1025u, 5000u, 70001u}) for (int it = 0; it < (n > 300 ? 1 : thorough ? 20 : 4); it++) {
    Raw a = gen(n), b = gen(n); V x = mk(a), y = mk(b); u128 k = it % 3 == 0 ? r.below(3) : r.next128() % P; F s = U::mk(k);
    SECTION("entrywise") { casef("FF<%u> n=%u it=%d", B, n, it);
      CHECK(x.Size() == n, "Size"); CHECK(raw(x.Add(y)) == map2(a, b, U::add), "Add"); CHECK(raw(x.Subtract(y)) == map2(a, b, U::sub), "Subtract"); CHECK(raw(x.MultiplyEntryWise(y)) == map2(a, b, U::mul), "MultiplyEntryWise");
      CHECK(raw(x) == a && raw(y) == b, "operands modified by a const operation");
      V t = x; V& rt = t.AddInPlace(y); CHECK(&rt == &t && raw(t) == map2(a, b, U::add), "AddInPlace"); t = x; CHECK(&t.SubtractInPlace(y) == &t && raw(t) == map2(a, b, U::sub), "SubtractInPlace"); t = x; CHECK(&t.MultiplyEntryWiseInPlace(y) == &t && raw(t) == map2(a, b, U::mul), "MultiplyEntryWiseInPlace"); CHECK(raw(y) == b, "argument modified");
      t = x; t.AddInPlace(t); CHECK(raw(t) == map2(a, a, U::add), "AddInPlace(self)"); t = x; t.SubtractInPlace(t); CHECK(raw(t) == Raw(n, 0), "SubtractInPlace(self)"); t = x; t.MultiplyEntryWiseInPlace(t); CHECK(raw(t) == map2(a, a, U::mul), "MultiplyEntryWiseInPlace(self)"); }
    SECTION("reductions") { casef("FF<%u> n=%u it=%d", B, n, it); u128 d = 0, su = 0; Raw sc; for (size_t i = 0; i < n; i++) { d = U::add(d, U::mul(a[i], b[i])); su = U::add(su, a[i]); sc.push_back(U::mul(a[i], k)); }
      CHECK(U::val(x.Dot(y)) == d, "Dot"); CHECK(U::val(x.Sum()) == su, "Sum"); CHECK(raw(x.ScalarMultiply(s)) == sc, "ScalarMultiply"); V t = x; CHECK(&t.ScalarMultiplyInPlace(s) == &t && raw(t) == sc, "ScalarMultiplyInPlace"); CHECK(raw(x) == a, "operand modified");
      if (n) { V t2 = x; Raw w; u128 k0 = a[0]; for (auto v : a) w.push_back(U::mul(v, k0)); CHECK(raw(x.ScalarMultiply(x[0])) == w, "ScalarMultiply by own element"); t2.ScalarMultiplyInPlace(t2[0]); CHECK(raw(t2) == w, "ScalarMultiplyInPlace by own element"); } }
    SECTION("equality") { casef("FF<%u> n=%u it=%d", B, n, it); CHECK(x.Equals(x) && x.Equals(mk(a)), "a vector must equal itself"); for (size_t i = 0; i < n; i += n < 300 ? 1 : i + 37 >= n ? 1 : n / 37) { Raw c = a; c[i] = U::add(c[i], 1 + r.below(5)); CHECK(!x.Equals(mk(c)) && !mk(c).Equals(x), "difference at index %zu missed", i); } Raw l = a; l.push_back(0); CHECK(!x.Equals(mk(l)) && !mk(l).Equals(x), "a longer vector compares equal"); }
    SECTION("mismatch") { casef("FF<%u> n=%u it=%d", B, n, it); for (unsigned m : {n + 1, n + 5, n ? n - 1 : 3u}) { if (m == n) continue; V z = mk(gen(m)); 
#define MM(e) CHECK(throws_as<std::invalid_argument>([&] { e; }), #e " of sizes %u,%u must throw", n, m)
        MM((void)x.Add(z)); MM((void)x.Subtract(z)); MM((void)x.MultiplyEntryWise(z)); MM((void)x.Dot(z)); V t = x; MM(t.AddInPlace(z)); MM(t.SubtractInPlace(z)); MM(t.MultiplyEntryWiseInPlace(z)); CHECK(raw(t) == a, "vector changed although the operation was rejected"); } }
    SECTION("build-access") { casef("FF<%u> n=%u it=%d", B, n, it); V e(n); CHECK(raw(e) == Raw(n, 0), "Vec(n) not zero"); V g; CHECK(g.Size() == 0, "Vec() not empty"); g.Reserve(n); CHECK(g.Size() == 0, "Reserve changes the size"); for (size_t i = 0; i < n; i++) { g.Emplace(x[i]); CHECK(g.Size() == i + 1, "Emplace"); } CHECK(g.Equals(x), "Emplace sequence");
      V it2(x.begin(), x.end()); CHECK(raw(it2) == a, "iterator constructor"); if (n > 2) { V mid(x.begin() + 1, x.end() - 1); CHECK(raw(mid) == Raw(a.begin() + 1, a.end() - 1), "iterator sub-range"); }
      Raw rv(a.rbegin(), a.rend()); V rx(x.rbegin(), x.rend()); CHECK(raw(rx) == rv, "reverse iteration"); Raw f; for (const auto& v : x) f.push_back(U::val(v)); CHECK(f == a, "iteration"); CHECK(x.ToStlVector().size() == n, "ToStlVector");
      if (n) { V t = x; size_t i = r.below(n); t[i] = s; Raw w = a; w[i] = k; CHECK(raw(t) == w, "element write changes exactly one entry"); CHECK(raw(x) == a, "copy shares storage"); }
      auto rm = x.ToRowMatrix(); auto cm = x.ToColumnMatrix(); CHECK(rm.Rows() == 1 && rm.Cols() == n && cm.Rows() == n && cm.Cols() == 1, "row/column matrix shape"); for (size_t i = 0; i < n; i++) CHECK(U::val(rm(0, i)) == a[i] && U::val(cm(i, 0)) == a[i], "row/column matrix entry %zu", i); }
    SECTION("random") { u8 sd[16]; for (auto& c : sd) c = (u8)r.next(); casef("FF<%u> n=%u seed=%s", B, n, hex(sd, 16).c_str()); scl::PRG p(sd), q(sd); V v = V::Random(n, p); CHECK(v.Size() == n, "Random size"); for (size_t i = 0; i < n; i++) CHECK(v[i] == F::Random(q), "Random entry %zu is not the next draw", i); CHECK(p.Counter() == q.Counter(), "Random draws consumed");
      V w = V::PartialRandom(n, [](size_t i) { return i % 3 == 1; }, p); for (size_t i = 0; i < n; i++) CHECK(w[i] == (i % 3 == 1 ? F::Random(q) : F(0)), "PartialRandom entry %zu", i); CHECK(w.Size() == n, "PartialRandom size"); }
    SECTION("string") { casef("FF<%u> n=%u", B, n); std::string w = n ? "[" : "[ EMPTY_VECTOR ]"; for (size_t i = 0; i < n; i++) w += x[i].ToString() + (i + 1 < n ? ", " : "]"); CHECK(x.ToString() == w, "ToString gives %s", x.ToString().c_str()); std::stringstream ss; ss << x; CHECK(ss.str() == w, "stream"); }
  }
}
void run() { vec<61>(); vec<127>(); }
