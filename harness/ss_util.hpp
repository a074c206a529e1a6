#pragma once
#include "field_util.hpp"
#include "scl/prg.h"
#include "scl/secret_sharing.h"
template <unsigned B> struct SU : FU<B> {
  using U = FU<B>; using F = typename U::F; using V = scl::Vec<F>; using Raw = std::vector<h::u128>;
  static V mkv(const Raw& a) { V v; for (auto x : a) v.Emplace(U::mk(x)); return v; }
  static Raw rawv(const V& v) { Raw o; for (size_t i = 0; i < v.Size(); i++) o.push_back(U::val(v[i])); return o; }
  static h::u128 ev(const Raw& a, h::u128 x) { h::u128 s = 0; for (size_t i = a.size(); i-- > 0;) s = U::add(U::mul(s, x), a[i]); return s; }
  // coefficients of the interpolating polynomial (independent: Newton form)
  static Raw interp(const Raw& xs, const Raw& ys) {
    size_t n = xs.size(); Raw c = ys;
    for (size_t j = 1; j < n; j++) for (size_t i = n - 1; i >= j; i--) c[i] = U::mul(U::sub(c[i], c[i - 1]), U::inv(U::sub(xs[i], xs[i - j])));
    Raw p(n, 0); for (size_t i = n; i-- > 0;) { Raw q(n, 0); for (size_t k = 0; k < n; k++) { if (k + 1 < n) q[k + 1] = U::add(q[k + 1], p[k]); q[k] = U::sub(q[k], U::mul(xs[i], p[k])); } q[0] = U::add(q[0], c[i]); p = q; }
    return p; }
  static size_t deg(const Raw& p) { size_t d = p.size(); while (d > 0 && !p[d - 1]) d--; return d; }  // number of significant coefficients
};
inline void mkseed(h::Rng& r, h::u8* s) { for (int i = 0; i < 16; i++) s[i] = (h::u8)r.next(); }
