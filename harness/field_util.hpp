#pragma once
#include "h.hpp"
#include "scl/math.h"
template <unsigned B> struct FU {
  using F = scl::FF<B>;
  static h::u128 P() { return (((h::u128)1) << B) - 1; }
  static F mk(h::u128 v) { unsigned char b[16]; memcpy(b, &v, 16); return F::Read(b); }
  static h::u128 val(const F& f) { unsigned char b[16] = {0}; f.Write(b); h::u128 v = 0; memcpy(&v, b, F::ByteSize()); return v; }
  static h::u128 add(h::u128 a, h::u128 b) { h::u128 s = a + b; return s >= P() ? s - P() : s; }
  static h::u128 sub(h::u128 a, h::u128 b) { return a >= b ? a - b : a + (P() - b); }
  static h::u128 mul(h::u128 a, h::u128 b) {  // double-and-add, independent of the code under check
    h::u128 r = 0; while (b) { if (b & 1) r = add(r, a); a = add(a, a); b >>= 1; } return r; }
  static h::u128 pw(h::u128 a, h::u128 e) { h::u128 r = 1; while (e) { if (e & 1) r = mul(r, a); a = mul(a, a); e >>= 1; } return r; }
  static h::u128 inv(h::u128 a) { return pw(a, P() - 2); }
  static h::u128 frm(long long v) { return v < 0 ? P() - (h::u128)(-(v + 1)) - 1 : (h::u128)v; }
};
