#pragma once
#include "h.h"
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
using namespace frn::lib::math;
typedef FpElement<Mp61> F61; typedef FpElement<Mp127> F127;
template <class F> struct FT; 
template <> struct FT<F61> { static u128 p() { return P61; } typedef u64 V; static u128 rnd(Rng &r) { return r.next() % (u64)P61; } };
template <> struct FT<F127> { static u128 p() { return P127; } typedef u128 V; static u128 rnd(Rng &r) { return r.next128() % P127; } };
template <class F> static u128 val(const F &f) { unsigned char b[16] = {0}; f.ToBytes(b); u128 v = 0; for (int i = (int)sizeof(typename FT<F>::V) - 1; i >= 0; i--) v = (v << 8) | b[i]; return v; }
template <class F> static F mk(u128 v) { return F((typename FT<F>::V)v); }
template <class F> static std::vector<u128> edges() {
  u128 p = FT<F>::p(); std::set<u128> s{0, 1, 2, 3, 5, 7, p - 1, p - 2, p - 3, p / 2, p / 2 + 1, p / 3, 2 * (p / 3), 10, 100, 1000003};
  int b = sizeof(typename FT<F>::V) * 8;
  for (int k = 1; k < b; k++) { u128 v = ((u128)1) << k; if (v < p) s.insert(v); if (v - 1 < p) s.insert(v - 1); if (v + 1 < p) s.insert(v + 1); if (v < p) { s.insert(p - v); s.insert(p - v + 1); } }
  return std::vector<u128>(s.begin(), s.end());
}
static std::string n2(u128 a) { return dec(a); }
