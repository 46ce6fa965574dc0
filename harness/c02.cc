#include "hf.h"
template <class F> void one(u128 a, u128 b) {
  u128 p = FT<F>::p(); ctx(S("p=", dec(p), " x=", dec(a), " numerator=", dec(b)));
  F x = mk<F>(a), n = mk<F>(b);
  F y = x.Inverse(); u128 v = val(y);
  CK(v < p, "inverse not canonical"); CK(omul(a, v, p) == 1, "x * Inverse(x) != 1, Inverse = ", dec(v)); CK(val(x) == a, "operand changed");
  F z = x; F &rz = z.Invert(); CK(val(z) == v && &rz == &z, "Invert disagrees");
  CK(val(n / x) == omul(b, v, p), "a/x = ", dec(val(n / x))); CK(val(x) == a && val(n) == b, "operands changed");
  z = n; z /= x; CK(val(z) == omul(b, v, p), "a/=x gives ", dec(val(z))); CK(val(x) == a, "divisor changed");
  z = x; z /= z; CK(val(z) == 1, "x/=x gives ", dec(val(z)));
}
template <class F> void all(Rng &r) {
  auto e = edges<F>();
  for (u128 v : e) if (v) one<F>(v, FT<F>::rnd(r));
  for (u128 v = 1; v < 3000; v++) { one<F>(v, v + 1); one<F>(FT<F>::p() - v, 1); }
  for (int i = 0; i < (g_tier ? 300000 : 30000); i++) { u128 a = FT<F>::rnd(r); if (i % 3 == 1) a >>= r.below(sizeof(typename FT<F>::V) * 8 - 8); if (a) one<F>(a, FT<F>::rnd(r)); }
  for (u128 v : e) {
    ctx(S("division of ", dec(v), " by zero")); F z = mk<F>(0), n = mk<F>(v);
    throws<std::logic_error>([&] { F t = n / z; (void)t; }, "a/0"); throws<std::logic_error>([&] { n /= z; }, "a/=0"); throws<std::logic_error>([&] { z.Invert(); }, "Invert 0"); throws<std::logic_error>([&] { z.Inverse(); }, "Inverse 0");
    CK(val(n) == v && val(z) == 0, "operands changed by a rejected division");
  }
}
void run() { Rng r(g_seed); all<F61>(r); all<F127>(r); }
