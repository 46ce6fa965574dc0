#include "hf.h"
template <class F> void one(u128 a, u128 b) {
  u128 p = FT<F>::p(); ctx(S("p=", dec(p), " a=", dec(a), " b=", dec(b)));
  F x = mk<F>(a), y = mk<F>(b);
  CK(val(x) == a, "construction is not canonical: ", dec(val(x)));
  CK(val(x + y) == oadd(a, b, p), "a+b = ", dec(val(x + y)));
  CK(val(x - y) == osub(a, b, p), "a-b = ", dec(val(x - y)));
  CK(val(x * y) == omul(a, b, p), "a*b = ", dec(val(x * y)));
  CK(val(-x) == osub(0, a, p), "-a = ", dec(val(-x)));
  CK(val(x) == a && val(y) == b, "operands changed");
  CK((x == y) == (a == b) && (x != y) == (a != b) && x.Equal(y) == (a == b) && x.NotEqual(y) == (a != b), "equality");
  F z = x; F &r = (z += y); CK(val(z) == oadd(a, b, p) && &r == &z && val(y) == b, "a+=b gives ", dec(val(z)));
  z = x; F &r2 = (z -= y); CK(val(z) == osub(a, b, p) && &r2 == &z && val(y) == b, "a-=b gives ", dec(val(z)));
  z = x; F &r3 = (z *= y); CK(val(z) == omul(a, b, p) && &r3 == &z && val(y) == b, "a*=b gives ", dec(val(z)));
  z = x; z.Negate(); CK(val(z) == osub(0, a, p), "Negate gives ", dec(val(z)));
  z = x; z += z; CK(val(z) == oadd(a, a, p), "a+=a"); z = x; z -= z; CK(val(z) == 0, "a-=a"); z = x; z *= z; CK(val(z) == omul(a, a, p), "a*=a");
}
template <class F> void all(Rng &r) {
  u128 p = FT<F>::p(); typedef typename FT<F>::V V; auto e = edges<F>();
  size_t step = sizeof(V) == 16 ? 3 : 1;
  for (size_t i = 0; i < e.size(); i++) for (size_t j = (step == 1 ? 0 : r.below(step)); j < e.size(); j += step) one<F>(e[i], e[j]);
  for (int i = 0; i < (g_tier ? 400000 : 40000); i++) {
    u128 a = FT<F>::rnd(r), b = FT<F>::rnd(r);
    if (i % 4 == 1) b = e[r.below(e.size())]; if (i % 8 == 3) b = p - 1 - r.below(1000); if (i % 8 == 7) { a >>= r.below(sizeof(V) * 8 - 4); b = p - 1 - a - r.below(3); if (b >= p) b = 0; }
    one<F>(a, b);
  }
  std::vector<u128> big; for (u128 v : e) { big.push_back(v); big.push_back(v + p); big.push_back(v + p + p); big.push_back((u128)(V)(~(V)0) - v); }
  for (int i = 0; i < 20000; i++) big.push_back((V)r.next128());
  for (u128 v : big) { V w = (V)v; ctx(S("F(", dec(w), ") p=", dec(p))); F x(w); CK(val(x) == (u128)w % p, "constructed ", dec(val(x))); F y = mk<F>((u128)w % p); CK(x == y, "equal residues compare different"); }
  CK(val(F()) == 0 && val(F::kZero) == 0 && val(F::kOne) == 1, "constants");
}
void run() { Rng r(g_seed); all<F61>(r); all<F127>(r); }
