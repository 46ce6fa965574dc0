#include "hf.h"
template <class F> void all(Rng &r) {
  typedef typename FT<F>::V V; u128 p = FT<F>::p(); size_t n = sizeof(V); CK(F::ByteSize() == n && F::BitSize() == 8 * n, "element size");
  auto e = edges<F>(); for (int i = 0; i < 20000; i++) e.push_back(FT<F>::rnd(r) >> (i % 2 ? 0 : r.below(8 * n - 2)));
  for (u128 v : e) {
    size_t off = r.below(17); unsigned char buf[64]; unsigned char g = (unsigned char)r.next(); memset(buf, g, 64);
    ctx(S("write ", dec(v), " at offset ", off, " p=", dec(p))); F x = mk<F>(v); x.ToBytes(buf + off);
    for (size_t i = 0; i < 64; i++) { unsigned char w = i >= off && i < off + n ? (unsigned char)(v >> (8 * (i - off))) : g; CK(buf[i] == w, "byte ", i, " is ", (int)buf[i], " expected ", (int)w); }
    CK(val(F::FromBytes(buf + off)) == v, "read back ", dec(val(F::FromBytes(buf + off)))); CK(F::FromBytes(buf + off) == x, "read back compares different");
    CK(x.ToString() == dec(v), "ToString gives ", x.ToString()); std::ostringstream o; o << x; CK(o.str() == dec(v), "<< gives ", o.str());
    CK(val(F(dec(v))) == v, "from decimal gives ", dec(val(F(dec(v))))); CK(F(std::string("000") + dec(v)) == x, "leading zeros");
  }
  std::vector<u128> raw; for (u128 v : {(u128)0, (u128)1, p - 1, p, p + 1, 2 * p, 2 * p + 1, 3 * p, (u128)(V)~(V)0, (u128)((V)~(V)0) - 1, ((u128)1) << (8 * n - 1)}) raw.push_back((V)v);
  for (int i = 0; i < 20000; i++) { V v = (V)r.next128(); if (i % 3 == 0) v |= (V)(~(V)0) << (8 * n - 1 - r.below(8)); if (i % 7 == 0) { v = (V)p; v += (V)r.below(64); v *= (V)(1 + r.below(7)); } raw.push_back(v); }
  for (u128 v : raw) {
    size_t off = r.below(17); unsigned char buf[64]; r.bytes(buf, 64); for (size_t i = 0; i < n; i++) buf[off + i] = (unsigned char)(v >> (8 * i)); unsigned char c[64]; memcpy(c, buf, 64);
    ctx(S("read bytes of ", dec(v), " at offset ", off, " p=", dec(p))); CK(val(F::FromBytes(buf + off)) == v % p, "gives ", dec(val(F::FromBytes(buf + off)))); CK(!memcmp(c, buf, 64), "input bytes changed");
    ctx(S("decimal ", dec(v))); CK(val(F(dec(v))) == v % p, "gives ", dec(val(F(dec(v)))));
  }
}
void run() { Rng r(g_seed); all<F61>(r); all<F127>(r); }
