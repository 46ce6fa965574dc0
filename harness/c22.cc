#include "orep.h"
#include "frn/lib/math/vec.h"
namespace V = frn::lib::math::vector;
template <class F> static std::vector<unsigned char> enc(const std::vector<F> &v) { std::vector<unsigned char> o; for (auto &x : v) { u128 t = val(x); for (size_t i = 0; i < F::ByteSize(); i++) o.push_back((unsigned char)(t >> (8 * i))); } return o; }
template <class F> static std::vector<F> rv(size_t n, Rng &r) { auto e = edges<F>(); std::vector<F> v; for (size_t i = 0; i < n; i++) v.push_back(mk<F>(r.below(3) ? FT<F>::rnd(r) : e[r.below(e.size())])); return v; }
template <class W> void written(const std::vector<unsigned char> &e, size_t off, Rng &r, W w) { std::unique_ptr<unsigned char[]> b(new unsigned char[e.size() + off + 33]); size_t n = e.size() + off + 33; unsigned char g = (unsigned char)r.next(); memset(b.get(), g, n); w(b.get() + off); for (size_t i = 0; i < n; i++) { unsigned char x = i >= off && i < off + e.size() ? e[i - off] : g; CK(b[i] == x, "byte ", (long)i - (long)off, " of ", e.size(), " is ", (int)b[i], " expected ", (int)x); } }
template <class F> void vec(size_t n, Rng &r) {
  size_t off = r.below(17); auto v = rv<F>(n, r); auto e = enc(v); ctx(S("vector of ", n, " elements of ", F::ByteSize(), " bytes at offset ", off)); auto v0 = v; written(e, off, r, [&](unsigned char *p) { V::ToBytes(p, v); }); CK(v == v0, "vector changed");
  std::vector<unsigned char> b(off + e.size()); r.bytes(b.data(), off); std::copy(e.begin(), e.end(), b.begin() + (long)off); b.shrink_to_fit(); auto w = V::FromBytes<F>(b.data() + off, n); CK(w.size() == n, "reads ", w.size(), " elements"); for (size_t i = 0; i < n; i++) CK(val(w[i]) == val(v[i]), "element ", i, " read back as ", dec(val(w[i])), " expected ", dec(val(v[i])));
}
template <class F> void rep(size_t n, size_t t, size_t m, Rng &r) {
  Replicator<F> rp(n, t); size_t s = rp.ShareSize(); CK(rp.ShareSizeBytes() == s * F::ByteSize(), "ShareSizeBytes"); size_t off = r.below(17); std::vector<std::vector<F>> sh; std::vector<unsigned char> e; for (size_t i = 0; i < m; i++) { sh.push_back(rv<F>(s, r)); auto x = enc(sh.back()); e.insert(e.end(), x.begin(), x.end()); } ctx(S("n=", n, " t=", t, " ", m, " shares of ", F::ByteSize(), "-byte elements at offset ", off));
  written(e, off, r, [&](unsigned char *p) { rp.SharesToBytes(sh, p); }); std::vector<unsigned char> b(off + e.size()); std::copy(e.begin(), e.end(), b.begin() + (long)off); b.shrink_to_fit(); auto w = rp.SharesFromBytes(b.data() + off, m); CK(w == sh, "list of shares changed by a round trip"); if (m) { CK(rp.ShareFromBytes(b.data() + off) == sh[0], "first share"); written(enc(sh[0]), off, r, [&](unsigned char *p) { rp.ShareToBytes(sh[0], p); }); }
}
template <class F> void all(Rng &r) { for (size_t n = 0; n < 80; n++) for (int k = 0; k < 3; k++) vec<F>(n, r); vec<F>(5000, r); for (size_t n = 2; n <= 7; n++) for (size_t t = 1; t < n; t++) for (size_t m : {0, 1, 2, 3, 9}) rep<F>(n, t, m, r); rep<F>(10, 3, 4, r); rep<F>(13, 2, 40, r); if (g_tier) for (int i = 0; i < 3000; i++) vec<F>(r.below(300), r); }
void run() { Rng r(g_seed); all<F61>(r); all<F127>(r); }
