#include "hf.h"
#include "oaes.h"
#include "frn/lib/secret_sharing/additive.h"
using namespace frn::lib; using frn::lib::primitives::PRG;
template <class F> void one(size_t n, u128 s, Rng &r) {
  u128 p = FT<F>::p(); unsigned char seed[16]; r.bytes(seed, 16); PRG g(seed); size_t pre = r.below(70); std::vector<unsigned char> t(pre); g.Next(t); PRG g0 = g;
  ctx(S("secret ", dec(s), " n=", n, " p=", dec(p), " generator advanced ", pre, " bytes")); F sec = mk<F>(s);
  auto sh = secret_sharing::ShareAdditive(sec, n, g); CK(sh.size() == n, "number of shares ", sh.size()); CK(val(sec) == s, "secret changed");
  u128 sum = 0; for (auto &x : sh) { CK(val(x) < p, "share not canonical"); sum = oadd(sum, val(x), p); } CK(sum == s, "shares sum to ", dec(sum));
  // the first n-1 shares are successive field elements of one fresh keystream request and do not depend on the secret
  std::vector<unsigned char> ks(n * F::ByteSize()); PRG g1 = g0; g1.Next(ks);
  for (size_t i = 0; i + 1 < n; i++) { u128 v = 0; for (int b = (int)F::ByteSize() - 1; b >= 0; b--) v = (v << 8) | ks[i * F::ByteSize() + b]; CK(val(sh[i]) == v % p, "mask ", i, " is not the next ", F::ByteSize(), " generator bytes"); }
  PRG g2 = g0; auto sh2 = secret_sharing::ShareAdditive(mk<F>(oadd(s, 1, p)), n, g2); for (size_t i = 0; i + 1 < n; i++) CK(sh2[i] == sh[i], "masks depend on the secret");
  if (n > 1) { CK(g.Counter() > g0.Counter(), "generator not advanced"); auto sh3 = secret_sharing::ShareAdditive(sec, n, g); u128 s3 = 0; for (auto &x : sh3) s3 = oadd(s3, val(x), p); CK(s3 == s, "second sharing sum"); for (size_t i = 0; i + 1 < n; i++) CK(val(sh3[i]) != val(sh[i]), "mask ", i, " reused by the next sharing"); }
  std::set<u128> d; for (auto &x : sh) d.insert(val(x)); CK(d.size() >= n - (n > 50 ? 1 : 0), "repeated masks");
}
template <class F> void all(Rng &r) {
  u128 p = FT<F>::p(); auto e = edges<F>();
  for (size_t n = 1; n <= 130; n++) for (int k = 0; k < (g_tier ? 20 : 3); k++) one<F>(n, k % 2 ? FT<F>::rnd(r) : e[r.below(e.size())], r);
  for (u128 s : {(u128)0, (u128)1, p - 1}) for (size_t n : {1, 2, 3, 1000}) one<F>(n, s, r);
  PRG g; PRG h = g; ctx("n=0"); throws<std::invalid_argument>([&] { secret_sharing::ShareAdditive(mk<F>(5), 0, g); }, "sharing for 0 people"); CK(g.Counter() == h.Counter(), "rejected sharing advanced the generator");
}
void run() { Rng r(g_seed); all<F61>(r); all<F127>(r); }
