#include "orep.h"
template <class F> void one(size_t n, size_t t, u128 s, Rng &r) {
  u128 p = FT<F>::p(); ORep o(n, t); Replicator<F> rp(n, t); unsigned char seed[16]; r.bytes(seed, 16); PRG g(seed); ctx(S("n=", n, " t=", t, " secret ", dec(s), " p=", dec(p)));
  PRG g1 = g; auto sh = rp.Share(mk<F>(s), g); auto add = frn::lib::secret_sharing::ShareAdditive(mk<F>(s), o.sets.size(), g1); CK(sh.size() == n, "number of shares");
  for (size_t q = 0; q < n; q++) { CK(sh[q].size() == o.idx[q].size(), "share size"); for (size_t j = 0; j < sh[q].size(); j++) CK(sh[q][j] == add[o.idx[q][j]], "party ", q, " element ", j, " is not additive share ", o.idx[q][j]); }
  CK(g.Counter() == g1.Counter(), "randomness consumed");
  CK(val(rp.Reconstruct(sh)) == s, "Reconstruct gives ", dec(val(rp.Reconstruct(sh)))); CK(val(rp.ErrorDetection(sh)) == s, "ErrorDetection gives ", dec(val(rp.ErrorDetection(sh))));
  // dealt by the oracle
  auto a2 = rndadd<F>(o, s, r); auto d2 = deal<F>(o, a2); CK(val(rp.Reconstruct(d2)) == s, "Reconstruct of independent shares"); CK(val(rp.ErrorDetection(d2)) == s, "ErrorDetection of independent shares");
  // every single-position corruption
  size_t tot = 0; for (auto &v : d2) tot += v.size();
  for (size_t q = 0; q < n; q++) for (size_t j = 0; j < d2[q].size(); j++) {
    if (tot > 300 && r.below(tot / 100)) continue; u128 e = r.below(3) ? FT<F>::rnd(r) : 1; if (!e) e = 1;
    auto b = d2; b[q][j] += mk<F>(e); ctx(S("n=", n, " t=", t, " secret ", dec(s), " party ", q, " position ", j, " changed by ", dec(e)));
    if (n - t >= 2) throws<std::runtime_error>([&] { rp.ErrorDetection(b); }, "inconsistent shares"); else CK(val(rp.ErrorDetection(b)) == oadd(s, e, p), "no redundancy: value"); }
  // all copies changed alike: consistent sharing of another secret
  size_t k = r.below(o.sets.size()); auto a3 = a2; u128 e = FT<F>::rnd(r); a3[k] = oadd(a3[k], e, p); auto d3 = deal<F>(o, a3); ctx(S("n=", n, " t=", t, " all copies of ", k, " changed")); CK(val(rp.ErrorDetection(d3)) == oadd(s, e, p), "consistently changed shares"); CK(val(rp.Reconstruct(d3)) == oadd(s, e, p), "Reconstruct");
  // several compensating changes still disagree
  if (n - t >= 2 && o.idx[0].size() >= 2) { auto b = d2; b[0][0] += mk<F>(1); b[0][1] -= mk<F>(1); ctx("two compensating changes at party 0"); throws<std::runtime_error>([&] { rp.ErrorDetection(b); }, "inconsistent shares"); b = d2; for (auto &x : b[n - 1]) x = mk<F>(osub(0, val(x), p)); bool same = true; for (auto &x : d2[n - 1]) if (val(x)) same = false; if (!same) throws<std::runtime_error>([&] { rp.ErrorDetection(b); }, "all elements of one party changed"); }
}
template <class F> void list(size_t n, size_t t, size_t m, Rng &r) {
  ORep o(n, t); Replicator<F> rp(n, t); unsigned char seed[16]; r.bytes(seed, 16); PRG g(seed), g1(seed); std::vector<F> s; for (size_t i = 0; i < m; i++) s.push_back(mk<F>(FT<F>::rnd(r))); ctx(S("list of ", m, " secrets n=", n, " t=", t));
  auto all = rp.Share(s, g); CK(all.size() == n, "parties ", all.size()); for (size_t q = 0; q < n; q++) CK(all[q].size() == m, "party ", q, " has ", all[q].size(), " shares");
  for (size_t i = 0; i < m; i++) { auto one = rp.Share(s[i], g1); std::vector<std::vector<F>> v; for (size_t q = 0; q < n; q++) { CK(all[q][i] == one[q], "party ", q, " share ", i, " differs from sharing the secrets one after another"); v.push_back(all[q][i]); } CK(rp.Reconstruct(v) == s[i] && rp.ErrorDetection(v) == s[i], "secret ", i); }
  CK(g.Counter() == g1.Counter(), "randomness consumed");
}
template <class F> void all(Rng &r) {
  auto e = edges<F>(); size_t M = g_tier ? 9 : 7;
  for (size_t n = 2; n <= M; n++) for (size_t t = 1; t < n; t++) for (int k = 0; k < 4; k++) one<F>(n, t, k ? FT<F>::rnd(r) : e[r.below(e.size())], r);
  one<F>(10, 3, FT<F>::rnd(r), r); one<F>(20, 1, FT<F>::rnd(r), r); one<F>(20, 19, 0, r); one<F>(13, 2, 1, r); one<F>(9, 5, 7, r);
  for (size_t n = 2; n <= 6; n++) for (size_t t = 1; t < n; t++) for (size_t m : {0, 1, 2, 3, 7}) list<F>(n, t, m, r); list<F>(4, 1, 300, r);
}
void run() { Rng r(g_seed); all<F61>(r); all<F127>(r); }
