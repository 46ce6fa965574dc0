#include "sim.h"
using namespace frn;
static u128 el(OPrg &g) { auto b = g.next(8); u128 v = 0; for (int i = 7; i >= 0; i--) v = (v << 8) | b[i]; return v % P61; }
void one(size_t n, size_t t, int draws, bool zero, Rng &r) {
  ORep o(n, t); Replicator<F61> rp(n, t); Deal d(o, r, zero); size_t U = 2 * t + 1;
  std::vector<Correlator> c; for (size_t q = 0; q < n; q++) { if (zero) c.emplace_back((unsigned)q, rp); else c.push_back(d.corr(o, rp, q)); }
  std::vector<std::vector<OPrg>> og(U); for (size_t j = 0; j < U; j++) for (auto &s : d.seed[j]) og[j].emplace_back(s.data());
  for (int k = 0; k < draws; k++) {
    std::vector<std::vector<u128>> e(U); for (size_t j = 0; j < U; j++) for (auto &g : og[j]) e[j].push_back(el(g));
    std::vector<std::vector<F61>> rep(n); u128 addsum = 0;
    if (k % 5 == 3) c = std::vector<Correlator>(c.begin(), c.end());
    for (size_t q = 0; q < n; q++) { ctx(S("n=", n, " d=", t, " party ", q, " draw ", k, zero ? " default generators" : ""));
      if (r.below(4) == 0) { auto z = r.below(2) ? c[q].GenRandomShareDummy().rep_share : c[q].GenRandomShareDummy().rep_share; for (auto &x : z) CK(val(x) == 0, "dummy share not zero"); }
      RandomShare s = c[q].GenRandomShare(); rep[q] = s.rep_share; u128 w = 0; if (q < U) for (u128 v : e[q]) w = oadd(w, v, P61);
      CK(val(s.add_share) == w, "additive share is ", dec(val(s.add_share)), " expected ", dec(w)); addsum = oadd(addsum, val(s.add_share), P61); CK(s.rep_share.size() == o.idx[q].size(), "share size ", s.rep_share.size()); CK(s.rep_add_shares.size() == U, "number of additive dealers ", s.rep_add_shares.size());
      for (size_t j = 0; j < U; j++) { CK(s.rep_add_shares[j].size() == o.idx[q].size(), "size of dealer share ", s.rep_add_shares[j].size()); for (size_t i = 0; i < o.idx[q].size(); i++) CK(val(s.rep_add_shares[j][i]) == e[j][o.idx[q][i]], "dealer ", j, " element ", i, " is not the next element of its stream"); }
      for (size_t i = 0; i < o.idx[q].size(); i++) { u128 t2 = 0; for (size_t j = 0; j < U; j++) t2 = oadd(t2, e[j][o.idx[q][i]], P61); CK(val(s.rep_share[i]) == t2, "replicated element ", i, " is not the sum of the dealers'"); } }
    CK(open(o, rep, "random share") == addsum, "replicated and additive random values differ"); }
  for (size_t q = 0; q < n; q++) { ctx(S("dummies n=", n, " party ", q)); auto z = c[q].GenZeroShareDummy(); auto s = c[q].GenRandomShareDummy(); CK(val(z.add_share) == 0 && val(s.add_share) == 0, "dummy additive share"); CK(z.rep_add_shares.size() == U && s.rep_add_shares.size() == U && s.rep_share.size() == o.idx[q].size(), "dummy shape"); for (auto *v : {&z.rep_add_shares, &s.rep_add_shares}) for (auto &x : *v) { CK(x.size() == o.idx[q].size(), "dummy shape"); for (auto &y : x) CK(val(y) == 0, "dummy not zero"); } for (auto &y : s.rep_share) CK(val(y) == 0, "dummy not zero"); }
}
void run() { Rng r(g_seed); for (auto p : std::vector<std::pair<int, int>>{{4, 1}, {3, 1}, {5, 1}, {5, 2}, {6, 1}, {7, 2}, {8, 2}, {9, 2}, {7, 3}, {10, 1}, {10, 3}}) { one(p.first, p.second, p.first > 8 ? 4 : g_tier ? 60 : 12, false, r); one(p.first, p.second, 3, true, r); } }
