#include "sim.h"
#include "frn/check.h"
using namespace frn;
void one(size_t n, size_t d, size_t K, Rng &r) {
  ORep o2(n, 2 * d); Replicator<F61> rp(n, d); size_t U = 2 * d + 1; std::shared_ptr<Hub> h; auto net = sim(n, rp.ShareSize(), h); ctx(S("n=", n, " d=", d, " multiplications ", K)); auto e = edges<F61>(); auto pick = [&] { return r.below(4) ? FT<F61>::rnd(r) : e[r.below(e.size())]; };
  unsigned char z[16] = {0}; OPrg og(z); std::vector<u128> co; for (size_t k = 0; k < K; k++) { auto b = og.next(8); u128 v = 0; for (int i = 7; i >= 0; i--) v = (v << 8) | b[i]; co.push_back(v % P61); }
  std::vector<CheckData> cd(n, CheckData((unsigned)d));
  for (size_t q = 0; q < n; q++) { cd[q].counter = K; for (size_t k = 0; k < K; k++) { cd[q].shares_sent_to_p1.push_back(mk<F61>(pick())); if (q < n - d) cd[q].values_recv_from_p1.push_back(mk<F61>(pick())); if (q == 0) for (auto &v : cd[q].shares_recv_by_p1) v.push_back(mk<F61>(pick())); std::vector<Shr> m; for (size_t f = 0; f < U; f++) { Shr s; for (size_t j = 0; j < o2.idx[q].size(); j++) s.push_back(mk<F61>(pick())); m.push_back(s); } cd[q].msgs.push_back(m); } }
  auto cd0 = cd;
  par(n, [&](size_t q) { ShrManipulator m(q, d, n); Check c(net[q], rp, m, cd[q]); c.ComputeRandomCoefficients(); c.PrepareLinearCombinations(); c.PrepareMsgs();
#ifdef PRIV
    auto fold = [&](const std::vector<Field> &v) { u128 s = 0; for (size_t k = 0; k < K; k++) s = oadd(s, omul(co[k], val(v[k]), P61), P61); return s; };
    CK(c.mRandomCoefficients.size() == K, "party ", q, ": ", c.mRandomCoefficients.size(), " coefficients"); for (size_t k = 0; k < K; k++) CK(val(c.mRandomCoefficients[k]) == co[k], "party ", q, ": coefficient ", k);
    if (q > 0 && q < U) { CK(val(c.mCompressedCD.shares_sent_to_p1) == fold(cd0[q].shares_sent_to_p1), "party ", q, ": compressed sent shares"); CK(val(c.mCompressedCD.values_recv_from_p1) == fold(cd0[q].values_recv_from_p1), "party ", q, ": compressed received values"); }
    if (q == 0) { CK(c.mCompressedCD.shares_recv_by_p1.size() == U, "compressed received shares"); for (size_t j = 0; j < U; j++) CK(val(c.mCompressedCD.shares_recv_by_p1[j]) == fold(cd0[0].shares_recv_by_p1[j]), "compressed received shares of party ", j); }
#endif
    c.ReconstructMsgs(); });
  h->drained();
  for (size_t q = 0; q < n; q++) { std::vector<std::vector<u128>> comp(U, std::vector<u128>(o2.idx[q].size(), 0)); for (size_t f = 0; f < U; f++) for (size_t j = 0; j < o2.idx[q].size(); j++) for (size_t k = 0; k < K; k++) comp[f][j] = oadd(comp[f][j], omul(co[k], val(cd0[q].msgs[k][f][j]), P61), P61);
    for (size_t to = 0; to < n; to++) { std::vector<u128> ev; size_t eh = 0; for (size_t j = 0; j < o2.idx[q].size(); j++) { auto &A = o2.sets[o2.idx[q][j]]; if (std::find(A.begin(), A.end(), (int)to) != A.end()) continue; if ((size_t)A[0] == q) for (size_t f = 0; f < U; f++) ev.push_back(comp[f][j]); else eh++; }
      auto &l = h->at(q, to).log; size_t p = 0; std::string W = S("party ", q, " to party ", to, ": "); auto u32 = [&] { CK(p + 4 <= l.size(), W, "message too short"); uint32_t v = l[p] | l[p + 1] << 8 | l[p + 2] << 16 | (uint32_t)l[p + 3] << 24; p += 4; return (size_t)v; }; auto el = [&] { CK(p + 8 <= l.size(), W, "message too short"); u128 x = 0; for (int b = 7; b >= 0; b--) x = (x << 8) | l[p + b]; p += 8; return x; };
      size_t nv = u32(); CK(nv == ev.size(), W, nv, " values, expected ", ev.size()); for (size_t i = 0; i < nv; i++) { u128 g = el(); CK(g == ev[i], W, "value ", i, " is ", dec(g), " expected ", dec(ev[i])); } size_t nh = u32(); CK(nh == eh, W, nh, " digests, expected ", eh); for (size_t i = 0; i < nh; i++) el(); CK(p == l.size(), W, "extra data"); } }
}
void run() { quietcout(); Rng r(g_seed); for (auto p : std::vector<std::pair<int, int>>{{4, 1}, {5, 1}, {6, 1}, {7, 2}, {8, 2}, {7, 1}, {10, 1}}) for (size_t K : {(size_t)1, (size_t)0, (size_t)2, (size_t)5, (size_t)(g_tier ? 60 : 17)}) one(p.first, p.second, K, r); one(4, 1, 400, r); one(4, 1, 3, r); }
