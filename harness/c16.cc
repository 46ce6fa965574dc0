#include "sim.h"
#include "frn/mult.h"
using namespace frn;
void one(size_t n, size_t d, std::vector<size_t> runs, bool zero, Rng &r) {
  ORep o(n, d), o2(n, 2 * d); Replicator<F61> rp(n, d); Deal de(o, r, zero); std::string rs; for (size_t k : runs) rs += S(k, " "); size_t U = 2 * d + 1; std::shared_ptr<Hub> h; auto net = sim(n, rp.ShareSize(), h);
  std::vector<CheckData> cd(n, CheckData((unsigned)d)); std::vector<ShrManipulator> ms; for (size_t q = 0; q < n; q++) ms.emplace_back(q, d, n); auto e = edges<F61>(); size_t done = 0;
  std::vector<std::vector<std::vector<std::vector<u128>>>> xmsgs(n);
  for (size_t ri = 0; ri < runs.size(); ri++) {
    size_t K = runs[ri]; ctx(S("n=", n, " d=", d, " batches ", rs, "batch ", ri, zero ? " default generators" : "")); std::vector<u128> x, y; std::vector<std::vector<std::vector<F61>>> X, Y;
    for (size_t k = 0; k < K; k++) { x.push_back(r.below(3) ? FT<F61>::rnd(r) : e[r.below(e.size())]); y.push_back(r.below(3) ? FT<F61>::rnd(r) : e[r.below(e.size())]); X.push_back(deal<F61>(o, rndadd<F61>(o, x[k], r))); Y.push_back(deal<F61>(o, rndadd<F61>(o, y[k], r))); if (k && r.below(5) == 0) { x[k] = x[k - 1]; X[k] = X[k - 1]; } if (r.below(6) == 0) { y[k] = x[k]; Y[k] = X[k]; } }
    for (auto &w : h->w) w->log.clear(); std::vector<std::vector<Shr>> out(n); std::vector<u64> ls(n); for (auto &v : ls) v = r.next();
    par(n, [&](size_t q) { Mult m(net[q], rp, ms[q], de.corr(o, rp, q), cd[q]); size_t k = 0; Rng lr(ls[q]); while (k < K) { if (lr.below(2)) { m.Prepare(X[k][q], Y[k][q]); k++; } else { size_t c = 1 + lr.below(K - k); std::vector<Shr> xs, ys; for (size_t z = 0; z < c; z++, k++) { xs.push_back(X[k][q]); ys.push_back(Y[k][q]); } m.Prepare(xs, ys); } } if (!K) m.Prepare(std::vector<Shr>{}, std::vector<Shr>{}); out[q] = m.Run(); });
    h->drained();
    for (size_t q = 0; q < n; q++) CK(out[q].size() == K, "party ", q, " outputs ", out[q].size(), " shares for ", K, " multiplications");
    for (size_t k = 0; k < K; k++) { std::vector<std::vector<F61>> sh; for (size_t q = 0; q < n; q++) sh.push_back(out[q][k]); u128 v = open(o, sh, S("product ", k)), w = omul(x[k], y[k], P61); CK(v == w, "product ", k, " is ", dec(v), " expected ", dec(w)); }
    // check data
    std::vector<std::vector<u128>> toP1(U); for (size_t q = 0; q < U; q++) { toP1[q] = h->elems(q, 0); if (q == 0) { CK(toP1[0].size() == 2 * K, "party 0 to itself: ", toP1[0].size(), " elements"); toP1[0].resize(K); } CK(toP1[q].size() == K, "party ", q, " sends ", toP1[q].size(), " elements to party 0"); }
    for (size_t q = 0; q < n; q++) { std::string P = S("party ", q, ": "); CK(cd[q].counter == done + K, P, "counter ", cd[q].counter); CK(cd[q].shares_sent_to_p1.size() == done + K, P, "shares_sent_to_p1 has ", cd[q].shares_sent_to_p1.size()); if (q < U) for (size_t k = 0; k < K; k++) CK(val(cd[q].shares_sent_to_p1[done + k]) == toP1[q][k], P, "recorded sent share ", k, " differs from the message"); else for (size_t k = 0; k < K; k++) CK(val(cd[q].shares_sent_to_p1[done + k]) == 0, P, "recorded a share it did not send");
      CK(cd[q].shares_recv_by_p1.size() == U, P, "shares_recv_by_p1 rows"); if (q == 0) for (size_t j = 0; j < U; j++) { CK(cd[0].shares_recv_by_p1[j].size() == done + K, "recorded received shares of ", j, ": ", cd[0].shares_recv_by_p1[j].size()); for (size_t k = 0; k < K; k++) CK(val(cd[0].shares_recv_by_p1[j][done + k]) == toP1[j][k], "recorded received share ", k, " of party ", j, " differs from the message"); }
      if (q < n - d) { CK(cd[q].values_recv_from_p1.size() == done + K, P, "values_recv_from_p1 has ", cd[q].values_recv_from_p1.size()); for (size_t k = 0; k < K; k++) { u128 s = 0; for (size_t j = 0; j < U; j++) s = oadd(s, toP1[j][k], P61); CK(val(cd[q].values_recv_from_p1[done + k]) == s, P, "recorded reconstructed value ", k); } }
      CK(cd[q].msgs.size() == done + K, P, "msgs has ", cd[q].msgs.size());
      for (size_t k = 0; k < K; k++) { std::vector<std::vector<u128>> w(U, std::vector<u128>(o2.idx[q].size(), 0)); for (size_t a = 0; a < o.idx[q].size(); a++) for (size_t b = 0; b < o.idx[q].size(); b++) { std::vector<int> is; auto &A = o.sets[o.idx[q][a]], &B = o.sets[o.idx[q][b]]; std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), std::back_inserter(is)); is.resize(n - 2 * d); auto it = std::find(o2.idx[q].begin(), o2.idx[q].end(), o2.rev(is)); if (it == o2.idx[q].end()) continue; auto &c = w[is[0]][it - o2.idx[q].begin()]; c = oadd(c, omul(val(X[k][q][a]), val(Y[k][q][b]), P61), P61); }
        auto &got = cd[q].msgs[done + k]; CK(got.size() == U, P, "message shares of ", got.size(), " senders"); for (size_t f = 0; f < U; f++) { CK(got[f].size() == w[f].size(), P, "message share size"); for (size_t z = 0; z < w[f].size(); z++) CK(val(got[f][z]) == w[f][z], P, "message share of sender ", f, " element ", z, " of multiplication ", k, " is ", dec(val(got[f][z])), " expected ", dec(w[f][z])); } } }
    done += K; }
}
void run() {
  quietcout(); Rng r(g_seed);
  for (auto p : std::vector<std::pair<int, int>>{{4, 1}, {5, 1}, {6, 1}, {7, 2}, {7, 1}, {8, 2}, {10, 1}}) { size_t n = p.first, d = p.second; one(n, d, {1}, true, r); one(n, d, {n > 6 ? 2u : 5u}, false, r); one(n, d, {2, 3}, false, r); if (n < 7) { one(n, d, {0}, false, r); one(n, d, {3, 0, 1}, false, r); one(n, d, {1 + r.below(9)}, true, r); } }
  one(4, 1, {200}, false, r); if (g_tier) { for (int i = 0; i < 25; i++) one(4 + i % 3, 1, {r.below(20), r.below(20)}, i % 4 == 0, r); one(10, 3, {1}, false, r); }
}
