#include "sim.h"
#include "frn/input.h"
using namespace frn;
void one(size_t n, size_t t, const std::vector<size_t> &cnt, Rng &r, int style) {
  ORep o(n, t); Replicator<F61> rp(n, t); std::string cs; for (size_t c : cnt) cs += S(c, " "); ctx(S("n=", n, " t=", t, " inputs per party ", cs, "style ", style));
  std::shared_ptr<Hub> h; auto net = sim(n, rp.ShareSize(), h); std::vector<std::vector<u128>> in(n); auto e = edges<F61>(); for (size_t i = 0; i < n; i++) for (size_t k = 0; k < cnt[i]; k++) in[i].push_back(k && r.below(4) == 0 ? in[i][k - 1] : r.below(3) ? FT<F61>::rnd(r) : e[r.below(e.size())]);
  std::vector<std::array<unsigned char, 16>> seed(n); for (auto &s : seed) r.bytes(s.data(), 16); std::vector<u64> rs(n); for (auto &x : rs) x = r.next();
  std::vector<std::vector<std::vector<Shr>>> out(n); std::vector<std::vector<u128>> ann(n);
  std::vector<std::unique_ptr<InputSetup::Correlator>> co(n);
  par(n, [&](size_t q) { InputSetup s(net[q], rp, PRG(seed[q].data())); co[q].reset(new InputSetup::Correlator(s.Run())); });
  h->drained(); for (auto &w : h->w) w->log.clear();
  par(n, [&](size_t q) {
    Rng lr(rs[q]); ShrManipulator m(q, t, n); Input inp(net[q], m, *co[q]); std::vector<size_t> left = cnt; size_t mine = 0;
    std::vector<size_t> order; if (style == 0) { for (size_t i = 0; i < n; i++) order.push_back(i); } else { for (size_t i = 0; i < n; i++) for (size_t k = 0; k < cnt[i]; k++) order.push_back(i); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[lr.below(i)]); }
    for (size_t i : order) { if (style == 0) { if (i == q) { std::vector<Field> v; for (u128 x : in[q]) v.push_back(mk<F61>(x)); inp.Prepare(v); } else inp.PrepareToReceive((unsigned)i, cnt[i]); } else if (i == q) inp.Prepare(mk<F61>(in[q][mine++])); else inp.PrepareToReceive((unsigned)i); }
    out[q] = inp.Run(); });
  h->drained();
  for (size_t q = 0; q < n; q++) { CK(out[q].size() == n, "party ", q, " outputs ", out[q].size(), " providers"); for (size_t i = 0; i < n; i++) CK(out[q][i].size() == cnt[i], "party ", q, " has ", out[q][i].size(), " shares of party ", i, "'s ", cnt[i], " inputs"); }
  for (size_t i = 0; i < n; i++) for (size_t k = 0; k < cnt[i]; k++) { std::vector<std::vector<F61>> sh; for (size_t q = 0; q < n; q++) sh.push_back(out[q][i][k]); u128 v = open(o, sh, S("input ", k, " of party ", i)); CK(v == in[i][k], "input ", k, " of party ", i, " is shared as ", dec(v), " expected ", dec(in[i][k])); }
  for (size_t i = 0; i < n; i++) { auto a = h->elems(i, 0); CK(a.size() == cnt[i], "party ", i, " announces ", a.size(), " values"); for (size_t j = 1; j < n; j++) CK(h->elems(i, j) == a, "party ", i, " announces different values to parties 0 and ", j); std::set<u128> d; for (size_t k = 0; k < a.size(); k++) { d.insert(osub(in[i][k], a[k], P61)); } CK(d.size() == a.size(), "a mask of party ", i, " is used twice"); }
}
void run() {
  quietcout(); Rng r(g_seed);
  for (auto p : std::vector<std::pair<int, int>>{{4, 1}, {5, 1}, {7, 2}, {3, 1}, {6, 1}, {10, 3}, {2, 1}, {8, 2}, {13, 1}, {7, 1}, {5, 3}}) { size_t n = p.first; if ((size_t)2 * p.second >= n) continue;
    for (int k = 0; k < (g_tier ? 30 : n > 8 ? 2 : 6); k++) { std::vector<size_t> c(n, 0); if (k == 0) c.assign(n, 1); else if (k == 1) c[r.below(n)] = 3; else if (k == 5) c.assign(n, 0); else for (auto &x : c) x = r.below(3) ? r.below(6) : 0; one(n, p.second, c, r, k % 2); } }
  one(4, 1, {30, 0, 7, 1}, r, 0); one(4, 1, {0, 0, 0, 300}, r, 1); one(5, 1, {1, 0, 0, 2, 0}, r, 0); one(4, 1, {12000, 1, 0, 2}, r, 0);
}
