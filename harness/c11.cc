#include "orep.h"
using namespace frn; typedef F61 F;
static u128 P = P61;
void one(size_t n, size_t d, Rng &r, int force = -1) {
  ORep o(n, d); Replicator<F> rp(n, d); auto e = edges<F>(); auto pick = [&] { return r.below(4) ? FT<F>::rnd(r) : e[r.below(e.size())]; };
  u128 x = pick(), y = pick(), k = pick(); if (force >= 0) { k = e[force % e.size()]; if (force / e.size()) { x = k; y = 0; } } ctx(S("n=", n, " d=", d, " x=", dec(x), " y=", dec(y), " constant ", dec(k)));
  auto ax = rndadd<F>(o, x, r), ay = rndadd<F>(o, y, r); auto X = deal<F>(o, ax), Y = deal<F>(o, ay); auto X0 = X, Y0 = Y; F kk = mk<F>(k);
  std::vector<std::vector<Shr>> res(9, std::vector<Shr>(n));
  for (size_t q = 0; q < n; q++) { ShrManipulator m(q, d, n); CK(m.ShareSize() == rp.ShareSize(), "ShareSize"); CK(m.GetReplicator().Threshold() == d && m.GetReplicator().Size() == n && m.GetDoubleReplicator().Threshold() == 2 * d && m.GetDoubleReplicator().Size() == n, "replicators");
    res[0][q] = m.Add(X[q], Y[q]); res[1][q] = m.Subtract(X[q], Y[q]); res[2][q] = m.AddConstant(X[q], kk); res[3][q] = m.AddConstant(kk, X[q]); res[4][q] = m.SubtractConstant(X[q], kk); res[5][q] = m.SubtractConstant(kk, X[q]); res[6][q] = m.MultiplyConstant(X[q], kk); res[7][q] = m.MultiplyConstant(kk, X[q]); res[8][q] = m.Add(X[q], X[q]); }
  CK(X == X0 && Y == Y0 && val(kk) == k, "operands changed");
  u128 ex[9] = {oadd(x, y, P), osub(x, y, P), oadd(x, k, P), oadd(x, k, P), osub(x, k, P), osub(k, x, P), omul(x, k, P), omul(x, k, P), oadd(x, x, P)};
  static const char *nm[9] = {"Add", "Subtract", "AddConstant", "AddConstant(c,a)", "SubtractConstant", "SubtractConstant(c,a)", "MultiplyConstant", "MultiplyConstant(c,a)", "Add(a,a)"};
  for (int i = 0; i < 9; i++) { // oracle reconstruction: all holders agree, sum is expected
    std::vector<u128> add(o.sets.size()); std::vector<bool> seen(o.sets.size(), false); for (size_t q = 0; q < n; q++) { CK(res[i][q].size() == o.idx[q].size(), nm[i], ": share of party ", q, " has ", res[i][q].size(), " elements"); for (size_t j = 0; j < o.idx[q].size(); j++) { size_t s = o.idx[q][j]; u128 v = val(res[i][q][j]); if (seen[s]) CK(add[s] == v, nm[i], ": parties disagree on element ", s); add[s] = v; seen[s] = true; } }
    u128 t = 0; for (u128 v : add) t = oadd(t, v, P); CK(t == ex[i], nm[i], " gives ", dec(t), " expected ", dec(ex[i])); CK(val(rp.ErrorDetection(res[i])) == ex[i], nm[i], " via ErrorDetection"); }
}
void run() { Rng r(g_seed); for (auto q : std::vector<std::pair<int, int>>{{3, 1}, {4, 1}, {5, 1}, {5, 2}, {6, 1}, {6, 2}, {7, 2}, {7, 3}, {7, 1}, {8, 2}, {9, 2}, {10, 1}, {16, 1}, {12, 2}}) for (int i = 0; i < (q.first > 9 || q.second > 2 ? 2 : g_tier ? 300 : 30); i++) one(q.first, q.second, r); for (int i = 0; i < 2 * (int)edges<F>().size(); i++) { one(4, 1, r, i); one(5, 2, r, i); one(6, 1, r, i); } }
