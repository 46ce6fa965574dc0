#include "orep.h"
using namespace frn; typedef F61 F; static u128 P = P61;
void one(size_t n, size_t d, int reps, Rng &r) {
  ORep o(n, d), o2(n, 2 * d); std::vector<ShrManipulator> ms; for (size_t q = 0; q < n; q++) ms.emplace_back(q, d, n); Replicator<F> r2(n, 2 * d);
  // local index of the table agrees with the double index helper
  for (size_t q = 0; q < n; q++) { size_t pos = 0; auto tab = ms[q].GetTableMult(); ctx(S("multiplication table n=", n, " d=", d, " party ", q)); (void)pos;
    for (auto &e : tab) { CK(e.src_a < o.idx[q].size() && e.src_b < o.idx[q].size() && e.dest_c < o2.idx[q].size(), "table entry out of range"); } 
    if (o.idx[q].size() < 40) for (size_t a = 0; a < o.idx[q].size(); a++) for (size_t b = 0; b < o.idx[q].size(); b++) { std::vector<int> is; auto &A = o.sets[o.idx[q][a]], &B = o.sets[o.idx[q][b]]; std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), std::back_inserter(is)); CK(is.size() >= n - 2 * d, "harness"); is.resize(n - 2 * d); int g = o2.rev(is); auto it = std::find(o2.idx[q].begin(), o2.idx[q].end(), g); int e = it == o2.idx[q].end() ? -1 : (int)(it - o2.idx[q].begin()); int got = ms[q].ComputeIndexForDoubleMultiplication(a, b); CK(got == e, "ComputeIndexForDoubleMultiplication(", a, ",", b, ") = ", got, " expected ", e); } }
  for (int k = 0; k < reps; k++) {
    auto e = edges<F>(); u128 x = r.below(3) ? FT<F>::rnd(r) : e[r.below(e.size())], y = r.below(3) ? FT<F>::rnd(r) : e[r.below(e.size())]; ctx(S("n=", n, " d=", d, " x=", dec(x), " y=", dec(y)));
    auto X = deal<F>(o, rndadd<F>(o, x, r)), Y = deal<F>(o, rndadd<F>(o, y, r)); if (k % 3 == 1) { Y = X; y = x; } auto X0 = X, Y0 = Y;
    std::vector<std::vector<F>> D(n); u128 s = 0; for (size_t q = 0; q < n; q++) { D[q] = ms[q].MultiplyToDoubleDegree(X[q], Y[q]); F v = ms[q].MultiplyToAdditive(X[q], Y[q]); s = oadd(s, val(v), P); } CK(X == X0 && Y == Y0, "operands changed");
    u128 w = omul(x, y, P); CK(s == w, "additive parts of x*y sum to ", dec(s), " expected ", dec(w));
    std::vector<u128> add(o2.sets.size(), 0); std::vector<bool> seen(o2.sets.size(), false); for (size_t q = 0; q < n; q++) { CK(D[q].size() == o2.idx[q].size(), "double share size ", D[q].size()); for (size_t j = 0; j < D[q].size(); j++) { size_t g = o2.idx[q][j]; if (seen[g]) CK(add[g] == val(D[q][j]), "parties disagree on element ", g); add[g] = val(D[q][j]); seen[g] = true; } }
    u128 t = 0; for (u128 v : add) t = oadd(t, v, P); CK(t == w, "double-degree share of ", dec(t), " expected ", dec(w)); CK(val(r2.ErrorDetection(D)) == w, "double share via ErrorDetection"); }
}
void run() { Rng r(g_seed); for (auto q : std::vector<std::pair<int, int>>{{4, 1}, {5, 1}, {6, 1}, {7, 1}, {7, 2}, {8, 2}, {9, 2}, {8, 1}, {9, 1}, {12, 1}, {3, 1}, {5, 2}, {6, 2}, {7, 3}}) one(q.first, q.second, g_tier ? 100 : 8, r); one(10, 3, 1, r); one(12, 3, 1, r); }
