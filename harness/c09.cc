#include "orep.h"
template <class F> void one(size_t n, size_t t) {
  ctx(S("Replicator n=", n, " t=", t)); ORep o(n, t); Replicator<F> r0(n, t); Replicator<F> rp = r0; size_t N = o.sets.size();
  CK(rp.Size() == n && rp.Threshold() == t, "Size/Threshold"); CK(rp.AdditiveShareSize() == N, "AdditiveShareSize ", rp.AdditiveShareSize()); CK(rp.ShareSize() == o.idx[0].size(), "ShareSize ", rp.ShareSize()); CK(rp.ShareSizeBytes() == o.idx[0].size() * F::ByteSize(), "ShareSizeBytes");
  for (size_t i = 0; i < N; i++) { CK(rp.Combination(i) == o.sets[i], "combination ", i, " is ", st(rp.Combination(i)), " expected ", st(o.sets[i])); CK(rp.RevComb(o.sets[i]) == (int)i, "index of ", st(o.sets[i]), " is ", rp.RevComb(o.sets[i])); }
  for (size_t p = 0; p < n; p++) CK(rp.IndexSetFor(p) == o.idx[p], "index set of party ", p, " is ", st(rp.IndexSetFor(p)));
  size_t d = 0; if (n > 1) for (int i : o.idx[0]) if (std::find(o.idx[1].begin(), o.idx[1].end(), i) == o.idx[1].end()) d++; CK(rp.DifferenceSize() == d, "DifferenceSize ", rp.DifferenceSize(), " expected ", d);
  // consequences on the real object: each element held by exactly n-t parties; any t parties jointly miss one
  std::vector<size_t> held(N, 0); for (size_t p = 0; p < n; p++) for (int i : rp.IndexSetFor(p)) { CK(i >= 0 && (size_t)i < N, "index out of range"); held[i]++; } for (size_t i = 0; i < N; i++) CK(held[i] == n - t, "element ", i, " held by ", held[i], " parties");
}
void run() {
  size_t M = g_tier ? 13 : 11;
  for (size_t n = 2; n <= M; n++) for (size_t t = 1; t < n; t++) { one<F61>(n, t); if (n < 8) one<F127>(n, t); }
  for (auto q : std::vector<std::pair<size_t, size_t>>{{16, 2}, {30, 1}, {30, 29}, {14, 12}, {25, 23}, {60, 2}, {12, 6}, {20, 4}, {16, 5}}) one<F61>(q.first, q.second);
  for (size_t n = 0; n <= 20; n++) { ctx(S("invalid n=", n)); throws<std::invalid_argument>([&] { Replicator<F61> z(n, 0); }, S("Replicator(", n, ",0)")); for (size_t t = n; t <= n + 5; t++) throws<std::invalid_argument>([&] { Replicator<F61> z(n, t); }, S("Replicator(", n, ",", t, ")")); throws<std::invalid_argument>([&] { Replicator<F61> z(n, ~(size_t)0); }, "huge threshold"); }
  for (int n = 4; n <= 13; n++) { ctx(S("CreateReplicator ", n)); auto r = frn::CreateReplicator(n); CK(r.Size() == (size_t)n && r.Threshold() == (size_t)((n - 1) / 3), "CreateReplicator parameters"); }
  // Binom
  std::vector<std::vector<u64>> pas(65, std::vector<u64>(65, 0)); for (int i = 0; i <= 60; i++) { pas[i][0] = 1; for (int j = 1; j <= i; j++) pas[i][j] = pas[i - 1][j - 1] + (j <= i - 1 ? pas[i - 1][j] : 0); }
  for (int i = 0; i <= 58; i++) for (int j = 0; j <= i; j++) { ctx(S("Binom(", i, ",", j, ")")); CK(frn::lib::secret_sharing::Binom(i, j) == pas[i][j], "gives ", frn::lib::secret_sharing::Binom(i, j)); }
}
