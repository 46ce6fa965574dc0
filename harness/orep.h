// Independent t-of-n combinatorics oracle.
#pragma once
#include "hf.h"
#include "oaes.h"
#include "frn/shr.h"
using frn::lib::primitives::PRG; using frn::lib::secret_sharing::Replicator;
static void subs(int n, int k, int from, std::vector<int> &cur, std::vector<std::vector<int>> &out) { if ((int)cur.size() == k) { out.push_back(cur); return; } for (int v = from; v + (k - (int)cur.size()) <= n; v++) { cur.push_back(v); subs(n, k, v + 1, cur, out); cur.pop_back(); } }
struct ORep { size_t n, t; std::vector<std::vector<int>> sets; std::vector<std::vector<int>> idx;
  ORep(size_t n, size_t t) : n(n), t(t), idx(n) { std::vector<int> c; subs((int)n, (int)(n - t), 0, c, sets); for (size_t s = 0; s < sets.size(); s++) for (int p : sets[s]) idx[p].push_back((int)s); }
  int rev(const std::vector<int> &c) const { for (size_t i = 0; i < sets.size(); i++) if (sets[i] == c) return (int)i; return -1; } };
static inline std::string st(const std::vector<int> &v) { std::string s = "{"; for (int x : v) s += S(x, " "); return s + "}"; }
template <class F> static std::vector<std::vector<F>> deal(const ORep &o, const std::vector<u128> &add) { std::vector<std::vector<F>> r(o.n); for (size_t p = 0; p < o.n; p++) for (int i : o.idx[p]) r[p].push_back(mk<F>(add[i])); return r; }
template <class F> static std::vector<u128> rndadd(const ORep &o, u128 s, Rng &r) { u128 p = FT<F>::p(); std::vector<u128> a; u128 t = 0; for (size_t i = 0; i + 1 < o.sets.size(); i++) { a.push_back(r.below(9) ? FT<F>::rnd(r) : (r.below(2) ? 0 : p - 1)); t = oadd(t, a.back(), p); } a.push_back(osub(s, t, p)); return a; }
