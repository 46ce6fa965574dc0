#include "hf.h"
#include "frn/lib/math/mat.h"
template <class F> struct M { size_t n, m; std::vector<u128> v; u128 &at(size_t i, size_t j) { return v[i * m + j]; } };
template <class F> Matrix<F> real(M<F> &a) { Matrix<F> r(a.n, a.m); for (size_t i = 0; i < a.n; i++) for (size_t j = 0; j < a.m; j++) r(i, j) = mk<F>(a.at(i, j)); return r; }
template <class F> M<F> rndm(size_t n, size_t m, Rng &r) { M<F> a{n, m, {}}; auto e = edges<F>(); for (size_t i = 0; i < n * m; i++) a.v.push_back(r.below(3) ? FT<F>::rnd(r) : e[r.below(e.size())]); return a; }
template <class F> void eq(const Matrix<F> &x, size_t n, size_t m, std::function<u128(size_t, size_t)> f, const std::string &w) {
  CK(x.RowCount() == n && x.ColumnCount() == m, w, ": dimensions ", x.RowCount(), "x", x.ColumnCount()); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) CK(val(x(i, j)) == f(i, j), w, ": entry (", i, ",", j, ") is ", dec(val(x(i, j))), " expected ", dec(f(i, j))); }
template <class F> void one(size_t n, size_t m, size_t q, Rng &r) {
  u128 p = FT<F>::p(); ctx(S("dims ", n, "x", m, " and ", m, "x", q, " p=", dec(p)));
  auto a = rndm<F>(n, m, r), b = rndm<F>(n, m, r), c = rndm<F>(m, q, r); auto A = real(a), B = real(b), C = real(c); u128 k = FT<F>::rnd(r); F kk = mk<F>(k);
  auto fa = [&](size_t i, size_t j) { return oadd(a.at(i, j), b.at(i, j), p); }; auto fs = [&](size_t i, size_t j) { return osub(a.at(i, j), b.at(i, j), p); }; auto fm = [&](size_t i, size_t j) { return omul(a.at(i, j), b.at(i, j), p); }; auto fk = [&](size_t i, size_t j) { return omul(a.at(i, j), k, p); };
  eq<F>(A.Add(B), n, m, fa, "Add"); eq<F>(A.Subtract(B), n, m, fs, "Subtract"); eq<F>(A.Multiply(B), n, m, fm, "Multiply"); eq<F>(A.Scale(kk), n, m, fk, "Scale");
  auto mm = [&](size_t i, size_t j) { u128 s = 0; for (size_t t = 0; t < m; t++) s = oadd(s, omul(a.at(i, t), c.at(t, j), p), p); return s; };
  eq<F>(A.MatMul(C), n, q, mm, "MatMul");
  eq<F>(A, n, m, [&](size_t i, size_t j) { return a.at(i, j); }, "left operand afterwards"); eq<F>(B, n, m, [&](size_t i, size_t j) { return b.at(i, j); }, "right operand afterwards"); eq<F>(C, m, q, [&](size_t i, size_t j) { return c.at(i, j); }, "right factor afterwards");
  if (n == m) eq<F>(A.MatMul(A), n, n, [&](size_t i, size_t j) { u128 s = 0; for (size_t t = 0; t < m; t++) s = oadd(s, omul(a.at(i, t), a.at(t, j), p), p); return s; }, "MatMul with itself");
  auto X = A; Matrix<F> &R = X.AddInto(B); CK(&R == &X, "AddInto result"); eq<F>(X, n, m, fa, "AddInto"); X = A; X.SubtractInto(B); eq<F>(X, n, m, fs, "SubtractInto"); X = A; X.MultiplyInto(B); eq<F>(X, n, m, fm, "MultiplyInto"); X = A; X.ScaleBy(kk); eq<F>(X, n, m, fk, "ScaleBy"); eq<F>(B, n, m, [&](size_t i, size_t j) { return b.at(i, j); }, "right operand afterwards");
  X = A; X.AddInto(X); eq<F>(X, n, m, [&](size_t i, size_t j) { return oadd(a.at(i, j), a.at(i, j), p); }, "AddInto itself"); X = A; X.SubtractInto(X); eq<F>(X, n, m, [&](size_t, size_t) { return (u128)0; }, "SubtractInto itself"); X = A; X.MultiplyInto(X); eq<F>(X, n, m, [&](size_t i, size_t j) { return omul(a.at(i, j), a.at(i, j), p); }, "MultiplyInto itself");
  X = A; X.ScaleBy(X(0, 0)); eq<F>(X, n, m, [&](size_t i, size_t j) { return omul(a.at(i, j), a.at(0, 0), p); }, "ScaleBy own entry");
  for (auto d : std::vector<std::pair<size_t, size_t>>{{n + 1, m}, {n, m + 1}, {m + n + 1, 1}, {m, n}}) if (d.first != n || d.second != m) {
    auto z = rndm<F>(d.first, d.second, r); auto Z = real(z); std::string w = S(" of ", n, "x", m, " with ", d.first, "x", d.second); auto Y = A;
    throws<std::logic_error>([&] { A.Add(Z); }, "Add" + w); throws<std::logic_error>([&] { A.Subtract(Z); }, "Subtract" + w); throws<std::logic_error>([&] { A.Multiply(Z); }, "Multiply" + w); throws<std::logic_error>([&] { Y.AddInto(Z); }, "AddInto" + w); throws<std::logic_error>([&] { Y.SubtractInto(Z); }, "SubtractInto" + w); throws<std::logic_error>([&] { Y.MultiplyInto(Z); }, "MultiplyInto" + w);
    if (d.first != m) throws<std::invalid_argument>([&] { A.MatMul(Z); }, "MatMul" + w);
    eq<F>(Y, n, m, [&](size_t i, size_t j) { return a.at(i, j); }, "operand after rejected operation"); }
  for (size_t r0 = 0; r0 <= n + 1; r0++) for (size_t r1 = 0; r1 <= n + 1; r1++) for (size_t c0 = 0; c0 <= m + 1; c0++) for (size_t c1 = 0; c1 <= m + 1; c1++) {
    if (n * m > 12 && r.below(4)) continue;
    std::string w = S("submatrix rows ", r0, "..", r1, " columns ", c0, "..", c1, " of ", n, "x", m);
    if (r0 > r1 || r1 > n || c0 > c1 || c1 > m) throws<std::logic_error>([&] { A.extract_submatrix(r0, r1, c0, c1); }, w);
    else if (r0 == r1 || c0 == c1) throws<std::invalid_argument>([&] { A.extract_submatrix(r0, r1, c0, c1); }, w);
    else eq<F>(A.extract_submatrix(r0, r1, c0, c1), r1 - r0, c1 - c0, [&](size_t i, size_t j) { return a.at(r0 + i, c0 + j); }, w); }
  throws<std::logic_error>([&] { A.extract_submatrix(~(size_t)0, 1, 0, 1); }, "huge start"); throws<std::logic_error>([&] { A.extract_submatrix(0, ~(size_t)0, 0, 1); }, "huge end"); throws<std::logic_error>([&] { A.extract_submatrix(0, 1, 0, ~(size_t)0 - 2); }, "huge end column");
  eq<F>(A, n, m, [&](size_t i, size_t j) { return a.at(i, j); }, "operand after extraction");
}
template <class F> void vand(size_t n, size_t m, Rng &r) {
  u128 p = FT<F>::p(); ctx(S("vandermonde ", n, "x", m, " p=", dec(p))); std::vector<F> al; std::vector<u128> x; for (size_t i = 0; i < n; i++) { x.push_back(i == 1 ? 0 : i == 2 ? p - 1 : FT<F>::rnd(r)); al.push_back(mk<F>(x[i])); }
  eq<F>(create_vandermonde_matrix(al, m), n, m, [&](size_t i, size_t j) { return opow(x[i], j, p); }, "vandermonde of points"); for (size_t i = 0; i < n; i++) CK(val(al[i]) == x[i], "points changed");
  for (u128 b : {(u128)0, (u128)1, p - 2, FT<F>::rnd(r)}) eq<F>(create_vandermonde_matrix(mk<F>(b), n, m), n, m, [&](size_t i, size_t j) { return opow(oadd(b, i % p, p), j, p); }, "vandermonde from base");
}
template <class F> void all(Rng &r) {
  for (size_t n = 1; n <= 5; n++) for (size_t m = 1; m <= 5; m++) for (size_t q = 1; q <= 4; q++) one<F>(n, m, q, r);
  one<F>(1, 9, 3, r); one<F>(8, 2, 11, r); one<F>(1, 1, 40, r); one<F>(7, 7, 7, r); if (g_tier) for (int i = 0; i < 60; i++) one<F>(1 + r.below(9), 1 + r.below(9), 1 + r.below(9), r);
  for (size_t n = 1; n <= 6; n++) for (size_t m = 1; m <= 6; m++) vand<F>(n, m, r); vand<F>(3, 70, r); vand<F>(20, 5, r); vand<F>(40, 33, r);
  ctx("zero dimensions"); for (auto d : std::vector<std::pair<size_t, size_t>>{{0, 0}, {0, 3}, {3, 0}}) throws<std::invalid_argument>([&] { Matrix<F> z(d.first, d.second); }, S("Matrix(", d.first, ",", d.second, ")"));
  throws<std::invalid_argument>([&] { create_vandermonde_matrix(std::vector<F>{}, 3); }, "vandermonde of no points"); throws<std::invalid_argument>([&] { create_vandermonde_matrix(mk<F>(2), 3, 0); }, "vandermonde with no columns"); throws<std::invalid_argument>([&] { create_vandermonde_matrix(mk<F>(2), 0, 3); }, "vandermonde with no rows");
  // large dimensions
  { auto a = rndm<F>(33, 65, r), b = rndm<F>(65, 34, r); ctx("33x65 times 65x34"); auto A = real(a), B = real(b); u128 p = FT<F>::p(); eq<F>(A.MatMul(B), 33, 34, [&](size_t i, size_t j) { u128 s = 0; for (size_t t = 0; t < 65; t++) s = oadd(s, omul(a.at(i, t), b.at(t, j), p), p); return s; }, "MatMul"); }
}
void run() { Rng r(g_seed); all<F61>(r); all<F127>(r); }
