#include "hf.h"
#include "frn/lib/math/vec.h"
namespace V = frn::lib::math::vector;
template <class F> void one(size_t n, Rng &r) {
  u128 p = FT<F>::p(); ctx(S("length ", n, " p=", dec(p)));
  std::vector<F> a, b; std::vector<u128> x, y;
  auto e = edges<F>(); auto pick = [&] { return r.below(3) ? FT<F>::rnd(r) : e[r.below(e.size())]; };
  for (size_t i = 0; i < n; i++) { x.push_back(pick()); y.push_back(pick()); a.push_back(mk<F>(x[i])); b.push_back(mk<F>(y[i])); }
  u128 k = pick(); F kk = mk<F>(k);
  auto eq = [&](const std::vector<F> &v, std::function<u128(size_t)> f, const char *w) { CK(v.size() == n, w, ": result has length ", v.size()); for (size_t i = 0; i < n; i++) CK(val(v[i]) == f(i), w, ": entry ", i, " is ", dec(val(v[i])), " expected ", dec(f(i))); };
  auto intact = [&](const char *w) { CK(a.size() == n && b.size() == n, w, " resized an operand"); for (size_t i = 0; i < n; i++) CK(val(a[i]) == x[i] && val(b[i]) == y[i], w, " changed an operand at ", i); };
  auto fa = [&](size_t i) { return oadd(x[i], y[i], p); }; auto fs = [&](size_t i) { return osub(x[i], y[i], p); }; auto fm = [&](size_t i) { return omul(x[i], y[i], p); }; auto fk = [&](size_t i) { return omul(x[i], k, p); };
  eq(V::Add(a, b), fa, "Add"); eq(V::Subtract(a, b), fs, "Subtract"); eq(V::Multiply(a, b), fm, "Multiply"); eq(V::Scale(a, kk), fk, "Scale"); intact("pure operation");
  u128 s = 0, d = 0; for (size_t i = 0; i < n; i++) { s = oadd(s, x[i], p); d = oadd(d, fm(i), p); }
  CK(val(V::Sum(a)) == s, "Sum"); CK(val(V::Dot(a, b)) == d, "Dot gives ", dec(val(V::Dot(a, b))), " expected ", dec(d)); intact("fold");
  auto c = a; auto &rc = V::AddInto(c, b); CK(&rc == &c, "AddInto result"); eq(c, fa, "AddInto"); c = a; V::SubtractInto(c, b); eq(c, fs, "SubtractInto"); c = a; V::MultiplyInto(c, b); eq(c, fm, "MultiplyInto"); c = a; V::ScaleBy(c, kk); eq(c, fk, "ScaleBy"); intact("in-place operation"); CK(val(kk) == k, "scalar changed");
  c = a; V::AddInto(c, c); eq(c, [&](size_t i) { return oadd(x[i], x[i], p); }, "AddInto(a,a)"); c = a; V::SubtractInto(c, c); eq(c, [&](size_t) { return (u128)0; }, "SubtractInto(a,a)"); c = a; V::MultiplyInto(c, c); eq(c, [&](size_t i) { return omul(x[i], x[i], p); }, "MultiplyInto(a,a)");
  if (n) { size_t q = r.below(n); c = a; V::ScaleBy(c, c[q]); eq(c, [&](size_t i) { return omul(x[i], x[q], p); }, "ScaleBy(a,a[q])"); eq(V::Scale(a, a[q]), [&](size_t i) { return omul(x[i], x[q], p); }, "Scale(a,a[q])"); }
  CK(val(V::Dot(a, a)) == [&] { u128 t = 0; for (size_t i = 0; i < n; i++) t = oadd(t, omul(x[i], x[i], p), p); return t; }(), "Dot(a,a)");
  for (size_t m : {n + 1, n ? n - 1 : n + 2, (size_t)0, 2 * n + 1}) if (m != n) {
    std::vector<F> z(m, mk<F>(7)); c = a;
    throws<std::logic_error>([&] { V::Add(a, z); }, S("Add of lengths ", n, ",", m)); throws<std::logic_error>([&] { V::Subtract(a, z); }, "Subtract of different lengths"); throws<std::logic_error>([&] { V::Multiply(a, z); }, "Multiply of different lengths"); throws<std::logic_error>([&] { V::Dot(a, z); }, "Dot of different lengths");
    throws<std::logic_error>([&] { V::AddInto(c, z); }, "AddInto of different lengths"); throws<std::logic_error>([&] { V::SubtractInto(c, z); }, "SubtractInto of different lengths"); throws<std::logic_error>([&] { V::MultiplyInto(c, z); }, "MultiplyInto of different lengths");
    eq(c, [&](size_t i) { return x[i]; }, "rejected in-place operation");
  }
}
void run() { Rng r(g_seed); for (size_t n = 0; n < 70; n++) { one<F61>(n, r); one<F127>(n, r); } for (size_t n : {127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4097}) { one<F61>(n, r); one<F127>(n, r); } for (int i = 0; i < (g_tier ? 2000 : 200); i++) { one<F61>(r.below(40), r); one<F127>(r.below(20), r); } }
