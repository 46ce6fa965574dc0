#include "osha.h"
#include "frn/lib/primitives/hash.h"
using namespace frn::lib::primitives;
template <class T> void one(size_t bits, const std::vector<unsigned char> &msg, const std::vector<size_t> &cuts, int how) {
  std::string c; for (size_t k : cuts) c += S(k, ","); std::string hx; for (size_t i = 0; i < msg.size() && i < 64; i++) { char b[3]; sprintf(b, "%02x", msg[i]); hx += b; }
  ctx(S("SHA3-", bits, " of ", msg.size(), " bytes ", hx, msg.size() > 64 ? ".." : "", " in chunks ", c.substr(0, 200)));
  Hash<T> h; size_t o = 0; size_t i = 0;
  for (size_t k : cuts) { if ((how + i) % 3 == 0) { std::vector<unsigned char> v(msg.begin() + o, msg.begin() + o + k); Hash<T> &q = h.Update(v); CK(&q == &h, "Update returns another object"); }
    else { std::unique_ptr<unsigned char[]> b(new unsigned char[k + 1]); memcpy(b.get(), msg.data() + o, k); b[k] = 0xA5; Hash<T> &q = h.Update(b.get(), k); CK(&q == &h, "Update returns another object"); }
    if (how == 2 && i % 2) { Hash<T> g = h; unsigned char z[9] = {1}; g.Update(z, 9); g.Finalize(); Hash<T> f = h; h = f; } o += k; i++; }
  CK(o == msg.size(), "harness"); auto d = h.Finalize(); auto e = OSha3(bits).digest(msg); CK(d.size() == bits / 8, "digest length"); for (size_t j = 0; j < e.size(); j++) CK(d[j] == e[j], "digest byte ", j, " differs from SHA-3");
}
template <class T> void all(size_t bits, Rng &r) {
  size_t rate = 200 - bits / 4;
  { auto e = OSha3(bits).digest({}); static const unsigned char k256[4] = {0xa7, 0xff, 0xc6, 0xf8}, k384[4] = {0x0c, 0x63, 0xa7, 0x5b}, k512[4] = {0xa6, 0x9f, 0x73, 0xcc}; CK(!memcmp(e.data(), bits == 256 ? k256 : bits == 384 ? k384 : k512, 4), "harness oracle"); }
  auto msg = [&](size_t n) { std::vector<unsigned char> m(n); r.bytes(m.data(), n); return m; };
  for (size_t n = 0; n <= 2 * rate + 20; n++) { one<T>(bits, msg(n), {n}, 1); one<T>(bits, msg(n), n ? std::vector<size_t>{n - n / 3, n / 3} : std::vector<size_t>{0, 0}, 0); }
  for (size_t n : std::vector<size_t>{0, 1, 7, 8, 9, 15, 16, 17, rate - 9, rate - 8, rate - 1, rate, rate + 1, rate + 7, rate + 8}) { one<T>(bits, msg(n), std::vector<size_t>(n, 1), 1); for (size_t a = 0; a <= n; a++) { one<T>(bits, msg(n), {a, n - a}, (int)r.below(3)); } }
  for (size_t a = 0; a <= 17; a++) for (size_t b = 0; b <= 17; b++) for (size_t c = 0; c <= 9; c++) { size_t pre = rate - 24 + r.below(40); one<T>(bits, msg(pre + a + b + c), {pre, a, b, c}, (int)r.below(3)); }
  for (int i = 0; i < (g_tier ? 4000 : 500); i++) { std::vector<size_t> cuts; size_t t = 0; for (size_t k = r.below(30); k--;) { size_t c = r.below(4) ? r.below(20) : r.below(2) ? 8 * r.below(6) : r.below(3 * rate); if (r.below(9) == 0) c = 0; cuts.push_back(c); t += c; } one<T>(bits, msg(t), cuts, (int)r.below(3)); }
  for (auto v : {(unsigned char)0, (unsigned char)0xff, (unsigned char)0x80}) for (size_t n : {(size_t)1, (size_t)8, rate, 3 * rate + 5}) one<T>(bits, std::vector<unsigned char>(n, v), {n / 2, n - n / 2}, 1);
  one<T>(bits, msg(200000), {100003, 99997}, 1);
}
void run() { Rng r(g_seed); all<SHA3_256>(256, r); all<SHA3_384>(384, r); all<SHA3_512>(512, r); }
