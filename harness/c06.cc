#include "oaes.h"
#include "frn/lib/primitives/prg.h"
using frn::lib::primitives::PRG;
static std::string hex(const unsigned char *p, size_t n) { std::string s; char b[3]; for (size_t i = 0; i < n; i++) { sprintf(b, "%02x", p[i]); s += b; } return s; }
static std::string hist;
static void req(PRG &g, OPrg &o, size_t n, int how, Rng &r) {
  hist += S(" ", n, how == 1 ? "v" : how == 2 ? "w" : how == 3 ? "!" : ""); ctx(hist); auto e = o.next(how == 3 ? 0 : n);
  if (how == 0) { std::vector<unsigned char> b(n + 48), q; r.bytes(b.data(), b.size()); q = b; size_t off = r.below(32); g.Next(b.data() + off, n);
    for (size_t i = 0; i < b.size(); i++) { unsigned char w = i >= off && i < off + n ? e[i - off] : q[i]; CK(b[i] == w, "byte ", (long)i - (long)off, " of a request of ", n, " differs from the keystream"); } }
  else if (how == 1) { std::vector<unsigned char> b(n); r.bytes(b.data(), n); g.Next(b); CK(b == e, "vector request of ", n, " bytes differs from the keystream"); }
  else if (how == 2) { std::vector<unsigned char> b(n + r.below(40)), q; r.bytes(b.data(), b.size()); q = b; g.Next(b, n); CK(b.size() == q.size(), "vector resized"); for (size_t i = 0; i < b.size(); i++) CK(b[i] == (i < n ? e[i] : q[i]), "byte ", i, " of a partial vector request of ", n); }
  else { std::vector<unsigned char> b(n), q; r.bytes(b.data(), n); q = b; throws<std::runtime_error>([&] { g.Next(b, n + 1 + r.below(64)); }, "request larger than the vector"); CK(b == q, "rejected request wrote to the vector"); }
  CK(g.Counter() == (long)o.c, "Counter is ", g.Counter(), " after ", o.c, " blocks");
}
static void hops(const unsigned char *seed, bool zero, int len, Rng &r) {
  hist = S("seed ", zero ? "default" : hex(seed, 16), " requests:"); ctx(hist);
  PRG g0, g1(seed); PRG g = zero ? g0 : g1; OPrg o(seed); CK(!memcmp(g.Seed(), seed, 16), "Seed() differs"); CK(g.Counter() == 0, "initial counter");
  for (int i = 0; i < len; i++) {
    int k = (int)r.below(20); size_t n = r.below(3) ? r.below(70) : r.below(2) ? 16 * r.below(9) : r.below(600);
    if (k == 0) { g.Reset(); o.c = 0; hist += " reset"; CK(g.Counter() == 0, "counter after Reset"); continue; }
    if (k == 1) { PRG h = g; OPrg oo = o; std::string sv = hist; hist += " [copy"; for (int j = 0; j < 3; j++) req(h, oo, r.below(50), 0, r); hist = sv + " copied"; continue; }
    if (k == 2) { PRG h(seed); req(h, *std::make_unique<OPrg>(seed), 5, 0, r); h = g; g = h; hist += " assigned"; continue; }
    if (k == 3) { std::vector<PRG> v(2, g); v.push_back(g); v.resize(9); g = v[2]; hist += " stored"; continue; }
    req(g, o, n, (int)r.below(4), r);
  }
}
void run() {
  Rng r(g_seed); unsigned char z[16] = {0};
  for (int i = 0; i < (g_tier ? 600 : 40); i++) { unsigned char s[16]; r.bytes(s, 16); if (i < 8) memset(s, i * 0x25, 16); if (i % 5 == 1) { memset(s, 0, 16); s[r.below(16)] = (unsigned char)(1 << r.below(8)); } hops(s, false, 60, r); hops(z, true, 60, r); }
  for (size_t n = 0; n <= 530; n++) { unsigned char s[16]; r.bytes(s, 16); hist = S("seed ", hex(s, 16), " requests:"); PRG g(s); OPrg o(s); req(g, o, n, 0, r); req(g, o, n % 37, 1, r); }
  { unsigned char s[16]; r.bytes(s, 16); hist = S("seed ", hex(s, 16), " requests:"); PRG g(s); OPrg o(s); req(g, o, 5000000, 1, r); req(g, o, 70000, 0, r); req(g, o, 1, 0, r); }
}
