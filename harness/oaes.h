// Independent AES-128 (FIPS 197) used as oracle for the generator.
#pragma once
#include "h.h"
struct OAes {
  unsigned char sb[256], rk[176];
  static unsigned char xt(unsigned char a) { return (unsigned char)((a << 1) ^ ((a >> 7) * 0x1b)); }
  static unsigned char mul(unsigned char a, unsigned char b) { unsigned char r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
  explicit OAes(const unsigned char *k) {
    for (int i = 0; i < 256; i++) { unsigned char inv = 0; for (int j = 1; j < 256 && i; j++) if (mul((unsigned char)i, (unsigned char)j) == 1) { inv = (unsigned char)j; break; }
      unsigned char s = 0; for (int b = 0; b < 8; b++) { int v = (inv >> b) ^ (inv >> ((b + 4) & 7)) ^ (inv >> ((b + 5) & 7)) ^ (inv >> ((b + 6) & 7)) ^ (inv >> ((b + 7) & 7)) ^ (0x63 >> b); s |= (unsigned char)((v & 1) << b); } sb[i] = s; }
    memcpy(rk, k, 16); unsigned char rc = 1;
    for (int i = 4; i < 44; i++) { unsigned char t[4]; memcpy(t, rk + 4 * (i - 1), 4); if (i % 4 == 0) { unsigned char z = t[0]; t[0] = sb[t[1]] ^ rc; t[1] = sb[t[2]]; t[2] = sb[t[3]]; t[3] = sb[z]; rc = xt(rc); } for (int j = 0; j < 4; j++) rk[4 * i + j] = rk[4 * (i - 4) + j] ^ t[j]; }
  }
  void enc(const unsigned char *in, unsigned char *out) const {
    unsigned char s[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[i];
    for (int r = 1; r <= 10; r++) { unsigned char t[16]; for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) t[4 * c + w] = sb[s[4 * ((c + w) & 3) + w]];
      if (r < 10) for (int c = 0; c < 4; c++) { unsigned char *q = t + 4 * c, a = q[0], b = q[1], d = q[2], e = q[3], x = a ^ b ^ d ^ e; q[0] = a ^ x ^ xt(a ^ b); q[1] = b ^ x ^ xt(b ^ d); q[2] = d ^ x ^ xt(d ^ e); q[3] = e ^ x ^ xt(e ^ a); }
      for (int i = 0; i < 16; i++) s[i] = t[i] ^ rk[16 * r + i]; }
    memcpy(out, s, 16);
  }
};
// keystream position: a request of n bytes consumes ceil(n/16) blocks
struct OPrg {
  OAes a; u64 c = 0; explicit OPrg(const unsigned char *seed) : a(seed) {}
  std::vector<unsigned char> next(size_t n) { std::vector<unsigned char> o; while (o.size() < n) { unsigned char in[16], out[16]; u64 nonce = 0x0123456789ABCDEFULL; for (int i = 0; i < 8; i++) { in[i] = (unsigned char)(c >> (8 * i)); in[8 + i] = (unsigned char)(nonce >> (8 * i)); } a.enc(in, out); o.insert(o.end(), out, out + 16); c++; } o.resize(n); return o; }
};
