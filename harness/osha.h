// Independent SHA-3 (FIPS 202), bit-level lanes from the definition: rotation offsets and round constants are computed, not tabulated.
#pragma once
#include "h.h"
struct OSha3 {
  size_t dlen, rate; u64 A[5][5]; std::vector<unsigned char> m;
  explicit OSha3(size_t bits) : dlen(bits / 8), rate(200 - 2 * (bits / 8)) { memset(A, 0, sizeof A); }
  static u64 rot(u64 x, int n) { n &= 63; return n ? (x << n) | (x >> (64 - n)) : x; }
  void perm() {
    unsigned char lf = 1; auto rc = [&]() { int b = lf & 1; lf = (unsigned char)((lf << 1) ^ ((lf >> 7) * 0x71)); return b; };
    for (int rd = 0; rd < 24; rd++) {
      u64 C[5], B[5][5]; for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] ^= C[(x + 4) % 5] ^ rot(C[(x + 1) % 5], 1);
      int off[5][5]; off[0][0] = 0; int x = 1, y = 0; for (int t = 0; t < 24; t++) { off[x][y] = ((t + 1) * (t + 2) / 2) % 64; int ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
      for (x = 0; x < 5; x++) for (y = 0; y < 5; y++) B[y][(2 * x + 3 * y) % 5] = rot(A[x][y], off[x][y]);
      for (x = 0; x < 5; x++) for (y = 0; y < 5; y++) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
      u64 k = 0; for (int j = 0; j <= 6; j++) if (rc()) k |= 1ULL << ((1 << j) - 1); A[0][0] ^= k;
    }
  }
  std::vector<unsigned char> digest(const std::vector<unsigned char> &in) {
    std::vector<unsigned char> p = in; p.push_back(0x06); while (p.size() % rate) p.push_back(0); p.back() |= 0x80;
    for (size_t o = 0; o < p.size(); o += rate) { for (size_t i = 0; i < rate; i++) A[(i / 8) % 5][(i / 8) / 5] ^= (u64)p[o + i] << (8 * (i % 8)); perm(); }
    std::vector<unsigned char> d; for (size_t i = 0; i < dlen; i++) d.push_back((unsigned char)(A[(i / 8) % 5][(i / 8) / 5] >> (8 * (i % 8)))); return d;
  }
};
