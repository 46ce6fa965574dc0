// Shared by all harnesses: generator, oracle arithmetic, reporting. Independent of the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <deque>
#include <memory>
#include <algorithm>
#include <unistd.h>
typedef uint64_t u64; typedef unsigned __int128 u128;
struct Rng {
  u64 s; explicit Rng(u64 x) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u128 next128() { u128 h = next(); return (h << 64) | next(); }
  void bytes(unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (unsigned char)next(); }
};
static const u128 P61 = (((u128)1) << 61) - 1, P127 = (((u128)1) << 127) - 1;
static inline u128 oadd(u128 a, u128 b, u128 p) { u128 s = a + b; return s >= p ? s - p : s; }
static inline u128 osub(u128 a, u128 b, u128 p) { return a >= b ? a - b : a + (p - b); }
static inline u128 omul(u128 a, u128 b, u128 p) { u128 r = 0; while (b) { if (b & 1) r = oadd(r, a, p); a = oadd(a, a, p); b >>= 1; } return r; }
static inline u128 opow(u128 a, u128 e, u128 p) { u128 r = 1; while (e) { if (e & 1) r = omul(r, a, p); a = omul(a, a, p); e >>= 1; } return r; }
static inline std::string dec(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }
static u64 g_evals = 0, g_distinct = 0; static std::string g_ctx, g_sample; static std::mutex g_mu;
static std::atomic<u64> g_beat{0};
static int g_seed = 1, g_tier = 0;
[[noreturn]] static void fail(const std::string &m) {
  { std::lock_guard<std::mutex> l(g_mu); printf("FAIL %s [case: %s]\n", m.c_str(), g_ctx.c_str()); fflush(stdout); }
  _exit(1);
}
static void ctx(const std::string &s) { std::lock_guard<std::mutex> l(g_mu); g_ctx = s; g_evals++; g_distinct++; g_beat++; if (g_sample.empty() || g_evals % 997 == 0) g_sample = s; }
template <class... A> static std::string S(A &&...a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }
#define CK(c, ...) do { if (!(c)) fail(S(__VA_ARGS__)); } while (0)
// expects exception of exactly the family E; anything else is a failure
template <class E, class F> static void throws(F f, const std::string &what) {
  try { f(); } catch (const E &) { return; } catch (const std::exception &e) { fail(what + ": wrong exception: " + e.what()); }
  fail(what + ": no exception");
}
void run();
int main(int argc, char **argv) {
  if (argc > 1) g_seed = atoi(argv[1]);
  if (argc > 2) g_tier = atoi(argv[2]);
  setvbuf(stdout, 0, _IOLBF, 0);
  std::thread([] { u64 last = ~0ULL; int idle = 0; while (true) { sleep(1); if (g_beat == last) { if (++idle >= 90) { fail("no progress for 90 s (hang)"); } } else { idle = 0; last = g_beat; } } }).detach();
  try { run(); } catch (const std::exception &e) { fail(std::string("unexpected exception: ") + e.what()); }
  printf("DONE evaluations=%llu distinct=%llu\nSAMPLE %s\n", (unsigned long long)g_evals, (unsigned long long)g_distinct, g_sample.c_str());
  fflush(stdout); _exit(0);
}
