#pragma once
#include "h.h"
#include <iostream>
#include <csignal>
#include <cerrno>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "frn/lib/net/connector.h"
#include "frn/lib/net/channel.h"
#include "frn/lib/net/sysi.h"
using namespace frn::lib::net;
typedef frn::lib::net::SystemInterface SysI;
// Operating system stand-in: one scripted socket. Reads/writes are served partially, according to the script; nothing real is touched.
struct Os : SysI {
  enum { PARTIAL, FAIL_, EOF_ }; std::mutex m; std::vector<unsigned char> in, out; size_t ipos = 0; int fd = 77; std::vector<size_t> rs, ws; size_t ri = 0, wi = 0; long failr = -1, failw = -1, reads = 0, writes = 0; bool eof_at_end = true; int err = ECONNRESET; int closes = 0, badfd = 0; int slow = 0; std::string log; int fail_create = 0, fail_opt = 0, fail_bind = 0, fail_listen = 0, fail_accept = 0, fail_close = 0; int bound = -1;
  int get_errno() override { return err; }
  int close(int f) override { std::lock_guard<std::mutex> l(m); if (f != fd) badfd++; closes++; return fail_close ? -1 : 0; }
  int create_socket(int, int, int) override { return fail_create ? -1 : 55; }
  int set_socket_options(int, int, int, const void *, socklen_t) override { return fail_opt ? -1 : 0; }
  int bind(int, const struct sockaddr *a, socklen_t) override { bound = ntohs(((const struct sockaddr_in *)a)->sin_port); return fail_bind ? -1 : 0; }
  int listen(int, int) override { return fail_listen ? -1 : 0; }
  int accept(int, struct sockaddr *, socklen_t *) override { return fail_accept ? -1 : fd; }
  ssize_t write(int f, const void *b, size_t n) override { if (slow) usleep((useconds_t)slow); std::lock_guard<std::mutex> l(m); g_beat++; if (f != fd) badfd++; if (closes) { badfd++; return -1; } if (writes++ == failw) return -1; size_t k = ws.empty() ? n : std::min(n, ws[wi++ % ws.size()]); const unsigned char *p = (const unsigned char *)b; out.insert(out.end(), p, p + k); return (ssize_t)k; }
  ssize_t read(int f, void *b, size_t n) override { std::lock_guard<std::mutex> l(m); g_beat++; if (f != fd) badfd++; if (reads++ == failr) return -1; size_t k = rs.empty() ? n : std::min(n, rs[ri++ % rs.size()]); k = std::min(k, in.size() - ipos); if (!k && n) { if (reads > 100000000) fail("endless read loop"); if (reads > (long)in.size() + 10000) fail("keeps reading after the peer disconnected"); return 0; } memcpy(b, in.data() + ipos, k); ipos += k; return (ssize_t)k; }
};
static std::vector<size_t> script(Rng &r) { std::vector<size_t> s; switch (r.below(6)) { case 0: break; case 1: s = {1}; break; case 2: s = {1, 1000000}; break; case 3: s = {4096}; break; default: for (size_t i = 1 + r.below(9); i--;) s.push_back(1 + r.below(r.below(2) ? 7 : 700)); } return s; }
static std::string ss(const std::vector<size_t> &v) { std::string s = "["; for (size_t x : v) s += S(x, " "); return s + "]"; }
