#include "orep.h"
#include "frn/tcp_network.h"
#include <iostream>
#include <csignal>
#include <netinet/in.h>
#include <sys/socket.h>
using namespace frn;
struct Cap : std::streambuf { std::string s; int overflow(int c) override { if (c != EOF) s.push_back((char)c); return c; } };
struct Msg { int kind; size_t n; std::vector<unsigned char> bytes; };
void one(size_t n, int rounds, Rng &r) {
  int base = 0; std::vector<std::shared_ptr<TcpNetwork>> net(n); size_t t = (n - 1) / 3; Replicator<F61> rp(n, t); size_t ssz = rp.ShareSize();
  for (int tries = 0;; tries++) { base = 12000 + (int)((getpid() * 131 + r.below(40000)) % 45000); ctx(S("n=", n, " connecting at base port ", base)); std::vector<std::exception_ptr> ex(n);
    // listeners must all be free: try to reserve each port first
    bool ok = true; for (size_t i = 0; i < n && ok; i++) for (size_t j = i + 1; j < n && ok; j++) { int s = ::socket(AF_INET, SOCK_STREAM, 0); int opt = 1; ::setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof opt); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t)(base + (int)(i * n + j))); if (::bind(s, (sockaddr *)&a, sizeof a)) ok = false; ::close(s); } if (!ok) { if (tries > 50) fail("harness: no free ports"); continue; }
    for (size_t i = 0; i < n; i++) net[i] = TcpNetwork::CreateWithLocalParties((unsigned)i, n, (unsigned)base, false); std::vector<std::thread> th; for (size_t i = 0; i < n; i++) th.emplace_back([&, i] { net[i]->Connect(); g_beat++; }); for (auto &x : th) x.join(); break; }
  for (size_t i = 0; i < n; i++) CK(net[i]->Id() == i && net[i]->Size() == n, "identifier or size");
  std::vector<std::vector<size_t>> sent(n, std::vector<size_t>(n, 0)), recvd = sent;
  for (int rd = 0; rd < rounds; rd++) {
    std::vector<std::vector<std::vector<Msg>>> m(n, std::vector<std::vector<Msg>>(n)); std::vector<std::vector<std::vector<unsigned char>>> st(n, std::vector<std::vector<unsigned char>>(n));
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (r.below(4)) for (size_t k = r.below(4); k--;) { Msg x; x.kind = (int)r.below(3); x.n = r.below(8) ? r.below(9) : r.below(2) ? 0 : r.below(8) ? 3000 : x.kind == 2 ? 65536 + 8 * r.below(9000) : 8000 + r.below(2000); size_t len = x.kind == 2 ? x.n : x.kind == 1 ? x.n * ssz * 8 : x.n * 8; if (r.below(2) && x.kind == 2) { x.n = len = (x.n + 7) / 8 * 8; } x.bytes.resize(len); if (x.kind == 2) r.bytes(x.bytes.data(), len); else for (size_t z = 0; z < len; z += 8) { u64 v = r.below(9) ? r.next() % (u64)P61 : (r.below(2) ? (u64)P61 - 1 : 0); memcpy(&x.bytes[z], &v, 8); } st[i][j].insert(st[i][j].end(), x.bytes.begin(), x.bytes.end()); sent[i][j] += len; recvd[j][i] += len; m[i][j].push_back(x); }
    ctx(S("n=", n, " base ", base, " round ", rd)); std::vector<u64> sd(n); for (auto &x : sd) x = r.next();
    std::vector<std::thread> th; for (size_t i = 0; i < n; i++) th.emplace_back([&, i] { try {
      Rng lr(sd[i]); for (size_t j0 = 0; j0 < n; j0++) { size_t j = (j0 + i) % n; for (auto &x : m[i][j]) { if (x.kind == 2) net[i]->SendBytes((unsigned)j, x.bytes); else { std::vector<Field> f; for (size_t z = 0; z < x.bytes.size(); z += 8) { u64 v; memcpy(&v, &x.bytes[z], 8); f.push_back(Field(v)); } if (x.kind == 0) net[i]->Send((unsigned)j, f); else { std::vector<Shr> s; for (size_t z = 0; z < x.n; z++) s.emplace_back(f.begin() + (long)(z * ssz), f.begin() + (long)((z + 1) * ssz)); net[i]->SendShares((unsigned)j, s); } } } }
      for (size_t j0 = 0; j0 < n; j0++) { size_t j = (i + n - j0) % n; auto &s = st[j][i]; bool aligned = true; for (auto &x : m[j][i]) if (x.kind == 2) aligned = false; size_t o = 0; auto chk = [&](const std::vector<Field> &v) { for (auto &f : v) { CK(o + 8 <= s.size(), "too many values"); u64 w; memcpy(&w, &s[o], 8); CK(val(f) == w, "party ", i, " receives ", dec(val(f)), " from party ", j, " at byte ", o, ", sent ", w); o += 8; } };
        if (aligned && lr.below(2)) { while (o < s.size()) { size_t left = (s.size() - o) / 8, k = 1 + lr.below(left); if (lr.below(3) == 0 && left >= ssz) { size_t c = 1 + lr.below(left / ssz); auto v = net[i]->RecvShares((unsigned)j, c); CK(v.size() == c, "number of shares"); for (auto &x : v) { CK(x.size() == ssz, "share size ", x.size()); chk(x); } } else { auto v = net[i]->Recv((unsigned)j, k); CK(v.size() == k, "number of values"); chk(v); } } }
        else for (auto &x : m[j][i]) { if (x.kind == 2) { auto b = net[i]->RecvBytes((unsigned)j, x.n); CK(b == x.bytes, "party ", i, " receives other bytes from party ", j); o += x.n; } else if (x.kind == 0) { auto v = net[i]->Recv((unsigned)j, x.n); CK(v.size() == x.n, "number of values ", v.size()); chk(v); } else { auto v = net[i]->RecvShares((unsigned)j, x.n); CK(v.size() == x.n, "number of shares"); for (auto &y : v) { CK(y.size() == ssz, "share size"); chk(y); } } }
        g_beat++; }
      } catch (const std::exception &e) { fail(S("party ", i, ": unexpected exception ", e.what())); } }); for (auto &x : th) x.join();
  }
  for (size_t i = 0; i < n; i++) { Cap c; auto *old = std::cout.rdbuf(&c); net[i]->PrintCommunicationSummary(); std::cout.rdbuf(old); ctx(S("n=", n, " summary of party ", i)); std::map<size_t, std::vector<size_t>> got; std::istringstream in(c.s); std::string line; bool first = true; while (std::getline(in, line)) { if (first || line.empty()) { first = false; continue; } std::vector<size_t> nums; for (size_t p = 0; p < line.size();) if (isdigit(line[p])) { size_t v = 0; while (p < line.size() && isdigit(line[p])) v = v * 10 + (size_t)(line[p++] - '0'); nums.push_back(v); } else p++; CK(nums.size() >= 2, "summary line '", line, "'"); size_t peer = nums[0]; CK(!got.count(peer), "two lines for one peer"); bool s = line.find("sent") != std::string::npos, rc = line.find("received") != std::string::npos; if (s && rc) { CK(nums.size() == 3, line); got[peer] = {nums[1], nums[2]}; } else if (s) got[peer] = {nums[1], 0}; else got[peer] = {0, nums[1]}; }
    for (size_t j = 0; j < n; j++) { size_t s = got.count(j) ? got[j][0] : 0, v = got.count(j) ? got[j][1] : 0; CK(s == sent[i][j], "sent to ", j, " counted as ", s, ", actually ", sent[i][j]); CK(v == recvd[i][j], "received from ", j, " counted as ", v, ", actually ", recvd[i][j]); } }
  std::vector<std::thread> th; for (size_t i = 0; i < n; i++) th.emplace_back([&, i] { net[i]->Close(); }); for (auto &x : th) x.join();
}
void run() { signal(SIGPIPE, SIG_IGN); Rng r(g_seed * 7919 + getpid()); one(4, 0, r); one(4, 12, r); one(5, 6, r); one(7, 4, r); if (g_tier) for (int i = 0; i < 12; i++) one(4 + r.below(5), 6, r); }
