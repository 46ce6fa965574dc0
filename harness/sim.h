// In-memory network: per ordered pair of parties a FIFO byte stream (what a TCP connection provides); records everything sent.
#pragma once
#include "orep.h"
#include "frn/network.h"
#include <iostream>
struct Wire { std::mutex m; std::condition_variable c; std::deque<unsigned char> q; std::vector<unsigned char> log; size_t nsend = 0; };
struct Hub { size_t n; std::vector<std::unique_ptr<Wire>> w; explicit Hub(size_t n) : n(n) { for (size_t i = 0; i < n * n; i++) w.emplace_back(new Wire); } Wire &at(size_t from, size_t to) { return *w[from * n + to]; }
  void drained() { for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) CK(at(i, j).q.empty(), at(i, j).q.size(), " bytes from party ", i, " to party ", j, " never received"); }
  std::vector<u128> elems(size_t i, size_t j) { auto &l = at(i, j).log; std::vector<u128> v; CK(l.size() % 8 == 0, "message from ", i, " to ", j, " is not a whole number of elements"); for (size_t k = 0; k < l.size(); k += 8) { u128 x = 0; for (int b = 7; b >= 0; b--) x = (x << 8) | l[k + b]; v.push_back(x); } return v; } };
class SimNet : public frn::Network {
 public:
  std::shared_ptr<Hub> h; SimNet(unsigned id, std::shared_ptr<Hub> h) : frn::Network(id, h->n), h(h) {}
  void raw(unsigned id, const std::vector<unsigned char> &b) { CK(id < h->n, "send to party ", id, " of ", h->n); Wire &w = h->at(Id(), id); std::lock_guard<std::mutex> l(w.m); w.q.insert(w.q.end(), b.begin(), b.end()); w.log.insert(w.log.end(), b.begin(), b.end()); w.nsend++; w.c.notify_all(); }
  std::vector<unsigned char> rawr(unsigned id, size_t n) { CK(id < h->n, "receive from party ", id, " of ", h->n); Wire &w = h->at(id, Id()); std::unique_lock<std::mutex> l(w.m); if (!w.c.wait_for(l, std::chrono::seconds(15), [&] { return w.q.size() >= n; })) fail(S("party ", Id(), " waits for ", n, " bytes from party ", id, " that are never sent (", w.q.size(), " available)")); std::vector<unsigned char> r(w.q.begin(), w.q.begin() + n); w.q.erase(w.q.begin(), w.q.begin() + n); return r; }
  void Send(unsigned id, const std::vector<frn::Field> &v) override { std::vector<unsigned char> b(v.size() * 8); for (size_t i = 0; i < v.size(); i++) { u64 x = (u64)val(v[i]); memcpy(&b[8 * i], &x, 8); } raw(id, b); }
  void SendShares(unsigned id, const std::vector<frn::Shr> &s) override { for (auto &x : s) Send(id, x); }
  void SendBytes(unsigned id, const std::vector<unsigned char> &d) override { raw(id, d); }
  std::vector<frn::Field> Recv(unsigned id, size_t n) override { auto b = rawr(id, n * 8); std::vector<frn::Field> v; for (size_t i = 0; i < n; i++) { u64 x; memcpy(&x, &b[8 * i], 8); v.push_back(frn::Field(x)); } return v; }
  std::vector<frn::Shr> RecvShares(unsigned id, size_t n) override { std::vector<frn::Shr> v; for (size_t i = 0; i < n; i++) v.push_back(Recv(id, ss)); return v; }
  std::vector<unsigned char> RecvBytes(unsigned id, size_t n) override { return rawr(id, n); }
  size_t ss = 0;
};
static std::vector<std::shared_ptr<SimNet>> sim(size_t n, size_t share_size, std::shared_ptr<Hub> &h) { h = std::make_shared<Hub>(n); std::vector<std::shared_ptr<SimNet>> v; for (size_t i = 0; i < n; i++) { v.push_back(std::make_shared<SimNet>((unsigned)i, h)); v.back()->ss = share_size; } return v; }
static void par(size_t n, std::function<void(size_t)> f) { std::vector<std::thread> t; for (size_t i = 0; i < n; i++) t.emplace_back([&, i] { try { f(i); } catch (const std::exception &e) { fail(S("party ", i, ": unexpected exception: ", e.what())); } }); for (auto &x : t) x.join(); }
static void quietcout() { static struct N : std::streambuf { int overflow(int c) override { return c; } } nb; std::cout.rdbuf(&nb); }
// independent reconstruction of n shares; fails if holders disagree
static u128 open(const ORep &o, const std::vector<std::vector<F61>> &sh, const std::string &w) { std::vector<u128> add(o.sets.size()); std::vector<int> by(o.sets.size(), -1); for (size_t q = 0; q < o.n; q++) { CK(sh[q].size() == o.idx[q].size(), w, ": share of party ", q, " has ", sh[q].size(), " elements"); for (size_t j = 0; j < sh[q].size(); j++) { size_t s = o.idx[q][j]; u128 v = val(sh[q][j]); if (by[s] >= 0) CK(add[s] == v, w, ": parties ", by[s], " and ", q, " disagree on element ", s); add[s] = v; by[s] = (int)q; } } u128 t = 0; for (u128 v : add) t = oadd(t, v, P61); return t; }
// correlators with generators derived consistently from 2d+1 dealer keys
#include "frn/corr.h"
struct Deal { std::vector<std::vector<std::array<unsigned char, 16>>> seed;
  Deal(const ORep &o, Rng &r, bool zero) { seed.resize(2 * o.t + 1); for (auto &d : seed) { d.resize(o.sets.size()); for (auto &s : d) { s.fill(0); if (!zero) r.bytes(s.data(), 16); } } }
  frn::Correlator corr(const ORep &o, const Replicator<F61> &rp, size_t q) const { frn::Correlator c((unsigned)q, rp); if (q < 2 * o.t + 1) { std::vector<PRG> own; for (auto &s : seed[q]) own.emplace_back(s.data()); c.SetOwnPRGs(own); } for (size_t j = 0; j < 2 * o.t + 1; j++) { std::vector<PRG> v; for (int a : o.idx[q]) v.emplace_back(seed[j][a].data()); c.SetRandPRGs(v, (unsigned)j); } return c; } };
