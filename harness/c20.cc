#include "net.h"
#include "frn/lib/net/shared_deque.h"
#include <numeric>
void fifo(Rng &r, int layer, bool threaded, bool big = false) {
  std::vector<size_t> sends, recvs; size_t t = 0; for (size_t i = r.below(14); i--;) { size_t n = big && r.below(3) == 0 ? 4000 + r.below(300000) : r.below(3) ? r.below(40) : r.below(2) ? r.below(3) : r.below(3000); if (layer != 2 && !n) n = layer == 1 ? 0 : 1; sends.push_back(n); t += n; } size_t left = t; while (left) { size_t n = std::min(left, r.below(3) ? 1 + r.below(50) : 1 + r.below(big ? 200000 : 2000)); recvs.push_back(n); left -= n; if (r.below(9) == 0) recvs.push_back(0); }
  ctx(S(layer == 0 ? "local connector" : layer == 1 ? "channel" : "asynchronous channel", threaded ? " (two threads)" : "", " sends ", ss(sends), " receives ", ss(recvs))); std::vector<unsigned char> src(t); r.bytes(src.data(), t); auto buf = LocalConnector::MakeBuffer(); auto lc = std::make_unique<LocalConnector>(buf, buf); LocalConnector *l = lc.get(); std::unique_ptr<Connector> cu = std::move(lc); std::unique_ptr<Channel> ch; if (layer == 1) ch.reset(new Channel(cu)); if (layer == 2) ch.reset(new AsyncSenderChannel(cu)); if (ch) ch->Open(); else l->Connect();
  auto snd = [&] { size_t o = 0; for (size_t n : sends) { std::unique_ptr<unsigned char[]> b(new unsigned char[n + 1]); memcpy(b.get(), src.data() + o, n); if (ch) ch->Send(b.get(), n); else CK(l->Send(b.get(), n) == (int64_t)n, "Send result"); memset(b.get(), 0x77, n); o += n; } };
  auto rcv = [&] { size_t o = 0; for (size_t n : recvs) { std::vector<unsigned char> b(n + 24, 0xC3); if (ch) ch->Recv(b.data() + 8, n); else { size_t g = 0; while (g < n) { int64_t k = l->Recv(b.data() + 8 + g, n - g); CK(k >= 0 && (size_t)k <= n - g, "Recv returns ", k, " for a request of ", n - g); CK(k > 0, "Recv makes no progress"); g += (size_t)k; } } for (size_t i = 0; i < b.size(); i++) { unsigned char w = i >= 8 && i < 8 + n ? src[o + i - 8] : 0xC3; CK(b[i] == w, "byte ", o + i - 8, " of the stream is wrong"); } o += n; } };
  if (threaded) { std::thread a(snd); rcv(); a.join(); } else { snd(); rcv(); }
  if (layer != 2) CK(buf->Size() == (size_t)std::count(sends.begin(), sends.end(), (size_t)0) * (layer == 0) || layer == 1, "messages left in the queue");
  if (ch) ch->Close();
}
// interleaved sends and receives on one thread
void inter(Rng &r, int layer) {
  auto buf = LocalConnector::MakeBuffer(); std::unique_ptr<Connector> cu(new LocalConnector(buf, buf)); std::unique_ptr<Channel> ch; if (layer) ch.reset(new AsyncSenderChannel(cu)); else ch.reset(new Channel(cu)); ch->Open(); std::deque<unsigned char> q; std::string h = layer ? "async:" : "sync:";
  for (int k = 0; k < 60; k++) { if (r.below(2)) { size_t n = r.below(20); std::vector<unsigned char> b(n); r.bytes(b.data(), n); h += S(" send ", n); ctx(h); ch->Send(b.data(), n); q.insert(q.end(), b.begin(), b.end()); } else { size_t n = r.below(q.size() + 1); std::vector<unsigned char> b(n); h += S(" recv ", n); ctx(h); ch->Recv(b.data(), n); for (size_t i = 0; i < n; i++) { CK(b[i] == q.front(), "byte ", i); q.pop_front(); } } }
  std::vector<unsigned char> b(q.size()); ch->Recv(b.data(), b.size()); CK(std::equal(b.begin(), b.end(), q.begin()), "remaining bytes"); ch->Close();
}
// two connectors crosswise
void cross(Rng &r) { auto x = LocalConnector::MakeBuffer(), y = LocalConnector::MakeBuffer(); LocalConnector a(x, y), b(y, x); ctx("two connectors crosswise"); for (int k = 0; k < 20; k++) { unsigned char m[40], g[40]; size_t n = 1 + r.below(40); r.bytes(m, n); LocalConnector &s = r.below(2) ? a : b; LocalConnector &d = &s == &a ? b : a; s.Send(m, n); size_t o = 0; while (o < n) o += (size_t)d.Recv(g + o, n - o); CK(!memcmp(m, g, n), "content"); } }
void deque(Rng &r) {
  { SharedDeque<int> d; std::deque<int> m; std::string h; for (int k = 0; k < 200; k++) { int w = (int)r.below(4); if (w < 2) { int v = (int)r.below(1000); h = S("step ", k, " push ", v); ctx(h); if (w) d.PushBack(v); else { const int c = v; d.PushBack(c); } m.push_back(v); } else if (w == 2 && m.size()) { ctx(S("step ", k, " pop")); d.PopFront(); m.pop_front(); } CK(d.Size() == m.size(), "size ", d.Size(), " expected ", m.size()); if (m.size()) CK(d.Front() == m.front(), "front ", d.Front(), " expected ", m.front()); } }
  ctx("queue between threads"); SharedDeque<std::pair<int, int>> d; int P = 1 + (int)r.below(3), N = 300; std::vector<std::thread> t; for (int p = 0; p < P; p++) t.emplace_back([&, p] { for (int i = 0; i < N; i++) { d.PushBack({p, i}); if (i % 37 == 0) std::this_thread::yield(); } }); std::vector<int> next(P, 0); for (int k = 0; k < P * N; k++) { auto v = d.Front(); d.PopFront(); g_beat++; CK(v.second == next[v.first], "element ", v.second, " of producer ", v.first, " out of order"); next[v.first]++; } for (auto &x : t) x.join(); CK(d.Size() == 0, "left over");
}
void run() {
  Rng r(g_seed); int N = g_tier ? 2000 : 250; for (int i = 0; i < N; i++) for (int l = 0; l < 3; l++) { fifo(r, l, false); if (i % 3 == 0) fifo(r, l, true); } for (int i = 0; i < N / 3; i++) { inter(r, 0); inter(r, 1); cross(r); deque(r); }
  for (int i = 0; i < 24; i++) fifo(r, i % 3, i & 4, true);
  ctx("null buffers"); LocalConnector::BufferPtr z, g = LocalConnector::MakeBuffer(); throws<std::logic_error>([&] { LocalConnector c(z, g); }, "null outgoing"); throws<std::logic_error>([&] { LocalConnector c(g, z); }, "null incoming");
}
