#include "net.h"
void one(Rng &r) {
  auto os = std::make_shared<Os>(); os->ws = script(r); os->slow = r.below(3) ? 0 : (int)r.below(300); std::vector<size_t> sends; size_t t = 0; for (size_t i = r.below(60); i--;) { size_t n = r.below(9) ? 1 + r.below(90) : r.below(5000); if (r.below(12) == 0) n = 0; sends.push_back(n); t += n; } if (os->slow && os->ws.size()) { os->ws.assign(1, 64 + r.below(300)); }
  ctx(S("asynchronous channel, sends ", ss(sends), " then Close, OS writes ", ss(os->ws), " delay ", os->slow, " us")); std::vector<unsigned char> src(t); r.bytes(src.data(), t); std::unique_ptr<Connector> c(new TCPServerConnector(os, 3000)); AsyncSenderChannel ch(c); ch.Open(); size_t o = 0;
  for (size_t n : sends) { std::unique_ptr<unsigned char[]> b(new unsigned char[n + 1]); memcpy(b.get(), src.data() + o, n); ch.Send(b.get(), n); memset(b.get(), 0x33, n); o += n; if (r.below(20) == 0) usleep((useconds_t)r.below(400)); if (r.below(9) == 0) std::this_thread::yield(); }
  ch.Close(); std::lock_guard<std::mutex> l(os->m); CK(os->out.size() == t, os->out.size(), " of ", t, " bytes were written before the socket was closed"); CK(os->out == src, "bytes delivered out of order"); CK(os->closes == 1 && !os->badfd, "closed ", os->closes, " times, ", os->badfd, " operations on a closed descriptor"); CK(ch.State() == Connector::State::eClosed, "state after Close");
}
void run() { signal(SIGPIPE, SIG_IGN); Rng r(g_seed); for (int i = 0; i < (g_tier ? 3000 : 400); i++) one(r); }
