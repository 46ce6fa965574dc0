#include "net.h"
typedef std::shared_ptr<Os> OsP;
static std::vector<unsigned char> rb(size_t n, Rng &r) { std::vector<unsigned char> v(n); r.bytes(v.data(), n); return v; }
void transfer(Rng &r, int layer) {
  OsP os = std::make_shared<Os>(); os->ws = script(r); os->rs = script(r); std::vector<size_t> sends, recvs; size_t ts = 0, tr = 0; for (size_t i = 1 + r.below(8); i--;) { size_t n = r.below(4) ? r.below(300) : r.below(2) ? 0 : r.below(70000); sends.push_back(n); ts += n; n = r.below(4) ? r.below(300) : r.below(2) ? 0 : r.below(70000); recvs.push_back(n); tr += n; }
  ctx(S(layer ? "channel" : "connector", " sends ", ss(sends), " receives ", ss(recvs), " OS writes ", ss(os->ws), " reads ", ss(os->rs)));
  auto src = rb(ts, r); os->in = rb(tr, r); auto conn = std::make_unique<TCPServerConnector>(os, 2000); Connector *c = conn.get(); std::unique_ptr<Connector> cu = std::move(conn); std::unique_ptr<Channel> ch; if (layer == 1) ch.reset(new Channel(cu)); if (layer == 2) ch.reset(new AsyncSenderChannel(cu));
  if (ch) ch->Open(); else c->Connect(); CK(c->State() == Connector::State::eActive, "state after connecting"); CK(os->bound == 2000, "bound port ", os->bound);
  size_t o = 0; for (size_t n : sends) { std::unique_ptr<unsigned char[]> b(new unsigned char[n + 1]); memcpy(b.get(), src.data() + o, n); o += n; if (ch) ch->Send(b.get(), n); else CK(c->Send(b.get(), n) == (int64_t)n, "Send result"); memset(b.get(), 0xEE, n); }
  o = 0; for (size_t n : recvs) { std::vector<unsigned char> b(n + 32, 0x5A); if (ch) ch->Recv(b.data() + 16, n); else CK(c->Recv(b.data() + 16, n) == (int64_t)n, "Recv result"); for (size_t i = 0; i < b.size(); i++) { unsigned char w = i >= 16 && i < n + 16 ? os->in[o + i - 16] : 0x5A; CK(b[i] == w, "received byte ", (long)i - 16, " of ", n); } o += n; }
  CK(os->ipos == tr, "consumed ", os->ipos, " bytes for requests of ", tr);
  if (layer == 2) for (int k = 0; k < 5000; k++) { { std::lock_guard<std::mutex> l(os->m); if (os->out.size() >= ts) break; } usleep(1000); }
  { std::lock_guard<std::mutex> l(os->m); CK(os->out == src, "written stream (", os->out.size(), " bytes) is not the sent bytes (", ts, ")"); }
  if (ch) ch->Close(); else c->Close(); CK(os->closes == 1, "socket closed ", os->closes, " times"); CK(!os->badfd, "operation on a foreign or closed descriptor"); CK(c->State() == Connector::State::eClosed, "state after Close"); CK(os->out == src, "bytes written while closing");
}
void failures(Rng &r, int layer) {
  OsP os = std::make_shared<Os>(); os->rs = script(r); os->ws = script(r); size_t n = 1 + r.below(400); os->in = rb(n, r); auto data = rb(n, r);
  auto conn = std::make_unique<TCPServerConnector>(os, 2000); Connector *c = conn.get(); std::unique_ptr<Connector> cu = std::move(conn); std::unique_ptr<Channel> ch; if (layer) ch.reset(new Channel(cu)); if (ch) ch->Open(); else c->Connect();
  auto rd = [&](size_t k) { std::vector<unsigned char> b(k + 1); if (ch) ch->Recv(b.data(), k); else c->Recv(b.data(), k); }; auto wr = [&] { if (ch) ch->Send(data.data(), n); else c->Send(data.data(), n); };
  switch (r.below(3)) {
    case 0: { size_t k = n + 1 + r.below(50); ctx(S(layer ? "channel" : "connector", " receive of ", k, " bytes, peer disconnects after ", n)); throws<std::exception>([&] { rd(k); }, "receive"); CK(c->State() == Connector::State::eError, "state after disconnect"); break; }
    case 1: { os->failr = (long)r.below(os->rs.empty() ? 1 : os->rs.size() == 1 && os->rs[0] == 1 ? n : 1); ctx(S(layer ? "channel" : "connector", " receive of ", n, " bytes, read call ", os->failr, " fails, script ", ss(os->rs))); os->err = r.below(2) ? EIO : ECONNRESET; try { rd(n); fail("failing read reported as success"); } catch (const std::system_error &e) { CK(e.code().value() == os->err, "error code"); } CK(c->State() == Connector::State::eError, "state"); break; }
    default: { os->failw = (long)r.below(os->ws.size() == 1 && os->ws[0] == 1 ? n : 1); ctx(S(layer ? "channel" : "connector", " send of ", n, " bytes, write call ", os->failw, " fails")); os->err = r.below(2) ? EPIPE : ENOSPC; try { wr(); fail("failing write reported as success"); } catch (const std::system_error &e) { CK(e.code().value() == os->err, "error code"); } CK(c->State() == Connector::State::eError, "state"); }
  }
}
void run() {
  signal(SIGPIPE, SIG_IGN); Rng r(g_seed); int N = g_tier ? 3000 : 300; for (int i = 0; i < N; i++) { transfer(r, 0); transfer(r, 1); if (i % 3 == 0) transfer(r, 2); failures(r, 0); failures(r, 1); }
  for (int k = 0; k < 6; k++) { OsP os = std::make_shared<Os>(); os->err = EACCES; const char *w[] = {"socket", "setsockopt", "bind", "listen", "accept", "close"}; ctx(S(w[k], " fails")); (k == 0 ? os->fail_create : k == 1 ? os->fail_opt : k == 2 ? os->fail_bind : k == 3 ? os->fail_listen : k == 4 ? os->fail_accept : os->fail_close) = 1; TCPServerConnector c(os, 2000); auto f = [&] { c.Connect(); c.Close(); }; try { f(); fail("no exception"); } catch (const std::system_error &e) { CK(e.code().value() == EACCES, "error code"); } CK(c.State() == Connector::State::eError, "state"); }
  OsP os = std::make_shared<Os>();
  for (int p = -70000; p <= 140000; p += (p >= -3 && p < 1100) || (p > 65500 && p < 65600) ? 1 : 97) { ctx(S("port ", p)); bool ok = p >= 1025 && p <= 65535; for (int s = 0; s < 2; s++) { auto f = [&] { if (s) TCPServerConnector c(os, p); else TCPClientConnector c(os, p, "127.0.0.1"); }; if (ok) { try { f(); } catch (const std::exception &e) { fail(S("valid port rejected: ", e.what())); } } else throws<std::runtime_error>(f, s ? "server connector" : "client connector"); } }
  for (int p : {1024, 1025, 65535, 65536, -1, 0, (int)0x80000000, 0x7fffffff, 65537 + 1024, 66561}) { ctx(S("port ", p)); bool ok = p >= 1025 && p <= 65535; bool t = false; try { TCPServerConnector c(os, p); } catch (const std::runtime_error &) { t = true; } CK(t == !ok, ok ? "rejected" : "accepted"); }
  for (auto h : {"", "localhost.invalid", "256.1.1.1", "1.2.3", "1.2.3.4.5", "abc", "1.2.3.4 ", "::1", "999.999.999.999"}) { ctx(S("host name '", h, "'")); throws<std::runtime_error>([&] { TCPClientConnector c(os, 2000, h); }, "client connector"); }
  for (auto h : {"127.0.0.1", "0.0.0.0", "255.255.255.255", "10.1.2.3"}) { ctx(S("host name ", h)); TCPClientConnector c(os, 2000, h); CK(c.State() == Connector::State::eIdle, "state"); CK(c.ToString().find(S(h, ":2000")) != std::string::npos, "description ", c.ToString()); }
  { struct O2 : Os { int inet_to_int(int, const char *, void *) override { return -1; } }; ctx("inet_pton fails"); auto o = std::make_shared<O2>(); throws<std::exception>([&] { TCPClientConnector c(o, 2000, "127.0.0.1"); }, "client connector"); }
}
