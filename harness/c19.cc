#include "net.h"
#include "frn/lib/net/network.h"
#include "frn/lib/net/builder.h"
#include <fstream>
typedef frn::lib::net::Network Net; typedef Net::TransportType TT;
struct Peek : Net { Peek(Net &&n) : Net(std::move(n)) {} size_t count() const { return mChannels.size(); } std::string desc(size_t i) const { return mChannels[i]->ToString(); } };
static std::string dir;
static std::string file(size_t lines, bool trail) { static int k = 0; std::string f = dir + "/c" + std::to_string(k++); std::ofstream o(f); for (size_t i = 0; i < lines; i++) { o << "10.0." << i / 200 << "." << 1 + i % 200; if (i + 1 < lines || trail) o << "\n"; } return f; }
struct End { int kind, port; std::string host; }; // 0 local 1 server 2 client
static End parse(const std::string &s) { auto num = [&](size_t p) { int v = 0; bool any = false; while (p < s.size() && s[p] == ' ') p++; while (p < s.size() && isdigit(s[p])) { v = v * 10 + (s[p++] - '0'); any = true; } CK(any, "cannot read port from ", s); return v; };
  if (s.find("Client") != std::string::npos) { size_t c = s.rfind(':'); CK(c != std::string::npos, "cannot read ", s); size_t b = s.rfind("= ", c); return {2, num(c + 1), s.substr(b + 2, c - b - 2)}; } if (s.find("Server") != std::string::npos) { size_t c = s.rfind("port = "); CK(c != std::string::npos, "cannot read ", s); return {1, num(c + 7), ""}; } CK(s.find("Local") != std::string::npos, "unknown endpoint ", s); return {0, 0, ""}; }
void ports(size_t n, int base, bool all_local, Rng &r) {
  std::vector<std::vector<End>> e(n); std::string cf = all_local ? "" : file(n, r.below(2));
  for (size_t id = 0; id < n; id++) { ctx(S("network of ", n, " parties, party ", id, ", base port ", base, all_local ? ", all local" : ", connection file")); Net::Builder b; int ord[5] = {0, 1, 2, 3, 4}; for (int i = 4; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]); for (int k : ord) { if (k == 0) b.LocalPeerId((int)id); if (k == 1) b.Size(n); if (k == 2) b.TransportType(TT::eTcp); if (k == 3 && base >= 0) b.BasePort(base); if (k == 4) { if (all_local) b.AllPartiesLocal(); else b.ConnectionFile(cf); } }
    Peek p(b.Build()); CK(p.Size() == n && p.LocalPeerId() == (int)id, "size or identifier of the built network"); CK(p.count() == n, "channels"); for (size_t j = 0; j < n; j++) e[id].push_back(parse(p.desc(j))); if (r.below(4) == 0) { Peek q(b.Build()); for (size_t j = 0; j < n; j++) CK(q.desc(j) == p.desc(j), "second build differs"); } }
  std::set<int> used; for (size_t i = 0; i < n; i++) { CK(e[i][i].kind == 0, "party ", i, " has no local channel to itself"); for (size_t j = i + 1; j < n; j++) { End a = e[i][j], b = e[j][i]; ctx(S("n=", n, " base ", base, " parties ", i, " and ", j)); CK((a.kind == 1 && b.kind == 2) || (a.kind == 2 && b.kind == 1), "both ends are of kind ", a.kind, "/", b.kind); CK(a.port == b.port, "ports ", a.port, " and ", b.port); CK(used.insert(a.port).second, "port ", a.port, " is shared with another pair"); CK(a.port >= 1025 && a.port <= 65535, "port ", a.port); End &cl = a.kind == 2 ? a : b; size_t srv = a.kind == 2 ? j : i; std::string want = all_local ? cl.host : S("10.0.", srv / 200, ".", 1 + srv % 200); CK(cl.host == want, "client connects to ", cl.host, " but party ", srv, " is at ", want); } }
}
// any sequence of builder calls: rejected by the time of Build exactly when the final configuration is invalid
void order(Rng &r) {
  std::string hist; ctx(hist); Net::Builder b; int id = -1; long n = -1, base = -1, ips = -1; bool tt = false, local = false, bad = false; auto step = [&](std::function<void()> f) { try { f(); return true; } catch (const std::logic_error &) { return false; } };
  for (size_t k = 1 + r.below(8); k-- && !bad;) switch (r.below(7)) {
    case 0: { int v = (int)r.below(7) - 1; hist += S(" LocalPeerId(", v, ")"); ctx(hist); bool ok = step([&] { b.LocalPeerId(v); }); if (!ok) { CK(v < 0 || (n >= 0 && v >= n), "valid identifier rejected"); bad = true; } else { id = v; } break; }
    case 1: { long v = (long)r.below(6); hist += S(" Size(", v, ")"); ctx(hist); bool ok = step([&] { b.Size((size_t)v); }); if (!ok) { CK((id >= 0 && id >= v) || (ips >= 0 && ips != v) || v == 0, "valid size rejected"); bad = true; } else n = v; break; }
    case 2: hist += " TransportType"; ctx(hist); b.TransportType(TT::eTcp); tt = true; break;
    case 3: { static const int P[] = {-1, 0, 1024, 1025, 1026, 9876, 20000, 65000, 65535, 65536, 66000, 131072}; int v = P[r.below(12)]; hist += S(" BasePort(", v, ")"); ctx(hist); bool ok = step([&] { b.BasePort(v); }); bool valid = v >= 1025 && v <= 65535; if (!ok) { CK(!valid, "valid port rejected"); bad = true; } else { base = v; if (!valid) base = -2; } break; }
    case 4: { size_t l = r.below(6); hist += S(" ConnectionFile(", l, " entries)"); ctx(hist); bool ok = step([&] { b.ConnectionFile(file(l, r.below(2))); }); if (!ok) { CK(l == 0 || (n >= 0 && (long)l != n), "valid connection file rejected"); bad = true; } else ips = (long)l; break; }
    case 5: hist += " AllPartiesLocal"; ctx(hist); b.AllPartiesLocal(); local = true; break;
    default: { hist += " ConnectionFile(missing)"; ctx(hist); if (r.below(4) == 0) { CK(!step([&] { b.ConnectionFile(dir + "/none"); }), "missing file accepted"); bad = true; } } }
  if (bad) return;
  bool valid = id >= 0 && n >= 0 && id < n && tt && base != -2 && (local || (ips >= 0 && ips == n)); bool range = valid && n > 1 && (base < 0 ? 9876 : base) + n * n > 65536; hist += " Build"; ctx(hist);
  try { auto net = b.Build(); CK(valid, "invalid configuration was built"); CK(net.Size() == (size_t)n && net.LocalPeerId() == id, "built network has size ", net.Size(), " and identifier ", net.LocalPeerId()); } catch (const std::logic_error &e) { CK(!valid, "valid configuration rejected: ", e.what()); } catch (const std::runtime_error &e) { CK(range, valid ? "valid configuration rejected: " : "not a logic_error: ", e.what()); }
}
void run() {
  char t[] = "/tmp/c19XXXXXX"; if (!mkdtemp(t)) fail("harness: no scratch directory"); dir = t; Rng r(g_seed);
  struct Clean { ~Clean() { std::string c = dir; for (int i = 0;; i++) if (unlink((c + "/c" + std::to_string(i)).c_str())) break; rmdir(c.c_str()); } };
  { Clean cl; for (size_t n : {1, 2, 3, 4, 5, 7, 10, 13, 40}) for (int base : {-1, 1025, 20000, 65535 - (int)(n * n)}) for (bool l : {true, false}) ports(n, base, l, r);
  for (int i = 0; i < (g_tier ? 40000 : 6000); i++) { order(r); if (i % 500 == 499) for (int k = 0; k < 0; k++) {} }
  for (int p : {-1, 0, 1, 80, 1023, 1024, 65536, 65537, 70000, (int)0x80000000, 0x7fffffff}) { ctx(S("BasePort(", p, ")")); throws<std::logic_error>([&] { Net::Builder b; b.BasePort(p).LocalPeerId(0).Size(1).TransportType(TT::eTcp).AllPartiesLocal().Build(); }, "BasePort"); } for (int p : {1025, 1026, 30000, 65534, 65535}) { ctx(S("BasePort(", p, ")")); Net::Builder b; b.BasePort(p).LocalPeerId(0).Size(1).TransportType(TT::eTcp).AllPartiesLocal().Build(); }
  ctx("fake transport"); throws<std::logic_error>([&] { Net::Builder().LocalPeerId(0).Size(2).TransportType(TT::eFake).AllPartiesLocal().Build(); }, "unsupported transport"); }
}
