"""System calls, connectors, channels."""
from contract import *
from core import sv
from std import tovec
import solve
# ---------- the operating system: one byte stream out of and into every descriptor ----------
RES = z3.Function('sysres', I, I)       # result of the k-th system call of the process
AAI = z3.ArraySort(I, z3.ArraySort(I, I)); AI = z3.ArraySort(I, I)
OS = LV('os')
def os_cell(X, st):
    st.cells['os'] = Rec(None, {'$fd': fresh('os.fd', I), '$w': fresh('os.w', AI), '$wn': fresh('os.wn', I), '$r': fresh('os.r', AI), '$rn': fresh('os.rn', I), '$tick': fresh('os.tick', I), '$err': fresh('os.err', B)})
CF = dict(absfield=True, absprg=True, os=os_cell)
def osof(s): return s.X.read(s.st, OS)
def buf(s, i):
    p = s.arg(i); return p, tovec(s.X.read(s.st, p.lv))
def os_write(o, p, c, n):
    """n bytes of c from p on appended to the stream out of the descriptor (n <= 0: none)"""
    w, l = o.f['$w'], o.f['$wn']
    return o.set('$w', lam(lambda j: z3.If(z3.And(l <= j, j < l + n), sel(c.arr, sv(p.idx + j - l)), sel(w, j)))).set('$wn', z3.If(n > 0, l + n, l))
def os_incoming(o, j): return sel(o.f['$r'], sv(o.f['$rn'] + j))
def os_fill(o, p, c, n): return Vec(c.n, lam(lambda j: z3.If(z3.And(p.idx <= j, j < p.idx + n), os_incoming(o, j - p.idx), sel(c.arr, j))), c.et, c.kind)
def sysres(s, n):
    o = osof(s); r = RES(o.f['$tick']); s.assume(z3.And(r >= -1, r <= n)); return o, r
def c_write(s):
    fd, (p, c), n = s.arg(0), buf(s, 1), s.arg(2); s.require(z3.And(p.idx >= 0, p.idx + n <= c.n, n < 2 ** 62), 'buffer holds the bytes to write')
    o, r = sysres(s, n); s.require(fd == o.f['$fd'], 'the descriptor of the connection'); s.returns(r); o2 = os_write(o, p, c, r)
    s.set(OS, o2.set('$tick', sv(o.f['$tick'] + 1)).set('$err', z3.Or(o.f['$err'], r < 0)))
def c_read(s):
    fd, (p, c), n = s.arg(0), buf(s, 1), s.arg(2); s.require(z3.And(p.idx >= 0, p.idx + n <= c.n, n < 2 ** 62), 'buffer has room for the bytes to read')
    o, r = sysres(s, n); s.require(fd == o.f['$fd'], 'the descriptor of the connection'); s.returns(r); s.set(p.lv, os_fill(o, p, c, r)); l = o.f['$rn']
    s.set(OS, o.set('$rn', z3.If(r > 0, l + r, l)).set('$tick', sv(o.f['$tick'] + 1)).set('$err', z3.Or(o.f['$err'], z3.And(r <= 0, n > 0))))
SI = 'frn::lib::net::SystemInterface::'
contract('write', name='posix_write', verify=False, note='POSIX write')(c_write)
contract('read', name='posix_read', verify=False, note='POSIX read')(c_read)
contract(SI + 'write', name='sysi_write', prop='C18', cfg=CF)(c_write)
contract(SI + 'read', name='sysi_read', prop='C18', cfg=CF)(c_read)
@contract(SI + 'get_errno', verify=False, note='errno of the calling thread')
def sysi_errno(s): s.returns(fresh('errno', I))
TC = 'frn::lib::net::TCPConnector::'
def failed(s):
    lv = s.obj.f('mState')
    s.onthrow(lambda read: read(OS).f['$err'], 'an exception leaves only after a failed system call or a disconnect'); s.onthrow(lambda read: read(lv) == 3, 'the connector is in the error state when an exception leaves')
def off_rem(L, size): return L.role(lambda v: z3.is_int_value(v) and v.as_long() == 0), L.role(lambda v: v.eq(size))
def sum_up(off, rem, size):
    if off is None and rem is None: raise Unsup('invariant: no progress variable')
    if off is None: off = size - rem
    return sv(off), [('bytes done', z3.And(off >= 0, off <= size))] + ([('bytes left', rem == size - off)] if rem is not None else [])
def moved(s, L, off):
    o, now = osof(s), L.read(OS); return o, now, ('no failed call so far', now.f['$err'] == o.f['$err'])
def send_inv(s, L):
    (p, c), size = buf(s, 0), s.arg(1); off, r = sum_up(*off_rem(L, size), size); o, now, ok = moved(s, L, off); j = fresh('j', I); want = os_write(o, p, c, off)
    return r + [ok, ('bytes written count', now.f['$wn'] == o.f['$wn'] + off), ('bytes written so far', z3.ForAll([j], sel(now.f['$w'], j) == sel(want.f['$w'], j)))]
def recv_inv(s, L):
    (p, c), size = buf(s, 0), s.arg(1); off, r = sum_up(*off_rem(L, size), size); o, now, ok = moved(s, L, off); j = fresh('j', I); b = tovec(L.read(p.lv)); want = os_fill(o, p, c, off)
    return r + [ok, ('buffer size', b.n == c.n), ('bytes consumed count', now.f['$rn'] == o.f['$rn'] + off), ('bytes received so far', z3.ForAll([j], sel(b.arr, j) == sel(want.arr, j)))]
def conn_pre(s, what):
    (p, c), size = buf(s, 0), s.arg(1); o = osof(s); s.require(z3.And(p.idx >= 0, p.idx + size <= c.n, size < 2 ** 62), what); s.require(z3.Not(o.f['$err']), 'no failed system call before'); s.require(s.fld('mSocket') == o.f['$fd'], 'descriptor of the connection'); return p, c, size, o
def osset(s, o):
    s.set(OS, o); s.havoc(OS.f('$tick'), I)
@contract(TC + 'Send', prop='C18', cfg=CF, invs={0: send_inv}, tmo=15.0)
def tcp_send(s):
    p, c, size, o = conn_pre(s, 'buffer holds the bytes to send'); osset(s, os_write(o, p, c, size)); s.returns(size); s.may('std::system_error'); failed(s)
@contract(TC + 'Recv', prop='C18', cfg=CF, invs={0: recv_inv}, tmo=15.0)
def tcp_recv(s):
    p, c, size, o = conn_pre(s, 'buffer has room for the bytes'); osset(s, o.set('$rn', sv(o.f['$rn'] + size))); s.set(p.lv, os_fill(o, p, c, size)); s.returns(size); s.may('std::runtime_error'); failed(s)
# ---------- connectors and channels ----------
CN = 'frn::lib::net::Connector::'
def ghost_conn(X, st, r):
    """the connection as two byte streams and the number of calls made so far"""
    for k, so in (('$w', AI), ('$wn', I), ('$r', AI), ('$rn', I), ('$tick', I)): r = r.set(k, fresh('conn.' + k[1:], so))
    st.facts.append(z3.And(r.f['$wn'] >= 0, r.f['$rn'] >= 0)); return r
core.GHOST['frn::lib::net::Connector'] = ghost_conn
SDN = 'frn::lib::net::SharedDeque'
notabs = lambda i: SDN not in vals.cfg.abs
PART = z3.Function('transferred', I, I)   # number of bytes moved by the k-th call on the connector
def conn_call(s, need):
    (p, c), n = buf(s, 0), s.arg(1); s.require(z3.And(p.idx >= 0, p.idx + n <= c.n, n < 2 ** 62), need); o = s.this(); r = PART(o.f['$tick']); s.assume(z3.And(r >= 0, r <= n)); s.may('std::runtime_error'); s.returns(r); return p, c, o, r
IFC = dict(verify=False, note='interface contract of a connector: TCPConnector and LocalConnector are verified against their own, stronger contracts')
@contract(CN + 'Send', when=notabs, **IFC)
def conn_send(s):
    p, c, o, r = conn_call(s, 'buffer holds the bytes to send'); o = os_write(o, p, c, r); s.setthis(o.set('$tick', sv(o.f['$tick'] + 1)))
@contract(CN + 'Recv', **IFC)
def conn_recv(s):
    p, c, o, r = conn_call(s, 'buffer has room for the bytes'); s.set(p.lv, os_fill(o, p, c, r)); s.setthis(o.set('$rn', sv(o.f['$rn'] + r)).set('$tick', sv(o.f['$tick'] + 1)))
CH = 'frn::lib::net::Channel::'
def conn(s): return s.X.read(s.st, s.obj.f('mConnector')).lv
def chan_inv(s, L, recv):
    (p, c), size = buf(s, 0), s.arg(1); off, r = sum_up(*off_rem(L, size), size); lv = conn(s); o, now = s.X.read(s.st, lv), L.read(lv); j = fresh('j', I)
    if recv:
        b = tovec(L.read(p.lv)); want = os_fill(o, p, c, off)
        return r + [('buffer size', b.n == c.n), ('bytes consumed count', now.f['$rn'] == o.f['$rn'] + off), ('bytes received so far', z3.ForAll([j], sel(b.arr, j) == sel(want.arr, j)))]
    want = os_write(o, p, c, off)
    return r + [('bytes sent count', now.f['$wn'] == o.f['$wn'] + off), ('bytes sent so far', z3.ForAll([j], sel(now.f['$w'], j) == sel(want.f['$w'], j)))]
@contract(CH + 'Send', prop='C18', when=lambda i: CHN not in vals.cfg.abs, invs={0: lambda s, L: chan_inv(s, L, False)}, tmo=15.0)
def chan_send(s):
    (p, c), size = buf(s, 0), s.arg(1); s.require(z3.And(p.idx >= 0, p.idx + size <= c.n, size < 2 ** 62), 'buffer holds the bytes to send'); lv = conn(s); o = s.X.read(s.st, lv)
    s.set(lv, os_write(o, p, c, size)); s.havoc(lv.f('$tick'), I); s.may('std::runtime_error')
@contract(CH + 'Recv', prop='C18', when=lambda i: CHN not in vals.cfg.abs, invs={0: lambda s, L: chan_inv(s, L, True)}, tmo=15.0)
def chan_recv(s):
    (p, c), size = buf(s, 0), s.arg(1); s.require(z3.And(p.idx >= 0, p.idx + size <= c.n, size < 2 ** 62), 'buffer has room for the bytes'); lv = conn(s); o = s.X.read(s.st, lv)
    s.set(lv, o.set('$rn', sv(o.f['$rn'] + size))); s.set(p.lv, os_fill(o, p, c, size)); s.havoc(lv.f('$tick'), I); s.may('std::runtime_error')
# the system calls that set a connection up: results in {-1} or >= 0, nothing else is observable
def syscall(name, what, lo=-1, hi=2 ** 31 - 1, err=True):
    def f(s):
        o = osof(s); r = RES(o.f['$tick']); s.assume(z3.And(r >= lo, r <= hi)); s.returns(r)
        s.set(OS, o.set('$tick', sv(o.f['$tick'] + 1)).set('$err', z3.Or(o.f['$err'], r < 0) if err else o.f['$err']))
    contract(what, name='posix_' + what, verify=False, note='POSIX ' + what)(f); contract(SI + name, name='sysi_' + name, prop='C18', cfg=CF)(f)
syscall('close', 'close', hi=0); syscall('create_socket', 'socket'); syscall('set_socket_options', 'setsockopt', hi=0); syscall('bind', 'bind', hi=0); syscall('listen', 'listen', hi=0); syscall('accept', 'accept')
def sys_inet(s):
    o = osof(s); r = RES(o.f['$tick']); s.assume(z3.And(r >= -1, r <= 1)); s.returns(r); s.set(OS, o.set('$tick', sv(o.f['$tick'] + 1)).set('$err', z3.Or(o.f['$err'], r <= 0)))
contract('inet_pton', name='posix_inet_pton', verify=False, note='POSIX inet_pton')(sys_inet); contract(SI + 'inet_to_int', name='sysi_inet', prop='C18', cfg=CF)(sys_inet)
@contract('connect', verify=False, note='POSIX connect')
def posix_connect(s):
    o = osof(s); r = RES(o.f['$tick']); s.assume(z3.And(r >= -1, r <= 0)); s.returns(r); s.set(OS, o.set('$tick', sv(o.f['$tick'] + 1)))
@contract(TC + 'TeardownConnection', prop='C18', cfg=CF)
def tcp_teardown(s):
    o = osof(s); bad = RES(o.f['$tick']) < 0; s.throws('std::system_error', bad); failed(s); s.set(OS.f('$tick'), sv(o.f['$tick'] + 1)); s.assume(z3.And(RES(o.f['$tick']) >= -1, RES(o.f['$tick']) <= 0))
def badport(p): return z3.Or(p < 1025, p > 65535)
@contract('frn::lib::net::TCPServerConnector::(ctor)', prop='C18', cfg=CF)
def server_ctor(s):
    p = s.arg(1); s.throws('std::runtime_error', badport(p)); s.setthis(Rec(s.ty, {'mPort': p, 'mState': iv(0)}))
@contract('frn::lib::net::TCPClientConnector::(ctor)', prop='C18', cfg=CF)
def client_ctor(s):
    p, h, o = s.arg(1), s.arg(2), osof(s); r = RES(o.f['$tick']); s.throws('std::runtime_error', z3.Or(badport(p), r == 0)); s.throws('std::system_error', z3.And(z3.Not(badport(p)), r == -1)); s.assume(z3.And(r >= -1, r <= 1))
    s.setthis(Rec(s.ty, {'mPort': p, 'mState': iv(0), 'mHostname': h})); s.set(OS.f('$tick'), sv(o.f['$tick'] + 1))
def establish(s):
    o = osof(s); s.require(z3.Not(o.f['$err']), 'no failed system call before'); s.havoc(OS.f('$tick'), I); s.havoc(s.obj.f('mSocket'), I); s.may('std::system_error'); s.may('std::runtime_error')
    s.onthrow(lambda read: read(OS).f['$err'], 'an exception leaves only after a failed system call'); lv = s.obj.f('mSocket'); s.ensures(lambda ret, read: read(lv) >= 0, 'the descriptor is valid')
contract('frn::lib::net::TCPServerConnector::EstablishConnection', name='server_establish', prop='C18', cfg=CF)(establish)
contract('frn::lib::net::TCPClientConnector::EstablishConnection', name='client_establish', prop='C18', cfg=CF, invs={0: lambda s, L: []})(establish)
# ---------- C21: networks of channels ----------
CHN = 'frn::lib::net::Channel'
vals.ABSREC[CHN] = [('$w', AI), ('$wn', I), ('$r', AI), ('$rn', I), ('$open', B)]
isabsch = lambda i: CHN in vals.cfg.abs
CN21 = dict(absfield=True, absprg=True, abs=(CHN,))
def chan_pre(s, need):
    (p, c), n = buf(s, 0), s.arg(1); s.require(z3.And(p.idx >= 0, p.idx + n <= c.n, n < 2 ** 62), need); s.may('std::runtime_error'); return p, c, n, s.this()
@contract(CHN + '::Send', when=isabsch, verify=False, name='chan_send_if', note='interface contract of a channel; Channel is verified against its own')
def chan_send_if(s): p, c, n, o = chan_pre(s, 'buffer holds the bytes to send'); s.setthis(os_write(o, p, c, n))
@contract(CHN + '::Recv', when=isabsch, verify=False, name='chan_recv_if', note='interface contract of a channel; Channel is verified against its own')
def chan_recv_if(s): p, c, n, o = chan_pre(s, 'buffer has room for the bytes'); s.set(p.lv, os_fill(o, p, c, n)); s.setthis(o.set('$rn', sv(o.f['$rn'] + n)))
NT = 'frn::lib::net::Network::'
def chans(s, nt=None):
    nt = nt or s.this(); v = nt.f['mChannels']; s.require(v.n == nt.f['mSize'], 'one channel per party'); return v
def item(v, k): return unpack(sel(v.arr, k), v.et)
def put(v, i, x): return Vec(v.n, store(v.arr, i, pack(x, v.et.ta[0])), v.et, v.kind)
def peer_pre(s, v, i): s.require(z3.And(i >= 0, i < v.n), 'peer id below the network size')
def wpos(s, v):
    g = fresh('g', I); s.require(z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < v.n), z3.And(item(v, g).f['$wn'] >= 0))), 'stream lengths')
@contract(NT + 'SendTo', prop='C21', cfg=CN21)
def net_sendto(s):
    v, i, (p, c), n = chans(s), s.arg(0), buf(s, 1), s.arg(2); peer_pre(s, v, i); s.require(z3.And(p.idx >= 0, p.idx + n <= c.n, n < 2 ** 62), 'buffer holds the bytes to send'); s.may('std::runtime_error')
    s.set(s.obj.f('mChannels'), put(v, i, os_write(item(v, i), p, c, n)))
@contract(NT + 'RecvFrom', prop='C21', cfg=CN21)
def net_recvfrom(s):
    v, i, (p, c), n = chans(s), s.arg(0), buf(s, 1), s.arg(2); peer_pre(s, v, i); s.require(z3.And(p.idx >= 0, p.idx + n <= c.n, n < 2 ** 62), 'buffer has room for the bytes'); s.may('std::runtime_error')
    ch = item(v, i); s.set(p.lv, os_fill(ch, p, c, n)); s.set(s.obj.f('mChannels'), put(v, i, ch.set('$rn', sv(ch.f['$rn'] + n))))
@contract(NT + 'Broadcast', prop='C21', cfg=CN21)
def net_broadcast(s):
    v, (p, c), n = chans(s), buf(s, 0), s.arg(1); s.require(z3.And(p.idx >= 0, p.idx + n <= c.n, n < 2 ** 62, v.n < 2 ** 31), 'buffer holds the bytes to send'); s.may('std::runtime_error')
    s.set(s.obj.f('mChannels'), Vec(v.n, lam(lambda i: pack(os_write(item(v, i), p, c, n), v.et.ta[0])), v.et, v.kind))

TN = 'frn::TcpNetwork::'
MB = 2 ** 50
CT = dict(absfield=True, absprg=True, abs=(CHN,))
def tnet(s):
    """class invariant: one channel and one counter per party"""
    nt = s.fld('mNetwork'); v = nt.f['mChannels']; n = s.fld('mSize'); sm = s.fld('mSummary'); s.require(z3.And(n < 2 ** 31, nt.f['mSize'] == n, v.n == n, sm.f['mSent'].n == n, sm.f['mRecv'].n == n), 'one channel and one counter per party')
    g = fresh('g', I); s.require(z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < n), z3.And(sel(sm.f['mSent'].arr, g) >= 0, sel(sm.f['mSent'].arr, g) < 2 ** 60, sel(sm.f['mRecv'].arr, g) >= 0, sel(sm.f['mRecv'].arr, g) < 2 ** 60))), 'counters below 2^60')
    return v, sm, n
def sent_bytes(ch, n, byte):
    w, l = ch.f['$w'], ch.f['$wn']
    return ch.set('$w', lam(lambda j: z3.If(z3.And(l <= j, j < l + n), byte(sv(j - l)), sel(w, j)))).set('$wn', z3.If(n > 0, l + n, l))
def post(s, v, i, ch, which, cnt, n):
    s.set(s.obj.f('mNetwork').f('mChannels'), put(v, i, ch)); s.set(s.obj.f('mSummary').f(which), Vec(cnt.n, store(cnt.arr, i, sv(sel(cnt.arr, i) + n)), cnt.et, cnt.kind)); s.may('std::runtime_error')
ebyte = lambda v: lambda m: ENC(sel(v.arr, sv(m / 8)), sv(m % 8))
@contract(TN + 'Send', prop='C21', cfg=CT)
def tn_send(s):
    v, sm, n = tnet(s); i, x = s.arg(0), s.vec(1); peer_pre(s, v, i); s.require(x.n < MB, 'number of values'); post(s, v, i, sent_bytes(item(v, i), sv(8 * x.n), ebyte(x)), 'mSent', sm.f['mSent'], 8 * x.n)
@contract(TN + 'SendBytes', prop='C21', cfg=CT)
def tn_sendbytes(s):
    v, sm, n = tnet(s); i, x = s.arg(0), s.vec(1); peer_pre(s, v, i); s.require(x.n < MB, 'number of bytes'); post(s, v, i, sent_bytes(item(v, i), x.n, lambda m: sel(x.arr, m)), 'mSent', sm.f['mSent'], x.n)
def rett(s): return s.fn.get('ret') or s.fn['t']
from specs_field import decode
@contract(TN + 'RecvBytes', prop='C21', cfg=CT)
def tn_recvbytes(s):
    v, sm, n = tnet(s); i, m = s.arg(0), s.arg(1); peer_pre(s, v, i); s.require(m < MB, 'number of bytes'); ch = item(v, i); s.returns(Vec(m, lam(lambda j: os_incoming(ch, j)), elemty(rett(s)))); post(s, v, i, ch.set('$rn', sv(ch.f['$rn'] + m)), 'mRecv', sm.f['mRecv'], m)
@contract(TN + 'Recv', prop='C21', cfg=CT)
def tn_recv(s):
    v, sm, n = tnet(s); i, m = s.arg(0), s.arg(1); peer_pre(s, v, i); s.require(m < MB, 'number of values'); ch = item(v, i)
    s.returns(Vec(m, lam(lambda j: decode([os_incoming(ch, sv(8 * j + b)) for b in range(8)])), elemty(rett(s)))); post(s, v, i, ch.set('$rn', sv(ch.f['$rn'] + 8 * m)), 'mRecv', sm.f['mRecv'], 8 * m)

@contract(TN + 'RecvShares', prop='C21', cfg=CT)
def tn_recvshares(s):
    v, sm, n = tnet(s); i, m = s.arg(0), s.arg(1); S = s.fld('mReplicator').f['mShareSize']; peer_pre(s, v, i); s.require(z3.And(m < 2 ** 20, S < 2 ** 20), 'number of shares'); ch = item(v, i); st = elemty(rett(s))
    s.require(sel(sm.f['mRecv'].arr, i) < 2 ** 59, 'counter')
    s.returns(Vec(m, lam(lambda k: pack(Vec(S, lam(lambda j: decode([os_incoming(ch, sv(8 * S * k + 8 * j + b)) for b in range(8)])), elemty(st)), st)), st)); post(s, v, i, ch.set('$rn', sv(ch.f['$rn'] + 8 * S * m)), 'mRecv', sm.f['mRecv'], 8 * S * m)

def steps(s, S):
    """S*q + S <= S*k for q < k"""
    q, k = fresh('q', I), fresh('k', I); s.lemma(z3.ForAll([q, k], z3.Implies(z3.And(0 <= q, q < k, S >= 0), S * q + S <= S * k)))
    s.lemma(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q <= 2 ** 20, S >= 0, S <= 2 ** 20), z3.And(S * q >= 0, S * q <= 2 ** 40))))
def shares_sent(w, l, S, w0, sh, k):
    """the shares before k are in w from position l on, in order; earlier bytes are those of w0"""
    q, b, j = fresh('q', I), fresh('b', I), fresh('j', I)
    return [('shares in order', z3.ForAll([q, b], z3.Implies(z3.And(0 <= q, q < k, 0 <= b, b < 8 * S), sel(w, sv(l + 8 * (S * q) + b)) == ENC(sel(item(sh, q).arr, sv(b / 8)), sv(b % 8))))),
            ('earlier bytes', z3.ForAll([j], z3.Implies(j < l, sel(w, j) == sel(w0, j))))]
def sent_upto(s, nv, cv, k):
    i, sh = s.arg(0), s.vec(1); S = s.fld('mReplicator').f['mShareSize']; v, cnt = s.fld('mNetwork').f['mChannels'], s.fld('mSummary').f['mSent']; ch0 = item(v, i); ch = item(nv, i); g = fresh('g', I)
    return shares_sent(ch.f['$w'], ch0.f['$wn'], S, ch0.f['$w'], sh, k) + [('stream length', ch.f['$wn'] == ch0.f['$wn'] + 8 * (S * k)), ('incoming stream', z3.And(ch.f['$rn'] == ch0.f['$rn'], ch.f['$r'] == ch0.f['$r'], ch.f['$open'] == ch0.f['$open'])), ('channels', z3.And(nv.n == v.n, z3.ForAll([g], z3.Implies(g != i, sel(nv.arr, g) == sel(v.arr, g))))),
        ('bytes counted', z3.And(cv.n == cnt.n, sel(cv.arr, i) == sel(cnt.arr, i) + 8 * (S * k), z3.ForAll([g], z3.Implies(g != i, sel(cv.arr, g) == sel(cnt.arr, g)))))]
def sendshares_inv(s, L): return sent_upto(s, L.read(s.obj.f('mNetwork').f('mChannels')), L.read(s.obj.f('mSummary').f('mSent')), L.k)
@contract(TN + 'SendShares', prop='C21', cfg=CT, invs={0: sendshares_inv}, tmo=15.0)
def tn_sendshares(s):
    v, sm, n = tnet(s); i, sh = s.arg(0), s.vec(1); S = s.fld('mReplicator').f['mShareSize']; peer_pre(s, v, i); s.require(z3.And(sh.n < 2 ** 20, S < 2 ** 20), 'number of shares'); ch = item(v, i); m = sh.n
    s.require(sel(sm.f['mSent'].arr, i) < 2 ** 59, 'counter'); g = fresh('g', I); s.require(z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < m), item(sh, g).n == S)), 'shares have ShareSize elements'); s.require(ch.f['$wn'] >= 0, 'stream length'); steps(s, S)
    lv, lc = s.obj.f('mNetwork').f('mChannels'), s.obj.f('mSummary').f('mSent'); s.may('std::runtime_error'); s.lemma(S * iv(0) == 0)
    s.havoc(lv, None); s.havoc(lc, None); s.ensures(lambda ret, read: [f for _, f in sent_upto(s, read(lv), read(lc), m)], 'the stream to the peer is extended by the shares in order, nothing else changes')

# ---------- C20: the queue and the in-process connector ----------
SD = 'frn::lib::net::SharedDeque::'
core.GUARDED.add('frn::lib::net::SharedDeque')
def monitor(X, st): st.cells['held'] = FALSE; st.cells['notified'] = iv(0)
CM = dict(absfield=True, absprg=True, os=monitor)
HELD, NOTED = LV('held'), LV('notified')
def deck(s): return s.fld('mDeck'), s.obj.f('mDeck')
def eqv(a, b):
    j = fresh('j', I); a, b = tovec(a), tovec(b); g = [g for _, f, g in vgoals(None, None, unpack(sel(a.arr, j), a.et), unpack(sel(b.arr, j), b.et))]
    return z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < b.n), sel(a.arr, j) == sel(b.arr, j))))
def locked(s):
    if s.mode == 'verify': s.set(HELD, UNINIT)
@contract(SD + 'PushBack', prop='C20', cfg=CM, when=notabs)
def sd_push(s):
    d, lv = deck(s); x = s.arg(0); locked(s); s.require(d.n < 2 ** 50, 'queue length'); s.set(lv, Vec(sv(d.n + 1), store(d.arr, d.n, pack(x, d.et)), d.et, d.kind))
    if s.mode == 'verify': s.set(NOTED, UNINIT); s.ensures(lambda ret, read: read(NOTED) >= 1, 'a waiting receiver is woken')
@contract(SD + 'Size', prop='C20', cfg=CM, when=notabs)
def sd_size(s): d, lv = deck(s); locked(s); s.returns(d.n)
def blocking(s, what):
    """exact when an element is there; otherwise the call waits for one (the queue is then whatever other threads made it)"""
    d, lv = deck(s); locked(s)
    if s.mode != 'verify': s.require(d.n > 0, 'an element is available (otherwise the call waits)'); return d, lv, True
    s.havoc(lv, None); return d, lv, False
@contract(SD + 'Front', prop='C20', cfg=CM, when=notabs, invs={0: lambda s, L: [('untouched while not empty', z3.Implies(deck(s)[0].n > 0, eqv(L.read(deck(s)[1]), deck(s)[0])))]})
def sd_front(s):
    d, lv, exact = blocking(s, 'front')
    s.returns(lv.i(iv(0)))
    if not exact: s.ensures(lambda ret, read: [read(lv).n > 0, z3.Implies(d.n > 0, eqv(read(lv), d))], 'the first element of a non-empty queue; nothing is removed')
def tail(d): return Vec(sv(d.n - 1), lam(lambda j: sel(d.arr, sv(j + 1))), d.et, d.kind)
@contract(SD + 'PopFront', prop='C20', cfg=CM, when=notabs, invs={0: lambda s, L: [('untouched while not empty', z3.Implies(deck(s)[0].n > 0, eqv(L.read(deck(s)[1]), deck(s)[0])))]})
def sd_pop(s):
    d, lv, exact = blocking(s, 'pop')
    if exact: s.set(lv, tail(d))
    else: s.ensures(lambda ret, read: z3.Implies(d.n > 0, eqv(read(lv), tail(d))), 'exactly the first element is removed')
LC = 'frn::lib::net::LocalConnector::'
def lqueue(s, f): return s.X.read(s.st, s.obj.f(f)).lv.f('mDeck')
@contract(LC + 'Send', prop='C20')
def local_send(s):
    lv = lqueue(s, 'mOutgoing'); d = s.X.read(s.st, lv); (p, c), n = buf(s, 0), s.arg(1); s.require(z3.And(p.idx >= 0, p.idx + n <= c.n, n < 2 ** 55, d.n < 2 ** 50), 'buffer holds the bytes to send')
    s.set(lv, Vec(sv(d.n + 1), store(d.arr, d.n, pack(Vec(n, lam(lambda j: sel(c.arr, sv(p.idx + j))), d.et.ta[0]), d.et)), d.et, d.kind)); s.returns(n)
@contract(LC + 'Recv', prop='C20')
def local_recv(s):
    lv = lqueue(s, 'mIncoming'); d = s.X.read(s.st, lv); (p, c), n, off = buf(s, 0), s.arg(1), s.fld('mOffset'); s.require(d.n > 0, 'a message is available (otherwise the call waits)'); m = item(d, iv(0))
    s.require(z3.And(p.idx >= 0, p.idx + n <= c.n, n < 2 ** 55), 'buffer has room for the bytes'); s.require(off <= m.n, 'offset within the first message')
    k = z3.If(m.n - off < n, m.n - off, n); done = off + k == m.n
    s.set(p.lv, Vec(c.n, lam(lambda j: z3.If(z3.And(p.idx <= j, j < p.idx + k), sel(m.arr, sv(off + j - p.idx)), sel(c.arr, j))), c.et, c.kind)); s.returns(k)
    s.set(lv, Vec(z3.If(done, d.n - 1, d.n), z3.If(done, tail(d).arr, d.arr), d.et, d.kind)); s.set(s.obj.f('mOffset'), z3.If(done, iv(0), off + k))

# ---------- C23: the asynchronous sender ----------
SDN, CNN = 'frn::lib::net::SharedDeque', 'frn::lib::net::Connector'
BSEQ = vals.seq_sort(I)
# $h: every message ever queued, in order (those that arrive while the thread waits included); $pos: number of messages removed
# $len: messages queued so far by the owner of the channel
vals.ABSREC[SDN] = [('$h', z3.ArraySort(I, BSEQ)), ('$pos', I), ('$len', I)]
def thread_cells(X, st): st.cells['threads'] = iv(0); st.cells['joined'] = FALSE; st.cells['closed'] = FALSE
inthread = lambda i: SDN in vals.cfg.abs
CA = dict(absfield=True, absprg=True, abs=(SDN,), os=thread_cells)
def msg(q, k): m = sel(q.f['$h'], k); return Vec(acc(m, 0), acc(m, 1), vals.PROG.types['unsigned char'], 'vector')
@contract(SD + 'Front', when=inthread, verify=False, name='sd_front_h', note='the queue as the history of its elements; SharedDeque is verified against its own contract (C20)')
def sd_front_h(s): q = s.this(); m = msg(q, q.f['$pos']); s.assume(m.n >= 0); s.assume(m.n < core.MAXSZ); s.returns(m)
@contract(SD + 'PopFront', when=inthread, verify=False, name='sd_pop_h', note='as above')
def sd_pop_h(s): q = s.this(); s.setthis(q.set('$pos', sv(q.f['$pos'] + 1)))
@contract(CNN + '::Send', when=inthread, verify=False, name='conn_send_all', note='TCPConnector::Send and LocalConnector::Send transfer all bytes or throw (verified under C18, C20)')
def conn_send_all(s):
    (p, c), n = buf(s, 0), s.arg(1); s.require(z3.And(p.idx >= 0, p.idx + n <= c.n), 'buffer holds the bytes to send'); s.may('std::runtime_error'); s.returns(n); s.setthis(os_write(s.this(), p, c, n))
@contract(CNN + '::Connect', when=inthread, verify=False, name='conn_connect', note='Connector::Connect')
def conn_connect(s): s.may('std::runtime_error'); s.set(s.obj.f('mState'), iv(1))
OFF = z3.Function('offset', I, I)       # bytes in the messages before the m-th one
def history(s):
    q = s.fld('mSendQueue'); p0 = q.f['$pos']; m = fresh('m', I); FA = z3.ForAll
    s.require(FA([m], z3.And(msg(q, m).n >= 0, msg(q, m).n < 2 ** 50), patterns=[sel(q.f['$h'], m)]), 'message lengths')
    s.assume(OFF(p0) == 0); s.assume(FA([m], OFF(m + 1) == OFF(m) + msg(q, m).n, patterns=[sel(q.f['$h'], m)])); return q, p0
def delivered(s, pos, cn):
    """messages p0..pos-1 are on the connection, in order, after what was there before"""
    q = s.fld('mSendQueue'); p0 = q.f['$pos']; c0 = s.X.read(s.st, conn(s)); m, j = fresh('m', I), fresh('j', I); FA = z3.ForAll; h = sel(q.f['$h'], m); rng = z3.And(p0 <= m, m < pos); w0 = c0.f['$wn']
    return [('position', pos >= p0), ('only data messages so far', FA([m], z3.Implies(rng, msg(q, m).n > 0), patterns=[h])), ('offsets', FA([m], z3.Implies(rng, z3.And(OFF(m) >= 0, OFF(m) + msg(q, m).n <= OFF(pos))), patterns=[h])), ('total', OFF(pos) >= 0),
            ('bytes written', cn.f['$wn'] == w0 + OFF(pos)), ('messages in order', FA([m, j], z3.Implies(z3.And(rng, 0 <= j, j < msg(q, m).n), sel(cn.f['$w'], w0 + OFF(m) + j) == sel(msg(q, m).arr, j)))), ('earlier bytes', FA([j], z3.Implies(j < w0, sel(cn.f['$w'], j) == sel(c0.f['$w'], j))))]
def sender_inv(s, L): return delivered(s, L.read(s.obj.f('mSendQueue')).f['$pos'], L.read(conn(s)))
AS = 'frn::lib::net::AsyncSenderChannel::'
@contract(AS + 'Open', prop='C23', cfg=CA, invs={'*': sender_inv}, tmo=15.0)
def async_open(s):
    q, p0 = history(s); lv, qp = conn(s), s.obj.f('mSendQueue'); c0 = s.X.read(s.st, lv); s.may('std::runtime_error')
    for f in ('$w', '$wn'): s.havoc(lv.f(f), c0.f[f].sort())
    s.set(lv.f('mState'), iv(1)); s.havoc(qp.f('$pos'), I); s.set(LV('threads'), iv(1)); s.havoc(s.obj.f('mSender'), None)
    def after(ret, read):
        e = read(qp).f['$pos'] - 1; return [g for _, g in delivered(s, e, read(lv))] + [msg(q, e).n == 0]
    s.ensures(after, 'the sender thread writes every message before the end marker, in order and exactly once, and stops at the marker')
@contract(SD + 'PushBack', when=inthread, verify=False, name='sd_push_h', note='as above')
def sd_push_h(s): q = s.this(); s.setthis(queued(q, s.arg(0)))
def queued(q, x): return q.set('$h', store(q.f['$h'], q.f['$len'], BSEQ.constructor(0)(tovec(x).n, tovec(x).arr))).set('$len', sv(q.f['$len'] + 1))
def wait_for_sender(X, st):
    """the sender thread only ends at the end marker: waiting for it is correct if the marker is the last thing queued"""
    th = [c for c, v in st.cells.items() if isinstance(v, Rec) and 'mSendQueue' in v.f]; q = st.cells[th[0]].f['mSendQueue']
    X.oblige(st, msg(q, q.f['$len'] - 1).n == 0, 'the end marker is queued, after everything else, before the sender thread is awaited'); st.cells['joined'] = TRUE
core.HOOKS['wait'] = wait_for_sender
@contract(CNN + '::Close', when=inthread, verify=False, name='conn_close', note='Connector::Close')
def conn_close(s):
    if s.mode != 'verify': s.require(s.X.read(s.st, LV('joined')), 'the sender thread has ended before the connection is closed')
    s.set(LV('closed'), TRUE); s.may('std::runtime_error'); s.set(s.obj.f('mState'), iv(3))
CS = dict(CA)
@contract(AS + 'Send', prop='C23', cfg=CS)
def async_send(s):
    (p, c), n = buf(s, 0), s.arg(1); s.require(z3.And(p.idx >= 0, p.idx + n <= c.n, n < 2 ** 50), 'buffer holds the bytes to send'); q = s.fld('mSendQueue'); lq = s.obj.f('mSendQueue')
    q1 = queued(q, Vec(n, lam(lambda j: sel(c.arr, sv(p.idx + j))), vals.PROG.types['unsigned char'], 'vector'))
    for f in ('$h', '$len'): s.set(lq.f(f), z3.If(n > 0, q1.f[f], q.f[f]))
@contract(AS + 'Close', prop='C23', cfg=CS)
def async_close(s):
    q = s.fld('mSendQueue'); lq = s.obj.f('mSendQueue'); s.may('std::runtime_error'); s.havoc(lq.f('$h'), q.f['$h'].sort()); s.set(lq.f('$len'), sv(q.f['$len'] + 1))
    s.set(LV('joined'), TRUE); s.set(LV('closed'), TRUE); s.set(conn(s).f('mState'), iv(3)); j = fresh('j', I)
    s.ensures(lambda ret, read: [msg(read(lq), q.f['$len']).n == 0, z3.ForAll([j], z3.Implies(j < q.f['$len'], sel(read(lq).f['$h'], j) == sel(q.f['$h'], j)))], 'the end marker is queued after everything sent before')
