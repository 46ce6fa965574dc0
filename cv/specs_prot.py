"""Protocol layer: the network interface as token streams, correlated randomness, input, multiplication."""
from contract import *
from specs_field import *
from specs_prim import *
from specs_shr import *
import specs_shr
from core import sv, GHOST
import solve
# ---------- frn::Network: per peer one outgoing and one incoming stream of tokens ----------
AAR = z3.ArraySort(I, z3.ArraySort(I, R)); AII = z3.ArraySort(I, I)
BTOK = z3.Function('bytetok', I, R)      # a byte as a stream token
TOKB = z3.Function('tokbyte', R, I)
def ghost_net(X, st, r):
    g = dict(r.f); g['$in'] = fresh('net.in', AAR); g['$pos'] = fresh('net.pos', AII); g['$out'] = fresh('net.out', AAR); g['$outn'] = fresh('net.outn', AII); g['$ss'] = fresh('net.ss', I); st.facts.append(z3.And(g['$ss'] >= 0, g['$ss'] < 2 ** 31))
    return Rec(r.ty, g)
GHOST['frn::Network'] = ghost_net
NW = 'frn::Network::'
def net_send(net, id_, n, tok):
    """net with n tokens tok(j) appended to the stream towards id_"""
    o = sel(net.f['$out'], id_); l = sel(net.f['$outn'], id_)
    no = lam(lambda j: z3.If(z3.And(l <= j, j < l + n), tok(sv(j - l)), sel(o, j)))
    return net.set('$out', store(net.f['$out'], id_, no)).set('$outn', store(net.f['$outn'], id_, sv(l + n)))
def net_recv(net, id_, n):
    p = sel(net.f['$pos'], id_); return net.set('$pos', store(net.f['$pos'], id_, sv(p + n)))
def incoming(net, id_, j=0): return sel(sel(net.f['$in'], id_), sv(sel(net.f['$pos'], id_) + j))
def rett(s): return s.fn.get('ret') or s.fn['t']
def peer(s, i): s.require(z3.And(i >= 0, i < s.fld('mSize')), 'peer id below the network size')
IF = dict(verify=False, note='interface contract: the implementations are verified under C21')
@contract(NW + 'Send', **IF)
def nw_send(s): i, v = s.arg(0), s.vec(1); peer(s, i); s.setthis(net_send(s.this(), i, v.n, lambda j: sel(v.arr, j)))
@contract(NW + 'SendBytes', **IF)
def nw_sendbytes(s): i, v = s.arg(0), s.vec(1); peer(s, i); s.setthis(net_send(s.this(), i, v.n, lambda j: BTOK(sel(v.arr, j))))
@contract(NW + 'Recv', **IF)
def nw_recv(s):
    i, n = s.arg(0), s.arg(1); peer(s, i); net = s.this()
    s.returns(Vec(n, lam(lambda j: incoming(net, i, j)), rett(s).ta[0])); s.setthis(net_recv(net, i, n))
@contract(NW + 'RecvBytes', **IF)
def nw_recvbytes(s):
    i, n = s.arg(0), s.arg(1); peer(s, i); net = s.this()
    s.returns(Vec(n, lam(lambda j: TOKB(incoming(net, i, j))), rett(s).ta[0])); s.setthis(net_recv(net, i, n))
@contract(NW + 'SendShares', **IF)
def nw_sendshares(s):
    i, v = s.arg(0), s.vec(1); peer(s, i)
    if not z3.is_int_value(v.n) or v.n.as_long() != 1: raise Unsup('SendShares of a symbolic number of shares')
    sh = item(v, iv(0)); s.setthis(net_send(s.this(), i, sh.n, lambda j: sel(sh.arr, j)))
@contract(NW + 'RecvShares', **IF)
def nw_recvshares(s):
    i, n = s.arg(0), s.arg(1); peer(s, i); net = s.this(); z = net.f['$ss']; st = rett(s).ta[0]
    if not z3.is_int_value(n) or n.as_long() != 1: raise Unsup('RecvShares of a symbolic number of shares')
    s.returns(Vec(n, lam(lambda q: seq(st, z, lambda j: incoming(net, i, j))), st)); s.setthis(net_recv(net, i, z))
def shs(s): return s.X.read(s.st, s.obj).f
def netlv(s):
    p = s.X.read(s.st, s.obj.f('mNetwork')); return p.lv
def net(s): return s.X.read(s.st, netlv(s))
def forall(lo, hi, f):
    k = fresh('q', I); return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), f(k)))
def item(v, k): return unpack(sel(v.arr, k), v.et)
# ---------- C16 multiplication ----------
M = 'frn::Mult::'
def inU(s): return 2 * s.fld('mThreshold') + 1
def mult_inv(s):
    t, n = s.fld('mThreshold'), s.fld('mSize'); s.require(z3.And(t >= 1, 2 * t + 1 <= n, t < 2 ** 28, n < 2 ** 28, s.fld('mId') < n), 'party and threshold in range')
    r = s.fld('mSharesRecvByP1'); s.require(r.n == 2 * t + 1, 'one receive buffer per party of U')
    c = s.fld('mCount'); s.require(c < 2 ** 40, 'fewer than 2^40 multiplications')
    nt = net(s); s.require(nt.f['mSize'] == n, 'network size')
    return t, n, c
def cdlv(s): return s.X.read(s.st, s.obj.f('mCheckData')).lv
def append(v, n, f):
    if z3.is_int_value(n) and n.as_long() == 1: return Vec(sv(v.n + 1), store(v.arr, v.n, f(iv(0))), v.et, v.kind)
    return Vec(sv(v.n + n), lam(lambda j: z3.If(z3.And(v.n <= j, j < v.n + n), f(sv(j - v.n)), sel(v.arr, j))), v.et, v.kind)
def seq(t, n, f): return pack(Vec(n, lam(f), elemty(t)), t)
@contract(M + 'SendStep', prop='C16')
def mult_send(s):
    t, n, c = mult_inv(s); me = s.fld('mId'); U = inU(s); nt = net(s); v = s.fld('mSharesToSendP1')
    cd = s.X.read(s.st, cdlv(s)); rec = cd.f['shares_recv_by_p1']; s.require(rec.n == U, 'one check record per party of U'); s.require(forall(0, U, lambda i: z3.And(item(rec, i).n >= 0, item(rec, i).n < 2 ** 40)), 'record lengths')
    nt1 = net_send(nt, iv(0), v.n, lambda j: sel(v.arr, j))
    nt1 = s.X.ite(me < U, nt1.set('$in', nt1.f['$in']), nt)
    p1 = me == 0
    pos = nt.f['$pos']
    s.set(netlv(s), nt1.set('$pos', lam(lambda i: z3.If(z3.And(p1, 0 <= i, i < U), sel(pos, i) + c, sel(pos, i)))))
    r = s.fld('mSharesRecvByP1')
    s.set(s.obj.f('mSharesRecvByP1'), Vec(r.n, lam(lambda i: z3.If(p1, seq(r.et, c, lambda j: incoming(nt, i, j)), sel(r.arr, i))), r.et, r.kind))
    s.set(cdlv(s).f('shares_recv_by_p1'), Vec(rec.n, lam(lambda i: z3.If(p1, pack(append(item(rec, i), c, lambda j: incoming(nt, i, j)), rec.et), sel(rec.arr, i))), rec.et, rec.kind))
def reconstructed(s, c):
    r = s.fld('mSharesRecvByP1'); U = inU(s)
    return lambda m: solve.fsum(lambda p: sel(item(r, p).arr, m), U)
@contract(M + 'ReconstructionStep', prop='C16')
def mult_rec(s):
    t, n, c = mult_inv(s); nt = net(s); r = s.fld('mSharesRecvByP1'); s.require(forall(0, inU(s), lambda p: item(r, p).n == c), 'one share per multiplication from every party of U')
    rv = reconstructed(s, c); v = s.fld('mValuesSentFromP1')
    s.set(s.obj.f('mValuesSentFromP1'), Vec(c, lam(rv), v.et, v.kind))
    T = n - t; o, on = nt.f['$out'], nt.f['$outn']
    s.set(netlv(s), nt.set('$outn', lam(lambda i: z3.If(z3.And(0 <= i, i < T), sel(on, i) + c, sel(on, i))))
          .set('$out', lam(lambda i: lam(lambda j: z3.If(z3.And(0 <= i, i < T, sel(on, i) <= j, j < sel(on, i) + c), rv(j - sel(on, i)), sel(sel(o, i), j))))))
def manip(s): return s.fld('mManipulator')
def manip_wf(s):
    m = manip(s); ns = m.f['mReplicator'].f['mShareSize']; s.require(ns < 2 ** 31, 'share size fits in int'); k = m.f['mIndexForConstantOps']
    s.require(z3.And(k >= -1, k < ns), 'constant index is -1 or an element'); return m, ns, k
def addconst(sh, c, k): return lambda j: z3.If(j == k, fnorm(sel(sh.arr, j) + c), sel(sh.arr, j))
@contract(M + 'OutputStep', prop='C16')
def mult_out(s):
    t, n, c = mult_inv(s); nt = net(s); m, ns, k = manip_wf(s); rs = s.fld('mRandomShares'); me = s.fld('mId')
    s.require(rs.n == c, 'one random share per multiplication'); s.require(forall(0, c, lambda q: item(rs, q).f['rep_share'].n == ns), 'random shares have ShareSize elements')
    inT = me < n - t
    val = lambda j: z3.If(inT, incoming(nt, iv(0), j), z3.RealVal(0))
    old = s.fld('mValuesRecvFromP1'); s.set(s.obj.f('mValuesRecvFromP1'), Vec(c, lam(val), old.et, old.kind))
    cd = s.X.read(s.st, cdlv(s)); w = cd.f['values_recv_from_p1']; s.require(w.n < 2 ** 40, 'record length')
    s.set(cdlv(s).f('values_recv_from_p1'), s.X.ite(inT, append(w, c, val), w))
    s.set(netlv(s), s.X.ite(inT, net_recv(nt, iv(0), c), nt))
    st = s.fn['ret'].ta[0]
    s.returns(Vec(c, lam(lambda q: seq(st, ns, addconst(item(rs, q).f['rep_share'], val(q), k))), st))
# ---------- C14 correlated randomness ----------
CO = 'frn::Correlator::'
def corr_wf(s, c, bound=True):
    """c: the correlator record"""
    rep = c.f['mReplicator']; A, ns = rep.f['mAdditiveShareSize'], rep.f['mShareSize']; t = c.f['mThreshold']; own, rnd = c.f['mOwnPRGs'], c.f['mRandPRGs']; U = 2 * t + 1
    s.require(z3.And(t >= 1, t < 2 ** 28, ns < 2 ** 31, A < 2 ** 31, ns >= 1), 'threshold and share sizes in range')
    s.require(z3.And(own.n == A, rnd.n == U), 'one generator per additive share, one generator list per party of U')
    s.require(forall(0, U, lambda u: item(rnd, u).n == ns), 'one generator per share element')
    ok = lambda g: z3.And(pctr(g) >= 0, pctr(g) + 1 < MAXBLK)
    s.require(forall(0, A, lambda i: ok(sel(own.arr, i))), 'own generators not exhausted')
    u, j = fresh('u', I), fresh('j', I)
    s.require(z3.ForAll([u, j], z3.Implies(z3.And(0 <= u, u < U, 0 <= j, j < ns), ok(sel(item(rnd, u).arr, j)))), 'generators not exhausted')
    return A, ns, t, U, own, rnd
def random_share(s, c, ty, wf=corr_wf):
    A, ns, t, U, own, rnd = wf(s, c); me = c.f['mId']; flds = dict(recfields(s.X.P, ty))
    shr = flds['rep_share']; shrs = flds['rep_add_shares']
    el = lambda u, j: felem(sel(item(rnd, u).arr, j))
    r = Rec(ty, {'rep_share': Vec(ns, lam(lambda j: solve.fsum(lambda u: el(u, j), U)), elemty(shr)),
                 'add_share': z3.If(me < U, solve.fsum(lambda i: felem(sel(own.arr, i)), A), z3.RealVal(0)),
                 'rep_add_shares': Vec(U, lam(lambda u: seq(shr, ns, lambda j: el(u, j))), shr)})
    c2 = c.set('mOwnPRGs', Vec(own.n, lam(lambda i: z3.If(z3.And(me < U, 0 <= i, i < A), advance(sel(own.arr, i), iv(8)), sel(own.arr, i))), own.et, own.kind))
    def row(u):
        v = item(rnd, u); return pack(Vec(v.n, lam(lambda j: z3.If(z3.And(0 <= j, j < ns), advance(sel(v.arr, j), iv(8)), sel(v.arr, j))), v.et, v.kind), rnd.et)
    c2 = c2.set('mRandPRGs', Vec(rnd.n, lam(lambda u: z3.If(z3.And(0 <= u, u < U), row(u), sel(rnd.arr, u))), rnd.et, rnd.kind))
    return r, c2
@contract(CO + 'GenRandomShare', prop='C14', budget=300)
def gen_random(s):
    c = s.this(); r, c2 = random_share(s, c, rett(s)); s.returns(r); s.setthis(c2)
def zeros(ns, t): return Vec(ns, lam(lambda j: z3.RealVal(0)), elemty(t))
@contract(CO + 'GenRandomShareDummy', prop='C14')
def gen_random_dummy(s):
    c = s.this(); ns, t = c.f['mReplicator'].f['mShareSize'], c.f['mThreshold']; s.require(z3.And(t < 2 ** 28, ns < 2 ** 31), 'sizes in range'); f = dict(recfields(s.X.P, rett(s))); sh = f['rep_share']
    s.returns(Rec(rett(s), {'rep_share': zeros(ns, sh), 'add_share': z3.RealVal(0), 'rep_add_shares': Vec(2 * t + 1, lam(lambda u: pack(zeros(ns, sh), sh)), sh)}))
@contract(CO + 'GenZeroShareDummy', prop='C14')
def gen_zero_dummy(s):
    c = s.this(); ns, t = c.f['mReplicator'].f['mShareSize'], c.f['mThreshold']; s.require(z3.And(t < 2 ** 28, ns < 2 ** 31), 'sizes in range'); f = dict(recfields(s.X.P, rett(s))); sh = elemty(f['rep_add_shares'])
    s.returns(Rec(rett(s), {'add_share': z3.RealVal(0), 'rep_add_shares': Vec(2 * t + 1, lam(lambda u: pack(zeros(ns, sh), sh)), sh)}))
@contract(CO + 'SetOwnPRGs', prop='C14')
def set_own(s): s.set(s.obj.f('mOwnPRGs'), s.vec(0))
@contract(CO + 'SetRandPRGs', prop='C14')
def set_rand(s):
    r, v, i = s.fld('mRandPRGs'), s.vec(0), s.arg(1); s.require(z3.And(i >= 0, i < r.n), 'dealer index in range')
    s.set(s.obj.f('mRandPRGs'), Vec(r.n, store(r.arr, i, pack(v, r.et)), r.et, r.kind))
# ---------- C16 preparation and the whole protocol ----------
def mult_table(s, m):
    t = m.f['mTableMult']; d = m.f['mDoubleReplicator'].f['mShareSize']; ns = m.f['mReplicator'].f['mShareSize']; U = inU(s)
    s.require(z3.And(d < 2 ** 31, ns < 2 ** 31, t.n < 2 ** 48), 'table and share sizes in range')
    e = lambda k: item(t, k).f
    s.require(forall(0, t.n, lambda k: z3.And(*[z3.And(e(k)[f] >= 0, e(k)[f] < hi) for f, hi in (('src_a', ns), ('src_b', ns), ('dest_c', d), ('first_party', U))])), 'table entries in range')
    return t, e, d, ns, U
def mult_values(s, m, a, b, rs, ty):
    """(additive share, message shares) of a*b minus the random share"""
    t, e, d, ns, U = mult_table(s, m); me = s.fld('mId')
    prod = lambda k: fmul(sel(a.arr, e(k)['src_a']), sel(b.arr, e(k)['src_b']))
    shr = elemty(dict(recfields(s.X.P, ty))['msgs'])
    msgs = Vec(U, lam(lambda p: seq(shr, d, lambda j: solve.fsum(lambda k: z3.If(z3.And(e(k)['first_party'] == p, e(k)['dest_c'] == j), prod(k), z3.RealVal(0)), t.n))), shr)
    add = solve.fsum(lambda k: z3.If(e(k)['first_party'] == me, prod(k), z3.RealVal(0)), t.n) - rs.f['add_share']
    return Rec(ty, {'add_share': add, 'msgs': msgs})
@contract(M + 'MultiplyToAddAndMsgs', prop='C16')
def mult_msgs(s):
    m, ns, k = manip_wf(s); a, b = s.vec(0), s.vec(1); t = s.fld('mThreshold'); s.require(z3.And(t >= 1, t < 2 ** 28), 'threshold in range')
    s.require(z3.And(a.n == ns, b.n == ns), 'shares have ShareSize elements')
    s.returns(mult_values(s, m, a, b, s.arg(2), rett(s)))
def shr1(i): return is_vecty(i.ps[0].strip()) and is_field(elemty(i.ps[0].strip()).strip())
def shr2(i): return is_vecty(i.ps[0].strip()) and not is_field(elemty(i.ps[0].strip()).strip())
def fty(s, rec, name): return dict(recfields(s.X.P, rec))[name]
def c_parts(c):
    rep = c.f['mReplicator']; return rep.f['mAdditiveShareSize'], rep.f['mShareSize'], c.f['mThreshold'], 2 * c.f['mThreshold'] + 1, c.f['mOwnPRGs'], c.f['mRandPRGs']
def skip(g, q): return PRGD.mkprg(pkey(g), sv(pctr(g) + q))
def corr_wf_n(s, c, q):
    """enough generator output for q random shares"""
    A, ns, t, U, own, rnd = c_parts(c)
    s.require(z3.And(t >= 1, t < 2 ** 28, ns < 2 ** 31, A < 2 ** 31, ns >= 1), 'threshold and share sizes in range')
    s.require(z3.And(own.n == A, rnd.n == U), 'one generator per additive share, one generator list per party of U')
    s.require(forall(0, U, lambda u: item(rnd, u).n == ns), 'one generator per share element')
    ok = lambda g: z3.And(pctr(g) >= 0, pctr(g) + q < MAXBLK)
    s.require(forall(0, A, lambda i: ok(sel(own.arr, i))), 'own generators not exhausted')
    u, j = fresh('u', I), fresh('j', I)
    s.require(z3.ForAll([u, j], z3.Implies(z3.And(0 <= u, u < U, 0 <= j, j < ns), ok(sel(item(rnd, u).arr, j)))), 'generators not exhausted')
    return A, ns, t, U, own, rnd
def rshare(s, c, ty, q):
    """the q-th random share (counting from 0) that c produces from here"""
    A, ns, t, U, own, rnd = c_parts(c); flds = dict(recfields(s.X.P, ty)); shr = flds['rep_share']; shrs = flds['rep_add_shares']; me = c.f['mId']
    el = lambda u, j: felem(skip(sel(item(rnd, u).arr, j), q))
    return Rec(ty, {'rep_share': Vec(ns, lam(lambda j: solve.fsum(lambda u: el(u, j), U)), elemty(shr)),
                    'add_share': z3.If(me < U, solve.fsum(lambda i: felem(skip(sel(own.arr, i), q)), A), z3.RealVal(0)),
                    'rep_add_shares': Vec(U, lam(lambda u: seq(shr, ns, lambda j: el(u, j))), shr)})
def corr_after(c, q):
    """c after q random shares"""
    A, ns, t, U, own, rnd = c_parts(c); me = c.f['mId']
    c2 = c.set('mOwnPRGs', Vec(own.n, lam(lambda i: z3.If(z3.And(me < U, 0 <= i, i < A), skip(sel(own.arr, i), q), sel(own.arr, i))), own.et, own.kind))
    def row(u):
        v = item(rnd, u); return pack(Vec(v.n, lam(lambda j: z3.If(z3.And(0 <= j, j < ns), skip(sel(v.arr, j), q), sel(v.arr, j))), v.et, v.kind), rnd.et)
    return c2.set('mRandPRGs', Vec(rnd.n, lam(lambda u: z3.If(z3.And(0 <= u, u < U), row(u), sel(rnd.arr, u))), rnd.et, rnd.kind))
def prep(s, q, a, b):
    """state after preparing q multiplications a(i)*b(i)"""
    m, ns, k = manip_wf(s); t = s.fld('mThreshold'); c = s.fld('mCorrelator'); cnt = s.fld('mCount')
    corr_wf_n(s, c, q); s.require(z3.And(c.f['mThreshold'] == t, c.f['mReplicator'].f['mShareSize'] == ns), 'correlator and multiplication agree on the parameters')
    s.require(cnt + q < 2 ** 40, 'fewer than 2^40 multiplications')
    rs, ss = s.fld('mRandomShares'), s.fld('mSharesToSendP1'); s.require(z3.And(rs.n + q < 2 ** 41, ss.n + q < 2 ** 41), 'lengths')
    cd = s.X.read(s.st, cdlv(s)); cs_, cm = cd.f['shares_sent_to_p1'], cd.f['msgs']; s.require(z3.And(cs_.n + q < 2 ** 41, cm.n + q < 2 ** 41), 'record lengths')
    ty = rs.et; am = next(f['ret'] for f in s.X.P.byqn['frn::Mult::MultiplyToAddAndMsgs'])
    mult_table(s, m)
    R_ = lambda i: rshare(s, c, ty, i)
    V = lambda i: mult_values(s, m, a(i), b(i), R_(i), am)
    s.set(s.obj.f('mRandomShares'), append(rs, q, lambda i: pack(R_(i), ty)))
    s.set(s.obj.f('mSharesToSendP1'), append(ss, q, lambda i: V(i).f['add_share']))
    s.set(s.obj.f('mCorrelator'), corr_after(c, q)); s.set(s.obj.f('mCount'), sv(cnt + q))
    s.set(cdlv(s).f('shares_sent_to_p1'), append(cs_, q, lambda i: V(i).f['add_share']))
    s.set(cdlv(s).f('msgs'), append(cm, q, lambda i: pack(V(i).f['msgs'], cm.et)))
    return ns
@contract(M + 'Prepare', prop='C16', when=shr1, budget=300)
def mult_prepare(s):
    a, b = s.vec(0), s.vec(1); ns = prep(s, iv(1), lambda i: a, lambda i: b); s.require(z3.And(a.n == ns, b.n == ns), 'shares have ShareSize elements')
@contract(M + 'Prepare', prop='C16', when=shr2, budget=400)
def mult_prepare_all(s):
    xs, ys = s.vec(0), s.vec(1); s.require(z3.And(xs.n == ys.n, xs.n < 2 ** 40), 'one y per x')
    ns = prep(s, xs.n, lambda i: item(xs, i), lambda i: item(ys, i))
    s.require(forall(0, xs.n, lambda i: z3.And(item(xs, i).n == ns, item(ys, i).n == ns)), 'shares have ShareSize elements')
def after(s, fn, cond=None):
    """what fn specifies, followed by what the returned Spec is given: sequential composition of specifications"""
    s1 = Spec(s.X, s.st, s.obj, s.lvs, s.fn, s.mode); fn.fn(s1)
    st2 = s.st.copy()
    for lv, v in s1.sets:
        old = s.X.read(s.st, lv); s.X.write(st2, lv, v if cond is None else s.X.ite(cond, v, old))
    for c, n in s1.reqs: s.require(c if cond is None else z3.Implies(cond, c), n)
    return Spec(s.X, st2, s.obj, s.lvs, s.fn, s.mode), s1
@contract(M + 'Run', prop='C16', budget=300)
def mult_run(s):
    t, n, c = mult_inv(s); me = s.fld('mId'); lv = cdlv(s).f('counter'); cn = s.X.read(s.st, lv); s.require(cn + c < 2 ** 63, 'counter does not overflow')
    s1, a = after(s, mult_send); s2, b = after(s1, mult_rec, me == 0); s3, o = after(s2, mult_out)
    for q in (s1, s2, s3): s.reqs += q.reqs
    cells = {}
    for sp in (a, b, o):
        for l, _ in sp.sets: cells[repr(l)] = l
    for l in cells.values(): s.set(l, s.X.read(s3.st, l))
    s.set(lv, sv(cn + c)); s.returns(o.ret)
@contract('frn::Correlator::(ctor)', prop='C14', when=lambda i: i.np == 2)
def corr_ctor(s):
    id_, rep = s.arg(0), s.arg(1); A, ns, n, t = (rep.f[k] for k in ('mAdditiveShareSize', 'mShareSize', 'mSize', 'mThreshold'))
    s.require(z3.And(t < 2 ** 28, A < 2 ** 31, ns < 2 ** 31), 'sizes in range')
    ty = s.fn['cls']; f = dict(recfields(s.X.P, ty)); z = PRGD.mkprg(PRGKEY(*[iv(0)] * 16), iv(0)); row = elemty(f['mRandPRGs']); pt = elemty(f['mOwnPRGs'])
    s.setthis(Rec(ty, {'mReplicator': rep, 'mId': id_, 'mThreshold': t, 'mSize': n, 'mOwnPRGs': Vec(A, lam(lambda j: z), pt), 'mRandPRGs': Vec(2 * t + 1, lam(lambda u: seq(row, ns, lambda j: z)), row), 'mZeroPRGs': Vec(iv(0), z3.Const('empty.%s' % sort_of(pt), z3.ArraySort(I, sort_of(pt))), pt)}))
