"""Input: shared seeds, masks, masked inputs."""
from contract import *
from specs_field import *
from specs_prim import *
from specs_prot import *
import solve
def encs(x): return [ENC(x, iv(i)) for i in range(8)]
def prg_of(x): return PRGD.mkprg(PRGKEY(*(encs(x) + [iv(0)] * 8)), iv(0))
okn = lambda g, q=1: z3.And(pctr(g) >= 0, pctr(g) + q < MAXBLK)
IC = 'frn::InputSetup::Correlator::'
@contract('frn::GetRandomElement', prop='C15')
def get_random(s): g = s.arg(0); s.require(okn(g), 'generator not exhausted'); s.returns(felem(g)); s.set(s.lvs[0], skip(g, 1))
@contract('frn::FieldElementToPrg', prop='C15')
def field_to_prg(s): s.returns(prg_of(s.arg(0)))
def masked_prgs(v, n, q): return Vec(v.n, lam(lambda i: z3.If(z3.And(0 <= i, i < n), skip(sel(v.arr, i), q), sel(v.arr, i))), v.et, v.kind)
def mask(v, q=0): return solve.fsum(lambda i: felem(skip(sel(v.arr, i), q)), v.n)
@contract(IC + 'GetMask', prop='C15')
def get_mask(s):
    v = s.fld('mPrg'); s.require(forall(0, v.n, lambda i: okn(sel(v.arr, i))), 'generators not exhausted')
    s.returns(mask(v)); s.set(s.obj.f('mPrg'), masked_prgs(v, v.n, 1))
def mask_shares(s, c, id_, q):
    ps, n = c.f['mPrgs'], c.f['mShareSize']; row = item(ps, id_)
    s.require(z3.And(id_ >= 0, id_ < ps.n, n < 2 ** 31, row.n == n), 'one generator per share element'); s.require(forall(0, n, lambda i: okn(sel(row.arr, i), q)), 'generators not exhausted')
    return ps, row, n
def prgs_after(ps, row, id_, n, q): return Vec(ps.n, store(ps.arr, id_, pack(masked_prgs(row, n, q), ps.et)), ps.et, ps.kind)
@contract(IC + 'GetMaskShare', prop='C15')
def get_mask_share(s):
    id_ = s.arg(0); ps, row, n = mask_shares(s, s.this(), id_, 1)
    s.returns(Vec(n, lam(lambda i: felem(sel(row.arr, i))), rett(s).ta[0])); s.set(s.obj.f('mPrgs'), prgs_after(ps, row, id_, n, 1))
IN = 'frn::Input::'
def to_receive(s, id_, q):
    """state after q more mask shares of party id_ have been queued"""
    c = s.fld('mCorrelator'); ps, row, n = mask_shares(s, c, id_, q); r = s.fld('mSharesToReceive'); s.require(id_ < r.n, 'party id below the network size')
    old = item(r, id_); s.require(old.n + q < 2 ** 40, 'queue length')
    nw = append(old, q, lambda m: pack(Vec(n, lam(lambda i: felem(skip(sel(row.arr, i), m))), elemty(old.et)), old.et))
    s.set(s.obj.f('mSharesToReceive'), Vec(r.n, store(r.arr, id_, pack(nw, r.et)), r.et, r.kind))
    s.set(s.obj.f('mCorrelator').f('mPrgs'), prgs_after(ps, row, id_, n, q))
@contract(IN + 'PrepareToReceive', prop='C15', when=lambda i: i.np == 1)
def prep_recv(s): to_receive(s, s.arg(0), iv(1))
@contract(IN + 'PrepareToReceive', prop='C15', when=lambda i: i.np == 2)
def prep_recv_n(s): n = s.arg(1); s.require(n < 2 ** 40, 'count'); to_receive(s, s.arg(0), n)
def distribute(s, q, x):
    me = s.fld('mId'); to_receive(s, me, q); v = s.fld('mCorrelator').f['mPrg']; d = s.fld('mSharesToDistibute'); s.require(d.n + q < 2 ** 40, 'queue length')
    s.require(forall(0, v.n, lambda i: okn(sel(v.arr, i), q)), 'generators not exhausted'); s.require(v.n < 2 ** 40, 'generator count')
    s.set(s.obj.f('mSharesToDistibute'), append(d, q, lambda m: x(m) - mask(v, m))); s.set(s.obj.f('mCorrelator').f('mPrg'), masked_prgs(v, v.n, q))
@contract(IN + 'Prepare', prop='C15', when=lambda i: is_field(i.ps[0].strip()))
def inp_prepare(s): x = s.arg(0); distribute(s, iv(1), lambda m: x)
@contract(IN + 'Prepare', prop='C15', when=lambda i: is_vecty(i.ps[0].strip()))
def inp_prepare_all(s): v = s.vec(0); s.require(v.n < 2 ** 40, 'count'); distribute(s, v.n, lambda m: sel(v.arr, m))
@contract(IN + 'Run', prop='C15', budget=300)
def inp_run(s):
    n = s.fld('mSize'); nt = net(s); s.require(z3.And(nt.f['mSize'] == n, n < 2 ** 31), 'network size'); m, ns, k = manip_wf(s); d = s.fld('mSharesToDistibute'); r = s.fld('mSharesToReceive')
    s.require(r.n == n, 'one queue per party'); q, i = fresh('q', I), fresh('i', I)
    s.require(forall(0, n, lambda p: item(r, p).n < 2 ** 40), 'queue lengths')
    s.require(z3.ForAll([q, i], z3.Implies(z3.And(0 <= q, q < n, 0 <= i, i < item(r, q).n), item(item(r, q), i).n == ns)), 'shares have ShareSize elements')
    o, on, pos = nt.f['$out'], nt.f['$outn'], nt.f['$pos']; st = rett(s).ta[0]; sh = elemty(st)
    s.set(netlv(s), nt.set('$outn', lam(lambda p: z3.If(z3.And(0 <= p, p < n), sel(on, p) + d.n, sel(on, p))))
      .set('$out', lam(lambda p: lam(lambda j: z3.If(z3.And(0 <= p, p < n, sel(on, p) <= j, j < sel(on, p) + d.n), sel(d.arr, j - sel(on, p)), sel(sel(o, p), j)))))
      .set('$pos', lam(lambda p: z3.If(z3.And(0 <= p, p < n), sel(pos, p) + item(r, p).n, sel(pos, p)))))
    s.returns(Vec(n, lam(lambda p: seq(st, item(r, p).n, lambda j: seq(sh, ns, addconst(item(item(r, p), j), incoming(nt, p, j), k)))), st))

from specs_rep import rep_wf, rep_shares, additive
@contract('frn::InputSetup::Run', prop='C15', budget=400)
def setup_run(s):
    nt = net(s); r = s.fld('mReplicator'); n, A, S, look = rep_wf(s, r); g = s.fld('mPrg'); s.require(okn(g, 1 + blocks(sv(8 * A))), 'generator not exhausted')
    s.require(z3.And(nt.f['mSize'] == n, nt.f['$ss'] == S), 'network of the replicator')
    k = felem(g); g1 = skip(g, 1); ct = rett(s); f = dict(recfields(s.X.P, ct)); pt = f['mPrgs']; st = elemty(pt)
    shty = next(q for q in s.X.P.byqn['frn::lib::secret_sharing::Replicator::Share'] if is_field(q['ps'][0]['t'].strip()) )['ret']
    sh = rep_shares(s, r, k, g1, shty); add = additive(k, g1, A)
    o, on, pos = nt.f['$out'], nt.f['$outn'], nt.f['$pos']; R_ = lambda p: z3.And(0 <= p, p < n)
    s.set(netlv(s), nt.set('$outn', lam(lambda p: z3.If(R_(p), sel(on, p) + S, sel(on, p))))
      .set('$out', lam(lambda p: lam(lambda j: z3.If(z3.And(R_(p), sel(on, p) <= j, j < sel(on, p) + S), sel(item(sh, p).arr, j - sel(on, p)), sel(sel(o, p), j)))))
      .set('$pos', lam(lambda p: z3.If(R_(p), sel(pos, p) + S, sel(pos, p)))))
    s.set(s.obj.f('mPrg'), skip(g1, blocks(sv(8 * A))))
    s.returns(Rec(ct, {'mPrgs': Vec(n, lam(lambda p: seq(st, S, lambda j: prg_of(incoming(nt, p, j)))), st), 'mPrg': Vec(A, lam(lambda e: prg_of(add(e))), elemty(f['mPrg'])), 'mShareSize': S}))
