"""Verification phase: random coefficients, linear combinations, message batches."""
from contract import *
from specs_field import *
from specs_prim import *
from specs_prot import *
from specs_input import okn
import solve
CH = 'frn::Check::'
def chk(s):
    t, n, cd = s.fld('mThreshold'), s.fld('mSize'), s.fld('mCheckData'); c = cd.f['counter']
    s.require(z3.And(t >= 1, t < 2 ** 28, c < 2 ** 31, 2 * t + 1 <= n, n < 2 ** 28), 'threshold, size and number of multiplications in range'); return t, 2 * t + 1, c, cd, s.fld('mCompressedCD')
@contract(CH + 'ComputeRandomCoefficients', prop='C17')
def chk_coeff(s):
    t, U, c, cd, cc = chk(s); g = s.fld('mPRG'); s.require(okn(g, c), 'generator not exhausted'); v = s.fld('mRandomCoefficients'); s.require(v.n < 2 ** 31, 'length')
    s.set(s.obj.f('mRandomCoefficients'), append(v, c, lambda q: felem(skip(g, q)))); s.set(s.obj.f('mPRG'), skip(g, c))
def comb(s, r, v, c): s.require(z3.And(v.n >= c, v.n < 2 ** 41), 'one recorded value per multiplication'); return solve.fsum(lambda q: fmul(sel(r.arr, q), sel(v.arr, q)), c)
@contract(CH + 'PrepareLinearCombinations', prop='C17')
def chk_lin(s):
    t, U, c, cd, cc = chk(s); me = s.fld('mId'); r = s.fld('mRandomCoefficients'); s.require(z3.And(r.n >= c, r.n < 2 ** 32), 'one coefficient per multiplication')
    mid = z3.And(me > 0, me < U); sent, recv, acc1 = cd.f['shares_sent_to_p1'], cd.f['shares_recv_by_p1'], cc.f['shares_recv_by_p1']
    L = s.obj.f('mCompressedCD')
    for fl in ('shares_sent_to_p1', 'values_recv_from_p1'):
        v = cd.f[fl]; s.require(z3.Implies(mid, z3.And(v.n >= c, v.n < 2 ** 41)), 'one recorded value per multiplication')
        s.set(L.f(fl), z3.If(mid, cc.f[fl] + solve.fsum(lambda q: fmul(sel(r.arr, q), sel(v.arr, q)), c), cc.f[fl]))
    s.require(z3.Implies(me == 0, z3.And(recv.n == U, acc1.n == U)), 'one list per party of U'); s.require(z3.Implies(me == 0, forall(0, U, lambda p: item(recv, p).n >= c)), 'one recorded share per multiplication')
    s.set(L.f('shares_recv_by_p1'), Vec(acc1.n, lam(lambda p: z3.If(z3.And(me == 0, 0 <= p, p < U), sel(acc1.arr, p) + solve.fsum(lambda q: fmul(sel(r.arr, q), sel(item(recv, p).arr, q)), c), sel(acc1.arr, p))), acc1.et, acc1.kind))
def u32bytes(n, i): return BTOK(sv((n / 2 ** (8 * i)) % 256))
def u32at(nt, p, j): return sum(TOKB(incoming(nt, p, sv(j + i))) * 2 ** (8 * i) for i in range(4))
@contract(CH + 'ReconstructMsgs', prop='C17', budget=400)
def chk_rec(s):
    n = s.fld('mSize'); nt = net(s); s.require(z3.And(nt.f['mSize'] == n, n < 2 ** 28), 'network size'); V, D = s.fld('mValuesToSend'), s.fld('mDigestsToSend')
    s.require(z3.And(V.n == n, D.n == n), 'one batch per party'); s.require(forall(0, n, lambda p: z3.And(item(V, p).n < 2 ** 32, item(D, p).n < 2 ** 32)), 'batch sizes fit in 32 bits')
    b = fresh('b', R); s.require(z3.ForAll([b], z3.And(TOKB(b) >= 0, TOKB(b) < 256)), 'byte tokens are bytes')
    o, on, pos = nt.f['$out'], nt.f['$outn'], nt.f['$pos']; R_ = lambda p: z3.And(0 <= p, p < n); lv, ld = lambda p: item(V, p).n, lambda p: item(D, p).n
    def tok(p, j):
        v, d = item(V, p), item(D, p); r = sel(d.arr, sv(j - 8 - v.n))
        for i in reversed(range(4)): r = z3.If(j == 4 + v.n + i, u32bytes(d.n, i), r)
        r = z3.If(j < 4 + v.n, sel(v.arr, sv(j - 4)), r)
        for i in reversed(range(4)): r = z3.If(j == i, u32bytes(v.n, i), r)
        return r
    def rd(p):
        a = u32at(nt, p, iv(0)); return sv(8 + a + u32at(nt, p, sv(4 + a)))
    s.set(netlv(s), nt.set('$outn', lam(lambda p: z3.If(R_(p), sel(on, p) + 8 + lv(p) + ld(p), sel(on, p))))
      .set('$out', lam(lambda p: lam(lambda j: z3.If(z3.And(R_(p), sel(on, p) <= j, j < sel(on, p) + 8 + lv(p) + ld(p)), tok(p, sv(j - sel(on, p))), sel(sel(o, p), j)))))
      .set('$pos', lam(lambda p: z3.If(R_(p), sel(pos, p) + rd(p), sel(pos, p)))))
