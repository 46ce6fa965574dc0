from contract import *
from specs_field import *
import solve
S = 'frn::ShrManipulator::'
def shrsize(s): return s.fld('mReplicator').f['mShareSize']
def wf_share(s, *vs):
    n = shrsize(s); s.require(n < 2**31, 'share size fits in int')
    for v in vs: s.require(v.n == n, 'share has ShareSize elements')
def same_len(s, *vs):
    for v in vs: s.require(z3.And(v.n < 2**31, v.n == vs[0].n), 'shares of equal length')
def cidx(s):
    """class invariant: index of the element constants are added to (-1: none)"""
    i = s.fld('mIndexForConstantOps'); s.require(z3.And(i >= -1, i < shrsize(s)), 'constant index is -1 or an element'); return i
def cp(v, arr): return Vec(v.n, arr, v.et, v.kind)
def isF(i, t): return is_field(i.ps[t].strip())

@contract(S + 'Add', prop='C11')
def shr_add(s): a, b = s.vec(0), s.vec(1); same_len(s, a, b); s.returns(cp(a, lam(lambda j: fnorm(sel(a.arr, j) + sel(b.arr, j)))))
@contract(S + 'Subtract', prop='C11')
def shr_sub(s): a, b = s.vec(0), s.vec(1); same_len(s, a, b); s.returns(cp(a, lam(lambda j: fnorm(sel(a.arr, j) - sel(b.arr, j)))))
def addc(sign):
    def f(s):
        i = 1 if isF(Info(s.fn, None), 1) else 0
        a, c = s.vec(1 - i), s.arg(i); wf_share(s, a); k = cidx(s)
        s.returns(cp(a, lam(lambda j: z3.If(j == k, fnorm(sel(a.arr, j) + sign * c), sel(a.arr, j)))))
    return f
REG.add(Contract('shr_addc', S + 'AddConstant', addc(1), prop='C11'))
REG.add(Contract('shr_subc', S + 'SubtractConstant', addc(-1), prop='C11', when=lambda i: i.np == 2 and is_field(i.ps[1].strip())))
@contract(S + 'SubtractConstant', prop='C11', when=lambda i: i.np == 2 and is_field(i.ps[0].strip()))
def shr_csub(s):
    a, c = s.vec(1), s.arg(0); wf_share(s, a); k = cidx(s)
    s.returns(cp(a, lam(lambda j: z3.If(j == k, fnorm(c - sel(a.arr, j)), fnorm(-sel(a.arr, j))))))
@contract(S + 'MultiplyConstant', prop='C11')
def shr_mulc(s):
    i = 1 if isF(Info(s.fn, None), 1) else 0
    a, c = s.vec(1 - i), s.arg(i); same_len(s, a)
    s.returns(cp(a, lam(lambda j: fmul(sel(a.arr, j), c))))
@contract(S + 'IndexForConstantOperations', prop='C11')
def shr_cidx(s):
    """position of global index 0 in this party's index set, -1 if absent"""
    look = s.fld('mReplicator').f['mLookup']; id_ = s.fld('mPartyId')
    s.require(z3.And(id_ >= 0, id_ < look.n), 'party id in range')
    row = unpack(sel(look.arr, id_), look.et); s.require(row.n < 2**31, 'fits in int')
    k = fresh('ck', I)
    def post(r, read):
        j = fresh('j', I)
        return [z3.Or(z3.And(r >= 0, r < row.n, sel(row.arr, r) == 0), r == -1),
                z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z3.If(r == -1, row.n, r)), sel(row.arr, j) != 0))]
    s.ensures(post, 'index of the constant element')
def table(s):
    t = s.fld('mTableMult'); d = s.fld('mDoubleReplicator').f['mShareSize']; n = shrsize(s)
    e = lambda k: unpack(sel(t.arr, k), t.et).f
    k = fresh('tk', I); f = e(k)
    s.require(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t.n), z3.And(f['src_a'] >= 0, f['src_a'] < n, f['src_b'] >= 0, f['src_b'] < n, f['dest_c'] >= 0, f['dest_c'] < d))), 'table entries in range')
    s.require(d < 2**31, 'double share size fits in int')
    return t, e, d
@contract(S + 'MultiplyToDoubleDegree', prop='C12')
def shr_muldd(s):
    a, b = s.vec(0), s.vec(1); wf_share(s, a, b); t, e, d = table(s)
    s.returns(Vec(d, lam(lambda j: solve.fsum(lambda k: z3.If(e(k)['dest_c'] == j, fmul(sel(a.arr, e(k)['src_a']), sel(b.arr, e(k)['src_b'])), z3.RealVal(0)), t.n)), a.et))
@contract(S + 'MultiplyToAdditive', prop='C12')
def shr_muladd(s):
    a, b = s.vec(0), s.vec(1); wf_share(s, a, b); t, e, d = table(s); me = s.fld('mPartyId')
    s.returns(solve.fsum(lambda k: z3.If(e(k)['first_party'] == me, fmul(sel(a.arr, e(k)['src_a']), sel(b.arr, e(k)['src_b'])), z3.RealVal(0)), t.n))
