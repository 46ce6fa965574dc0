"""Replicated sharing."""
from contract import *
from specs_field import *
from specs_prim import *
from specs_comb import GID, COMB, MEM, RNK, CNT
import specs_comb, solve
RP = 'frn::lib::secret_sharing::Replicator::'
def item(v, k): return unpack(sel(v.arr, k), v.et)
def forall(lo, hi, f):
    k = fresh('q', I); return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), f(k)))
def seq(t, n, f): return pack(Vec(n, lam(f), elemty(t)), t)
def rett(s): return s.fn.get('ret') or s.fn['t']
def isrep(i): return vals.cfg.absfield and 'Mp61' in i.cls
def wf_facts(r):
    """class invariant of a replicator (established by its constructor, C09): one index set per party, indices of additive shares"""
    n, A, S, look = r.f['mSize'], r.f['mAdditiveShareSize'], r.f['mShareSize'], r.f['mLookup']; p, j = fresh('p', I), fresh('j', I)
    return [('replicator sizes', z3.And(A >= 1, A < 2 ** 31, S >= 1, S < 2 ** 31, n < 2 ** 31, look.n == n)), ('index sets have ShareSize elements', forall(0, n, lambda p: item(look, p).n == S)),
            ('indices of additive shares', z3.ForAll([p, j], z3.Implies(z3.And(0 <= p, p < n, 0 <= j, j < S), z3.And(sel(item(look, p).arr, j) >= 0, sel(item(look, p).arr, j) < A))))]
def rep_wf(s, r):
    for nm, f in wf_facts(r): s.require(f, nm)
    return r.f['mSize'], r.f['mAdditiveShareSize'], r.f['mShareSize'], r.f['mLookup']
def additive(x, g, A):
    """the additive sharing of x drawn from g"""
    return lambda e: z3.If(e < A - 1, felem(g, e), x - solve.fsum(lambda i: felem(g, i), sv(A - 1)))
def rep_shares(s, r, x, g, ty):
    n, A, S, look = r.f['mSize'], r.f['mAdditiveShareSize'], r.f['mShareSize'], r.f['mLookup']; add = additive(x, g, A); st = elemty(ty)
    return Vec(n, lam(lambda p: seq(st, S, lambda j: add(sel(item(look, p).arr, j)))), st)
@contract(RP + 'Share', prop='C10', when=lambda i: isrep(i) and is_field(i.ps[0].strip()))
def rep_share(s):
    r = s.this(); n, A, S, look = rep_wf(s, r); x, g = s.arg(0), s.arg(1); prgok(s, g, sv(8 * A))
    s.returns(rep_shares(s, r, x, g, rett(s))); s.set(s.lvs[1], advance(g, sv(8 * A)))
@contract(RP + 'Share', prop='C10', when=lambda i: isrep(i) and is_vecty(i.ps[0].strip()))
def rep_share_list(s):
    r = s.this(); n, A, S, look = rep_wf(s, r); v, g = s.vec(0), s.arg(1); B = blocks(sv(8 * A)); ty = rett(s); st = elemty(ty)
    s.require(v.n < 2 ** 30, 'number of secrets'); s.require(z3.And(pctr(g) >= 0, pctr(g) + B * v.n < MAXBLK), 'fewer than 2^62 blocks drawn')
    at = lambda m: PRGD.mkprg(pkey(g), sv(pctr(g) + B * m))
    s.returns(Vec(n, lam(lambda p: seq(st, v.n, lambda m: sel(rep_shares(s, r, sel(v.arr, m), at(m), st).arr, p))), st))
    s.set(s.lvs[1], at(v.n))
# ---------- reconstruction ----------
def rel(r):
    """party p holds e; number of parties below p that hold e; position of e in p's index set; the q-th party that holds e"""
    n, t = r.f['mSize'], r.f['mThreshold']; g = GID(n, sv(n - t))
    return lambda p, e: MEM(g, e, p), lambda p, e: RNK(g, e, p), lambda p, e: CNT(g, p, e), lambda e, q: COMB(g, e, q)
def holder_facts(r):
    """class invariant (established by the constructor, C09): index sets are duplicate free and every additive share has Size - Threshold holders"""
    n, A, S, look = r.f['mSize'], r.f['mAdditiveShareSize'], r.f['mShareSize'], r.f['mLookup']; t = r.f['mThreshold']; p, j, e, q = (fresh(x, I) for x in 'pjeq'); L = lambda p, j: sel(item(look, p).arr, j); FA = specs_comb.FA
    HOLDS, RANK, POSN, HOLDER = rel(r); inp, ine = z3.And(0 <= p, p < n), z3.And(0 <= e, e < A)
    return [('threshold below the number of parties', z3.And(t >= 1, t < n)),
            ('index sets: positions', FA([p, j], z3.Implies(z3.And(inp, 0 <= j, j < S), z3.And(HOLDS(p, L(p, j)), POSN(p, L(p, j)) == j)), patterns=[L(p, j)])),
            ('index sets: members', FA([p, e], z3.Implies(z3.And(inp, ine, HOLDS(p, e)), z3.And(POSN(p, e) >= 0, POSN(p, e) < S, L(p, POSN(p, e)) == e)), patterns=[HOLDS(p, e)])),
            ('rank of party 0', FA([e], RANK(0, e) == 0, patterns=[RANK(0, e)])),
            ('rank recursion', FA([p, e], z3.Implies(z3.And(inp, ine), RANK(p + 1, e) == RANK(p, e) + z3.If(HOLDS(p, e), 1, 0)), patterns=[HOLDS(p, e)])),
            ('rank bounds', FA([p, e], z3.Implies(z3.And(0 <= p, p <= n, ine), z3.And(RANK(p, e) >= 0, RANK(p, e) <= n - t)), patterns=[RANK(p, e)])),
            ('every additive share has Size - Threshold holders', FA([e], z3.Implies(ine, RANK(n, e) == n - t), patterns=[RANK(n, e)])),
            ('holders by rank', FA([p, e], z3.Implies(z3.And(inp, ine, HOLDS(p, e)), HOLDER(e, RANK(p, e)) == p), patterns=[HOLDS(p, e)])),
            ('holders are parties', FA([e, q], z3.Implies(z3.And(ine, 0 <= q, q < n - t), z3.And(HOLDER(e, q) >= 0, HOLDER(e, q) < n)), patterns=[HOLDER(e, q)]))]
def holders(s, r):
    n, A, S, look = rep_wf(s, r)
    for nm, f in holder_facts(r): s.require(f, nm)
    return n, A, S, look, r.f['mThreshold']
def copy_of(r, shares, e, q): H = rel(r); h = H[3](e, q); return sel(item(shares, h).arr, H[2](h, e))
def red_pre(s):
    r = s.this(); n, A, S, look, t = holders(s, r); sh = s.vec(0); s.require(sh.n >= n, 'one share per party'); s.require(forall(0, n, lambda p: item(sh, p).n >= S), 'shares have ShareSize elements'); return n, A, S, look, t, sh
def red_inv(s, L, count):
    r = s.this(); HOLDS, RANK, POSN, HOLDER = rel(r); n, A = r.f['mSize'], r.f['mAdditiveShareSize']; sh = s.vec(0); v = L.get('redundant'); e, q = fresh('e', I), fresh('q', I)
    return [('lists', v.n == A), ('counts', z3.ForAll([e], z3.Implies(z3.And(0 <= e, e < A), item(v, e).n == count(e)))),
            ('copies', z3.ForAll([e, q], z3.Implies(z3.And(0 <= e, e < A, 0 <= q, q < count(e)), sel(item(v, e).arr, q) == copy_of(s.this(), sh, e, q))))]
def red_outer(s, L): return red_inv(s, L, lambda e: rel(s.this())[1](L.k, e))
def red_inner(s, L):
    p = L.get('party_idx'); return red_inv(s, L, lambda e: rel(s.this())[1](p, e) + z3.If(z3.And(rel(s.this())[0](p, e), rel(s.this())[2](p, e) < L.k), 1, 0))
@contract(RP + 'ComputeRedundantAddShares', prop='C10', when=isrep, invs={1: red_outer, 2: red_inner}, budget=300, tmo=15.0)
def rep_redundant(s):
    n, A, S, look, t, sh = red_pre(s); st = elemty(rett(s)); s.returns(Vec(A, lam(lambda e: seq(st, sv(n - t), lambda q: copy_of(s.this(), sh, e, q))), st))
@contract(RP + 'Reconstruct', prop='C10', when=isrep, vaccheck=True)
def rep_reconstruct(s):
    n, A, S, look, t, sh = red_pre(s); s.returns(solve.fsum(lambda e: copy_of(s.this(), sh, e, iv(0)), A))
def ed_outer(s, L):
    r = s.this(); m = r.f['mSize'] - r.f['mThreshold']; sh = s.vec(0); e, q = fresh('e', I), fresh('q', I); c = lambda e, q: copy_of(s.this(), sh, e, q)
    return [('copies agree so far', z3.ForAll([e, q], z3.Implies(z3.And(0 <= e, e < L.k, 0 <= q, q < m), c(e, q) == c(e, iv(0)))))]
def ed_inner(s, L):
    i = L.get('i'); sh = s.vec(0); q = fresh('q', I); c = lambda e, q: copy_of(s.this(), sh, e, q)
    return [('copies of this element agree so far', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < L.k), c(i, q) == c(i, iv(0)))))]
@contract(RP + 'ErrorDetection', prop='C10', when=isrep, invs={0: ed_outer, 1: ed_inner}, tmo=15.0)
def rep_errdet(s):
    n, A, S, look, t, sh = red_pre(s); e, q = fresh('e', I), fresh('q', I); c = lambda e, q: copy_of(s.this(), sh, e, q)
    s.throws('std::runtime_error', z3.Exists([e, q], z3.And(0 <= e, e < A, 0 <= q, q < n - t, c(e, q) != c(e, iv(0)))))
    s.returns(solve.fsum(lambda e: c(e, iv(0)), A))
