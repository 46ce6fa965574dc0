"""C07: SHA-3. The permutation is specified from FIPS 202 (coordinates, not the code's tables), the sponge by blocks of the message."""
import re
import vals, core, solve
from vals import *
from core import sv
from contract import contract
HQ = 'frn::lib::primitives::Hash'; W64 = z3.BitVecSort(64)
# ---------- Keccak-f[1600], FIPS 202 section 3 ----------
def rot(x, n): return x if n % 64 == 0 else z3.RotateLeft(x, n % 64)
def rho_offsets():
    r = {(0, 0): 0}; x, y = 1, 0
    for t in range(24): r[x, y] = (t + 1) * (t + 2) // 2; x, y = y, (2 * x + 3 * y) % 5
    return r
def rc_bit(t):
    R_ = [1, 0, 0, 0, 0, 0, 0, 0]
    for _ in range(t % 255):
        R_ = [0] + R_
        for i in (0, 4, 5, 6): R_[i] ^= R_[8]
        R_ = R_[:8]
    return R_[0]
def RCONST(ir): return sum(rc_bit(j + 7 * ir) << ((1 << j) - 1) for j in range(7))
RHO = rho_offsets(); RCS = [RCONST(i) for i in range(24)]
def rc_of(k):
    r = z3.BitVecVal(0, 64)
    for i in range(23, -1, -1): r = z3.If(k == i, z3.BitVecVal(RCS[i], 64), r)
    return r
def keccak_round(s, rc):
    A = {(x, y): s[x + 5 * y] for x in range(5) for y in range(5)}
    C = [A[x, 0] ^ A[x, 1] ^ A[x, 2] ^ A[x, 3] ^ A[x, 4] for x in range(5)]
    D = [C[(x - 1) % 5] ^ rot(C[(x + 1) % 5], 1) for x in range(5)]
    A = {(x, y): A[x, y] ^ D[x] for x, y in A}
    B_ = {(y, (2 * x + 3 * y) % 5): rot(A[x, y], RHO[x, y]) for x, y in A}
    A = {(x, y): B_[x, y] ^ (~B_[(x + 1) % 5, y] & B_[(x + 2) % 5, y]) for x, y in A}
    A[0, 0] = A[0, 0] ^ rc
    return [A[i % 5, i // 5] for i in range(25)]
RND = [z3.Function('KECCAK%d' % i, I, *[W64] * 25, W64) for i in range(25)]     # lane i after k rounds
def rnd(k, s): return [RND[i](sv(k), *s) for i in range(25)]
def kec(s): return rnd(iv(24), s)
def keccak_inv(s, L):
    p = s.arg(0); s0 = s.X.read(s.st, p.lv).xs; cur = L.read(p.lv).xs
    if L.phase == 'prove' and L.head is not None: 
        k = L.k - 1; L.st.facts.append(z3.And(*[a == b for a, b in zip(rnd(L.k, s0), keccak_round(rnd(k, s0), rc_of(k)))]))
    else: L.st.facts.append(z3.And(*[a == b for a, b in zip(rnd(iv(0), s0), s0)]))
    return [('lane %d' % i, cur[i] == RND[i](sv(L.k), *s0)) for i in range(25)]
def lanes(X, st, t): return Ptr(X.new(st, Lst([fresh('lane%d' % i, W64) for i in range(25)], t.t, 'carr'), 'state'), iv(0))
@contract('frn::lib::primitives::keccakf', invs={0: keccak_inv}, prop='C07', cfg=dict(bv=True, noclosed=True, param={0: lanes}), tmo=20.0)
def keccak_f(s):
    p = s.arg(0); c = s.X.read(s.st, p.lv)
    if isinstance(c, Vec):      # in callers the lanes are an array; KECL(a, 25, i) is by definition KECCAKi(24, a[0], .., a[24])
        s.require(z3.And(p.idx == 0, c.n == 25), 'state of 25 lanes'); s.set(p.lv, Vec(c.n, lam(lambda i: KECL(c.arr, iv(25), i)), c.et, c.kind)); return
    if not isinstance(c, Lst) or len(c.xs) != 25: raise Unsup('state of 25 lanes')
    s.require(p.idx == 0, 'state of 25 lanes'); s.set(p.lv, Lst(kec([core.lane(x) for x in c.xs]), c.et, c.kind))
# ---------- the sponge ----------
MSG = z3.Function('MSG', I, I)                     # the message being hashed: its bytes
AB64 = z3.ArraySort(I, W64)
KECL = z3.Function('KECL', AB64, I, I, W64); solve.defext(KECL, 1, [0])      # lane i of the permutation of the 25 lanes of an array
LANE = z3.Function('ABSORBED', I, I, I, W64)       # rate in words, whole blocks absorbed, lane
def cut(s): return {'256': 17, '384': 13, '512': 9}[re.search(r'SHA3_(\d+)', s.ty.s if s.ty is not None else s.fn['cls'].s).group(1)]
def word(w): return core.I2B(sv(z3.Sum(*[MSG(sv(8 * w + i)) * (1 << 8 * i) for i in range(8)])))
def part(w, n): return sv(z3.Sum(*[MSG(sv(8 * w + i)) * (1 << 8 * i) for i in range(n)])) if n else iv(0)
def xored(c, b, q, i):
    """lane i after b blocks and q more words"""
    a = LANE(iv(c), sv(b), sv(i)); return z3.If(sv(i) < q, a ^ word(b * c + i), a)
def lanes_at(c, b, q, et): return Vec(iv(25), lam(lambda i: xored(c, b, q, i)), et, 'carr')
def absorb_def(c, b, i):
    """definition: one more block is xored into the rate part and permuted"""
    return LANE(iv(c), sv(b + 1), sv(i)) == KECL(lam(lambda j: xored(c, b, iv(c), j)), iv(25), sv(i))
def bytes_ok(w): return z3.And(*[z3.And(MSG(sv(8 * w + i)) >= 0, MSG(sv(8 * w + i)) < 256) for i in range(-8, 16)])
def part_at(T, bi):
    w = iv(0)
    for i in range(7, 0, -1): w = z3.If(bi == i, part(T, i), w)
    return z3.simplify(w)
def pos(c, N): T = N / 8; return sv(T / c), sv(T % c), sv(N % 8)
def decomp(c, T):
    """T = c * b + q with 0 <= q < c"""
    b, q = fresh('block', I), fresh('word', I); return z3.And(T == c * b + q, 0 <= q, q < c), b, q
core.GHOST[HQ] = lambda X, st, r: Rec(r.ty, {**r.f, '$n': fresh('absorbed', I)})      # bytes absorbed so far (specification only)
def hash_inv(s):
    """class invariant: the object holds the first N bytes of the message"""
    g = s.this(); c = cut(s); N = g.f['$n']; m = g.f['mState']
    if s.mode == 'verify': b, q, bi = fresh('block', I), fresh('word', I), g.f['mByteIndex']; s.require(z3.And(N == 8 * (c * b + q) + bi, 0 <= b, 0 <= q, q < c, 0 <= bi, bi < 8), 'position')
    else: b, q, bi = pos(c, N)
    s.require(z3.And(N >= 0, N < 2 ** 62), 'bytes so far'); s.require(z3.And(g.f['mByteIndex'] == bi, g.f['mWordIndex'] == q), 'position'); s.require(g.f['mSaved'] == part_at(c * b + q, bi), 'bytes of the current word')
    i = fresh('i', I); s.require(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < 25), sel(m.arr, i) == xored(c, b, q, i)), patterns=[sel(m.arr, i)]), 'lanes')
    s.assume(bytes_ok(c * b + q)); return g, N, b, q, bi
def hash_set(s, g, N, ghost):
    c = cut(s); et = g.f['mState'].et
    if s.mode == 'verify': T, bi = fresh('words', I), fresh('byte', I); d, b, q = decomp(c, T); s.assume(z3.And(d, N == 8 * T + bi, 0 <= bi, bi < 8, bytes_ok(T)))
    else: (b, q, bi), T = pos(c, N), N / 8
    s.set(s.obj.f('mState'), lanes_at(c, b, q, et)); s.set(s.obj.f('mSaved'), part_at(T, bi)); s.set(s.obj.f('mWordIndex'), q); s.set(s.obj.f('mByteIndex'), bi)
    if s.mode != 'verify' or ghost: s.set(s.obj.f('$n'), sv(N))
def words_inv(s, L):
    """after k of the whole words"""
    c = cut(s); N, b, q, bi = s.hashN; T = c * b + q + (0 if z3.is_int_value(bi) and bi.as_long() == 0 else z3.If(bi == 0, 0, 1) if not z3.is_int_value(bi) else 1) + L.k; h = L.read(s.obj); i = fresh('i', I)
    d, bk, qk = decomp(c, T); L.st.facts.append(z3.And(d, bytes_ok(T), bytes_ok(T - 1))); m = h.f['mState'].arr; same = z3.Implies(z3.And(0 <= i, i < 25), sel(m, i) == xored(c, bk, qk, i))
    if L.phase == 'assume': same = z3.ForAll([i], same, patterns=[sel(m, i)]); s.last = bk
    else:
        b1 = s.last if L.head is not None else b; L.st.facts.append(absorb_def(c, b1, i))
    p = [lv for lv in L.base.env[-1].values() if isinstance(lv, LV) and isinstance(L.base.cells.get(lv.c), Ptr)]
    out = [('lanes', same), ('word index', h.f['mWordIndex'] == qk)]
    for lv in p:
        q0, q1 = L.base.cells[lv.c], L.st.cells[lv.c]
        if s.X.same(q0.lv, q1.lv) and not q1.idx.eq(q0.idx): out.append(('read position', q1.idx == q0.idx + 8 * L.k))
    return out
H = dict(prop='C07', alias=False)
BV = dict(bv='words', noclosed=True)
def hupdate(s, p, n, ghost=False):
    g, N, b, q, bi = hash_inv(s); s.hashN = (N, b, q, bi); v = s.X.read(s.st, p.lv); v = v if isinstance(v, Vec) else None
    if v is None: raise Unsup('bytes')
    j = fresh('j', I); s.require(z3.And(p.idx >= 0, n >= 0, p.idx + n <= v.n, N + n < 2 ** 62), 'nbytes readable bytes')
    s.require(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), sel(v.arr, sv(p.idx + j)) == MSG(sv(N + j)))), 'the next bytes of the message')
    hash_set(s, g, N + n, ghost); s.returns(s.obj)
@contract(HQ + '::Update', when=lambda i: i.np == 2, invs={2: words_inv}, cfg=dict(BV, unroll=8, cases=('mByteIndex', range(8))), tmo=20.0, budget=400, **H)
def hash_update(s): hupdate(s, s.arg(0), s.arg(1))
@contract(HQ + '::Update', when=lambda i: i.np == 1, cfg=BV, **H)
def hash_update_vec(s): hupdate(s, Ptr(s.lvs[0], iv(0)), s.vec(0).n, True)
@contract(HQ + '::(ctor)', when=lambda i: i.np == 0, cfg=BV, **H)
def hash_new(s):
    c = iv(cut(s)); a = [LANE(c, iv(0), iv(i)) for i in range(25)]; s.assume(z3.And(*[x == 0 for x in a])); et = dict(vals.recfields(vals.PROG, s.ty))['mState'].t
    s.setthis(Rec(s.ty, {'mState': Lst(a, et, 'carr'), 'mSaved': iv(0), 'mWordIndex': iv(0), 'mByteIndex': iv(0), '$n': iv(0)}))
@contract(HQ + '::Finalize', cfg=dict(BV, cases=('mByteIndex', range(8))), tmo=20.0, budget=400, **H)
def hash_finalize(s):
    """pad10*1 with the suffix 01, one last permutation, the first lanes as bytes"""
    g, N, b, q, bi = hash_inv(s); c = cut(s); T = c * b + q; d = s.fn['ret'].strip(); n = d.ta[1]
    pad = iv(0)
    for i in range(7, -1, -1): pad = z3.If(bi == i, part(T, i) + 6 * (1 << 8 * i), pad)
    pad = z3.simplify(pad)
    def blk(i):
        x = xored(c, b, q, i); x = z3.If(sv(i) == q, x ^ core.I2B(pad), x); return z3.If(sv(i) == c - 1, x ^ z3.BitVecVal(1 << 63, 64), x)
    last = lam(blk); out = [KECL(last, iv(25), iv(i)) for i in range(25)]; s.set(s.obj.f('mState'), Vec(iv(25), lam(lambda i: KECL(last, iv(25), i)), g.f['mState'].et, 'carr')); s.havoc(s.obj.f('mStateBytes'), None)
    s.returns(Lst([z3.Extract(8 * (j % 8) + 7, 8 * (j % 8), out[j // 8]) for j in range(n)], d.ta[0], 'array'))
