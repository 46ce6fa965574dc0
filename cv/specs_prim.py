"""Generator interface (abstract), additive sharing, vector encodings."""
from contract import *
from specs_field import *
from std import tovec
from core import sv
import solve
PQ = 'frn::lib::primitives::PRG'
def absp(i): return vals.cfg.absprg
def pkey(g): return acc(g, 0)
def pctr(g): return acc(g, 1)
MAXBLK = 2 ** 62
def blocks(n): return sv((n + 15) / 16)
def stream(g, j): return PRGB(pkey(g), sv(16 * pctr(g) + j))
def advance(g, n): return PRGD.mkprg(pkey(g), sv(pctr(g) + blocks(n)))
def felem(g, e=0):
    """field element at element position e of the generator's unread output"""
    e = e if z3.is_expr(e) else iv(e)
    return FEL(pkey(g), sv(16 * pctr(g) + 8 * e))
def prgok(s, g, n=None): s.require(z3.And(pctr(g) >= 0, pctr(g) + (blocks(n) if n is not None else 0) < MAXBLK), 'fewer than 2^62 blocks drawn')
@contract(PQ + '::Next', when=lambda i: absp(i) and i.np == 2 and i.ps[0].k == 'ptr', verify=False)
def prg_next(s):
    g, p, n = s.this(), s.arg(0), s.arg(1); c = tovec(s.X.read(s.st, p.lv)); prgok(s, g, n)
    s.require(z3.And(p.idx >= 0, n >= 0, p.idx + n <= c.n), 'destination holds nbytes')
    i0 = p.idx
    if z3.is_int_value(n) and n.as_long() <= 32:
        a = c.arr
        for i in range(n.as_long()): a = store(a, sv(i0 + i), stream(g, i))
    else: a = lam(lambda j: z3.If(z3.And(i0 <= j, j < i0 + n), stream(g, j - i0), sel(c.arr, j)))
    s.set(p.lv, Vec(c.n, a, c.et, c.kind)); s.setthis(advance(g, n))
def filled(c, g, n):
    if z3.is_int_value(n) and n.as_long() <= 32:
        a = c.arr
        for i in range(n.as_long()): a = store(a, iv(i), stream(g, i))
        return a
    if c.n.eq(n): return lam(lambda j: stream(g, j))
    return lam(lambda j: z3.If(z3.And(0 <= j, j < n), stream(g, j), sel(c.arr, j)))
@contract(PQ + '::Next', when=lambda i: absp(i) and i.np == 1, verify=False)
def prg_next_vec(s):
    g, c = s.this(), s.vec(0); prgok(s, g, c.n)
    s.set(s.lvs[0], Vec(c.n, filled(c, g, c.n), c.et, c.kind)); s.setthis(advance(g, c.n))
@contract(PQ + '::Next', when=lambda i: absp(i) and i.np == 2 and i.ps[0].k == 'ref', verify=False)
def prg_next_vec_n(s):
    g, c, n = s.this(), s.vec(0), s.arg(1); prgok(s, g, n); s.throws('std::runtime_error', c.n < n)
    s.set(s.lvs[0], Vec(c.n, filled(c, g, n), c.et, c.kind)); s.setthis(advance(g, n))
@contract(PQ + '::Reset', when=absp, verify=False)
def prg_reset(s): s.setthis(PRGD.mkprg(pkey(s.this()), iv(0)))
@contract(PQ + '::(ctor)', when=lambda i: absp(i) and i.np == 0, verify=False)
def prg_ctor0(s): s.setthis(PRGD.mkprg(PRGKEY(*[iv(0)] * 16), iv(0)))
@contract(PQ + '::(ctor)', when=lambda i: absp(i) and i.np == 1 and i.ps[0].k == 'ptr', verify=False)
def prg_ctor1(s):
    p = s.arg(0); c = tovec(s.X.read(s.st, p.lv)); s.require(z3.And(p.idx >= 0, p.idx + 16 <= c.n), 'seed has 16 bytes')
    s.setthis(PRGD.mkprg(PRGKEY(*[sel(c.arr, sv(p.idx + i)) for i in range(16)]), iv(0)))
# ---------- C08 ----------
@contract('frn::lib::secret_sharing::ShareAdditive', prop='C08', when=lambda i: vals.cfg.absfield and is_field(i.ps[0].strip()))
def share_additive(s):
    x, n, g = s.arg(0), s.arg(1), s.arg(2); s.throws('std::invalid_argument', n == 0); prgok(s, g, sv(8 * n)); s.require(n < 2 ** 52, 'share count below 2^52')
    s.returns(Vec(n, lam(lambda j: z3.If(j < n - 1, felem(g, j), x - solve.fsum(lambda i: felem(g, i), sv(n - 1)))), s.fn['ps'][0]['t'].strip()))
    s.set(s.lvs[2], advance(g, sv(8 * n)))
# ---------- C06: the generator itself ----------
import std, core
C6 = dict(prop='C06', cfg=dict(absprg=False))
impl = lambda i: not vals.cfg.absprg
NONCE = 0x0123456789ABCDEF
def expand_key(k):
    """FIPS 197 key expansion, words in memory order"""
    w = std.W4(k); rc = [0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x1b, 0x36]
    for i in range(4, 44):
        t = w[i - 1]
        if i % 4 == 0: t = std.rotw(std.SUBW(t)) ^ z3.BitVecVal(rc[i // 4 - 1], 32)
        w.append(w[i - 4] ^ t)
    return [std.CAT4(w[4 * r:4 * r + 4]) for r in range(11)]
def encrypt(ks, x):
    """FIPS 197 cipher with ten rounds"""
    x = x ^ ks[0]
    for r in range(1, 10): x = std.AESR(x) ^ ks[r]
    return std.AESL(x) ^ ks[10]
def seedval(bs): return std.LOAD16(*bs)
def schedule(g, bs): return Lst(expand_key(seedval(bs)), g.f['mState'].et, 'carr')
PRG0 = PQ + '::'
@contract(PRG0 + 'Init', when=impl, **C6)
def prg_init(s): g = s.this(); s.set(s.obj.f('mState'), schedule(g, g.f['mSeed'].xs))
def ghost_ok(s):
    """class invariant: the schedule is the expansion of the seed; fewer than 2^62 blocks drawn"""
    g = s.this(); s.require(z3.And(g.f['mCounter'] >= 0, g.f['mCounter'] < MAXBLK), 'fewer than 2^62 blocks drawn'); return g
@contract(PRG0 + 'Update', when=impl, **C6)
def prg_update(s): g = ghost_ok(s); s.set(s.obj.f('mCounter'), sv(g.f['mCounter'] + 1))
@contract(PRG0 + '(ctor)', when=lambda i: impl(i) and i.np == 0, **C6)
def prg_new(s):
    bs = [iv(0)] * 16; s.setthis(new_prg(s, bs))
def new_prg(s, bs):
    fs = dict(vals.recfields(vals.PROG, s.ty)); bt = fs['mState'].t
    return Rec(s.ty, {'mSeed': Lst(bs, fs['mSeed'].t, 'carr'), 'mCounter': iv(0), 'mState': Lst(expand_key(seedval(bs)), bt, 'carr')})
@contract(PRG0 + '(ctor)', when=lambda i: impl(i) and i.np == 1 and i.ps[0].k == 'ptr', **C6)
def prg_new_seed(s):
    p = s.arg(0); c = tovec(s.X.read(s.st, p.lv)); s.require(z3.And(p.idx >= 0, p.idx + 16 <= c.n), 'seed has 16 bytes'); s.setthis(new_prg(s, [sel(c.arr, sv(p.idx + i)) for i in range(16)]))
@contract(PRG0 + 'Reset', when=impl, **C6)
def prg_reset_impl(s): g = s.this(); s.set(s.obj.f('mState'), schedule(g, g.f['mSeed'].xs)); s.set(s.obj.f('mCounter'), iv(0))
CIPH = z3.Function('CIPH', *[z3.BitVecSort(128)] * 11, I, z3.BitVecSort(128))
def ciph(ks, c): return CIPH(*ks, sv(c))
def ciph_def(ks, c):
    """definition of CIPH at one counter value: the cipher applied to nonce || counter"""
    return ciph(ks, c) == encrypt(ks, z3.Concat(std.BITS64(iv(NONCE)), std.BITS64(sv(c))))
def keystream(ks, ctr, j):
    """byte j of the output that starts at block ctr"""
    return std.BYTE16(ciph(ks, ctr + j / 16), sv(j % 16))
def next_inv(s, L):
    g = s.this(); ks, c0 = g.f['mState'].xs, g.f['mCounter']; own = {lv.c for lv in L.base.env[-1].values() if isinstance(lv, LV)}
    bufs = {c for c, p in L.mods if isinstance(L.st.cells.get(c), Vec) and L.st.cells[c].kind == 'raw' and c.startswith('heap')}; masks = [c for c, p in L.mods if c in own and not p and z3.is_bv(L.st.cells[c])]
    if len(bufs) != 1: raise Unsup('invariant: output buffer')
    b = L.st.cells[bufs.pop()]; j = fresh('j', I)
    L.st.facts.append(ciph_def(ks, c0 + (L.k if L.phase == 'assume' else L.k - 1)))
    return [('blocks so far', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < 16 * L.k), sel(b.arr, j) == keystream(ks, c0, j)))), ('counter', L.read(s.obj.f('mCounter')) == c0 + L.k)] + \
        [('counter block', L.st.cells[m] == z3.Concat(std.BITS64(iv(NONCE)), std.BITS64(sv(c0 + L.k)))) for m in masks]
def next_post(s, p, n):
    g = ghost_ok(s); c = tovec(s.X.read(s.st, p.lv)); s.require(z3.And(p.idx >= 0, n >= 0, p.idx + n <= c.n), 'destination holds nbytes'); s.require(g.f['mCounter'] + blocks(n) < MAXBLK, 'fewer than 2^62 blocks drawn'); i0 = p.idx
    s.set(p.lv, Vec(c.n, lam(lambda j: z3.If(z3.And(i0 <= j, j < i0 + n), keystream(g.f['mState'].xs, g.f['mCounter'], j - i0), sel(c.arr, j))), c.et, c.kind)); s.set(s.obj.f('mCounter'), sv(g.f['mCounter'] + blocks(n)))
@contract(PRG0 + 'Next', when=lambda i: impl(i) and i.np == 2 and i.ps[0].k == 'ptr', invs={0: next_inv}, prop='C06', cfg=dict(absprg=False, noclosed=True), tmo=15.0)
def prg_next_impl(s): next_post(s, s.arg(0), s.arg(1))
@contract(PRG0 + 'Next', when=lambda i: impl(i) and i.np == 1, **C6)
def prg_next_vec_impl(s): next_post(s, Ptr(s.lvs[0], iv(0)), s.vec(0).n)
@contract(PRG0 + 'Next', when=lambda i: impl(i) and i.np == 2 and i.ps[0].k == 'ref', **C6)
def prg_next_vec_n_impl(s): s.throws('std::runtime_error', s.vec(0).n < s.arg(1)); next_post(s, Ptr(s.lvs[0], iv(0)), s.arg(1))
