"""Prime-field layer, verified at machine-integer level for both primes."""
from contract import *
import solve
D = 'frn::lib::math::details::'; FE = 'frn::lib::math::FpElement::'; PR = 'frn::lib::math::Prime::'
P61, P127 = 2**61 - 1, 2**127 - 1
LOW = dict(absfield=False)
def prime_of(i): return P127 if '128' in i.sig or 'Mp127' in i.cls + i.sig else P61
def pr(s): return prime_of(Info(s.fn, None, s.fn.get('cls') if s.fn and s.fn.get('cls') else s.ty))
def low(i): return not vals.cfg.absfield
def canon(s, v, p, nm): s.require(z3.And(v >= 0, v < p), nm + ' is a canonical residue')
def nmod(s, k=2):
    p = pr(s); s.require(s.arg(k) == p, 'modulus is the prime'); return p
LO = dict(prop='C01', cfg=dict(absfield=False, imul=True), when=low)
def modadd(a, b, p): return z3.If(a + b >= p, a + b - p, a + b)
def modsub(a, b, p): return z3.If(a - b < 0, a - b + p, a - b)
@contract(D + 'addm', **LO)
def d_addm(s):
    p = nmod(s); x, y = s.arg(0), s.arg(1)
    # the Mersenne reduction also feeds values up to p (not only canonical ones)
    s.require(z3.And(0 <= x, x <= p, 0 <= y, y <= p, x + y < 2 * p), 'operands sum below 2p'); s.returns(modadd(x, y, p))
@contract(D + 'subm', **LO)
def d_subm(s): p = nmod(s); x, y = s.arg(0), s.arg(1); canon(s, x, p, 'x'); canon(s, y, p, 'y'); s.returns(modsub(x, y, p))
@contract(D + 'neg', **LO)
def d_neg(s): p = nmod(s, 1); x = s.arg(0); canon(s, x, p, 'v'); s.returns(z3.If(x == 0, 0, p - x))
@contract(D + 'red', **LO)
def d_red(s): p = nmod(s, 1); s.returns(s.arg(0) % p)
@contract(D + 'eq', **LO)
def d_eq(s): s.returns(s.arg(0) == s.arg(1))
def mulmod(x, y, p): return core.IMUL(x, y) % p
@contract(D + 'mulm', tmo=30, **LO)
def d_mulm(s):
    p = nmod(s); x, y = s.arg(0), s.arg(1); canon(s, x, p, 'x'); canon(s, y, p, 'y')
    s.assume(z3.And(core.IMUL(x, y) >= 0, core.IMUL(x, y) <= (p - 1) ** 2))
    if p == P127:
        W = 2**64; a, b, c, d = x / W, x % W, y / W, y % W
        M = core.IMUL
        s.assume(M(x, y) == M(a, c) * W * W + (M(a, d) + M(b, c)) * W + M(b, d))
    s.returns(mulmod(x, y, p))
def wf(s, *vs):
    p = pr(s)
    for v in vs: canon(s, v, p, 'operand')
    return p
def val(v): return v.f['mValue']
def setv(s, x): s.setthis(s.this().set('mValue', x)); s.returns(s.obj)
def mk(name, f, two=True):
    def spec(s):
        x = val(s.this()); ys = [val(s.arg(0))] if two else []
        p = wf(s, x, *ys); setv(s, f(x, *ys, p))
    return spec
REG.add(Contract('fp_add', FE + 'operator+=', mk('+', modadd), **LO))
REG.add(Contract('fp_sub', FE + 'operator-=', mk('-', modsub), **LO))
REG.add(Contract('fp_mul', FE + 'operator*=', mk('*', mulmod), **LO))
REG.add(Contract('fp_neg', FE + 'Negate', mk('n', lambda x, p: z3.If(x == 0, 0, p - x), False), **LO))
@contract(FE + 'Equal', **LO)
def fp_eq(s): x, y = val(s.this()), val(s.arg(0)); wf(s, x, y); s.returns(x == y)
@contract(FE + 'NotEqual', **LO)
def fp_ne(s): x, y = val(s.this()), val(s.arg(0)); wf(s, x, y); s.returns(x != y)
LOc = dict(LO); LOc['when'] = lambda i: low(i) and i.np == 0
@contract(FE + '(ctor)', **LOc)
def fp_ctor0(s): s.setthis(Rec(s.ty, {'mValue': iv(0)}))
LOc = dict(LO); LOc['when'] = lambda i: low(i) and i.np == 1 and 'unsigned' in i.sig and 'FpElement' not in i.sig
@contract(FE + '(ctor)', **LOc)
def fp_ctor1(s): s.setthis(Rec(s.ty, {'mValue': s.arg(0) % pr(s)}))
for op, f in (('+', modadd), ('-', modsub), ('*', mulmod)):
    def spec(s, f=f):
        x, y = val(s.arg(0)), val(s.arg(1)); p = wf(s, x, y); s.returns(Rec(s.arg(0).ty, {'mValue': f(x, y, p)}))
    d = dict(LO); d['when'] = lambda i: low(i) and i.np == 2
    REG.add(Contract('fp_op' + op, 'frn::lib::math::operator' + op, spec, **d))
d = dict(LO); d['when'] = lambda i: low(i) and i.np == 1
@contract('frn::lib::math::operator-', **d)
def fp_opneg(s): x = val(s.arg(0)); p = wf(s, x); s.returns(Rec(s.arg(0).ty, {'mValue': z3.If(x == 0, 0, p - x)}))
@contract('frn::lib::math::operator==', **LO)
def fp_opeq(s): x, y = val(s.arg(0)), val(s.arg(1)); wf(s, x, y); s.returns(x == y)
@contract('frn::lib::math::operator!=', **LO)
def fp_opne(s): x, y = val(s.arg(0)), val(s.arg(1)); wf(s, x, y); s.returns(x != y)
@contract(FE + 'FromConstant', **LO)
def fp_const(s):
    k = s.fn.get('ta') or []
    kk = [x for x in k if isinstance(x, int)]
    s.returns(Rec(s.fn['cls'], {'mValue': iv(kk[0])})) if kk else s.require(FALSE, 'constant known')
# ---------- C03: encodings ----------
C3 = dict(prop='C03', cfg=dict(absfield=False, imul=True), when=low)
def nbytes(p): return 16 if p == P127 else 8
@contract(FE + 'ToBytes', **C3)
def fp_tobytes(s):
    """little-endian bytes of the representative"""
    x = val(s.this()); p = wf(s, x); n = nbytes(p); q = s.arg(0)
    from std import tovec
    c = tovec(s.X.read(s.st, q.lv)); s.require(z3.And(q.idx >= 0, q.idx + n <= c.n), 'destination holds ByteSize bytes')
    a = c.arr
    for i in range(n): a = store(a, sv(q.idx + i), (x / (1 << 8 * i)) % 256)
    s.set(q.lv, Vec(c.n, a, c.et, c.kind))
from core import sv
@contract(FE + 'FromBytes', **C3)
def fp_frombytes(s):
    p = pr(s); n = nbytes(p); q = s.arg(0)
    from std import tovec
    c = tovec(s.X.read(s.st, q.lv)); s.require(z3.And(q.idx >= 0, q.idx + n <= c.n), 'source holds ByteSize bytes')
    bs = [sel(c.arr, sv(q.idx + i)) for i in range(n)]
    for b in bs: s.assume(z3.And(b >= 0, b <= 255))
    s.returns(Rec(s.fn['cls'] if 'cls' in s.fn else s.ty, {'mValue': z3.Sum(*[b * (1 << 8 * i) for i, b in enumerate(bs)]) % p}))
@contract(FE + 'ByteSize', **C3)
def fp_bytesize(s): s.returns(iv(nbytes(pr(s))))
@contract(FE + 'BitSize', **C3)
def fp_bitsize(s): s.returns(iv(8 * nbytes(pr(s))))
# decimal text: DECV(digits, n) = value of the first n digits
DECV = z3.Function('DECV', solve.AI, I, I)
solve.deffold(DECV, lambda a: iv(0), lambda acc, a, k: 10 * acc + sel(a, k) - 48)
# ---------- C02: inversion and division ----------
C2 = dict(prop='C02', cfg=dict(absfield=False), when=low)
Imp = z3.Implies
def euclid(s, L):
    """t*v = r and newt*v = newr modulo n; the cofactors alternate in sign and newt*r - t*newr = +-n"""
    n, v = s.arg(1), s.arg(0); N = pr(s)
    is_ = lambda w: (lambda x: solve.quick(L.base.all(), x != w) == z3.unsat)
    def roles(L):
        r = [L.role(is_(w)) for w in (iv(0), iv(1), n, v)]
        if any(x is None for x in r): raise Unsup('extended Euclid: state variables')
        return r
    t, nt, r, nr = roles(L); div = lambda t, r: (t * v - r) % N == 0
    def bounds(t, nt, r, nr, v):
        a, b = z3.If(t < 0, -t, t), z3.If(nt < 0, -nt, nt)
        return [('remainders', z3.And(0 <= nr, nr < r, r <= N)), ('cofactors alternate in sign', z3.Or(z3.And(t <= 0, nt >= 1), z3.And(t >= 0, nt <= -1))), ('cofactors grow', z3.And(a <= b, Imp(nr == 0, a < b))),
                ('determinant', nt * r - t * nr == z3.If(nt > 0, iv(N), iv(-N))), ('progress', z3.Or(r < N, nr == v)), ('cofactor sizes', z3.And(b <= N, a < N))]
    inv = bounds(t, nt, r, nr, v) + [('congruence of r', div(t, r)), ('congruence of newr', div(nt, nr))]
    if L.phase == 'prove' and L.head: inv.append(('the remainder decreases (termination)', z3.And(nr >= 0, nr < roles(L.head)[3])))
    if L.phase == 'assume':
        def room(t, nt, r, nr, q, Q, P, v):
            pre = z3.And(*[g for _, g in bounds(t, nt, r, nr, v)], nr > 0, q >= 1, P == q * nr, P <= r, r < P + nr, Q == q * nt)
            return Imp(pre, z3.And(z3.If(nt > 0, Q >= nt, Q <= nt), z3.If(nt > 0, z3.And(t - Q < 0, t - Q >= -N, Q <= N), z3.And(t - Q > 0, t - Q <= N, Q >= -N)), Imp(P == r, z3.If(nt > 0, Q >= 2 * nt, Q <= 2 * nt)),
                (t - Q) * nr - nt * (r - P) == z3.If(nt > 0, iv(-N), iv(N))))
        q = r / nr; L.lemma(room, t, nt, r, nr, q, q * nt, q * nr, v)
        L.lemma(lambda r, nr, q: Imp(z3.And(nr > 0, r > nr, q == r / nr), z3.And(q >= 1, q * nr <= r, r < q * nr + nr)), r, nr, q)
        L.st.facts.append(Imp(z3.And(nr == 0, r >= 1, z3.Or(nt * r == N, nt * r == -N)), z3.Or(r == 1, r == N)))      # N is prime
    return inv
INV = z3.Function('INV', I, I)      # the inverse of a non-zero residue, as returned by invp
def is_inverse(x, v, p): return [x >= 0, x < p, (x * v) % p == 1]
@contract(D + 'invp', invs={0: euclid}, tmo=20.0, **C2)
def d_invp(s):
    p = nmod(s, 1); v = s.arg(0); canon(s, v, p, 'v'); s.throws('std::logic_error', v == 0)
    if s.mode == 'verify': s.ensures(lambda ret, read: is_inverse(ret, v, p), 'the result is the canonical inverse')
    else: s.returns(INV(v)); s.assume(z3.And(*is_inverse(INV(v), v, p)))
C2F = dict(prop='C02', cfg=dict(absfield=False, imul=True), when=low, tmo=15.0)
@contract(FE + 'Invert', **C2F)
def fp_invert(s):
    x = val(s.this()); p = wf(s, x); s.throws('std::logic_error', x == 0); lv = s.obj; s.havoc(lv.f('mValue'), I); s.returns(lv)
    s.ensures(lambda ret, read: is_inverse(read(lv.f('mValue')), x, p), 'the element becomes its inverse')
@contract(FE + 'Inverse', **C2F)
def fp_inverse(s):
    x = val(s.this()); p = wf(s, x); s.throws('std::logic_error', x == 0)
    s.ensures(lambda ret, read: is_inverse(val(ret), x, p), 'the result is the inverse')
def quotient(s, x, y, p):
    """IMUL is the product of integers; z = x*i mod p with i*y = 1 mod p gives z*y = x mod p"""
    M = core.IMUL(x, INV(y)); i = INV(y); s.throws('std::logic_error', y == 0); W, V = fresh('W', I), fresh('V', I); k, m = (i * y) / p, M / p
    s.assume(z3.And(M == x * i, W == x * k, V == W - m * y))        # M is the exact product (its definition); W, V name terms
    s.inst(lambda M, x, i, y, k, W: Imp(z3.And(M == x * i, i * y == 1 + p * k, W == x * k), y * M == x + p * W), M, x, i, y, k, W)
    s.inst(lambda M, m, y, x, W, V: Imp(z3.And(y * M == x + p * W, V == W - m * y), (M - p * m) * y == x + p * V), M, m, y, x, W, V)
    s.assume(Imp(y != 0, z3.And(i * y == 1 + p * k, M % p == M - p * m)))
def is_quotient(z, x, y, p): return [z >= 0, z < p, (z * y) % p == x]
@contract(FE + 'operator/=', **C2F)
def fp_diveq(s):
    x, y = val(s.this()), val(s.arg(0)); p = wf(s, x, y); quotient(s, x, y, p); lv = s.obj; s.havoc(lv.f('mValue'), I); s.returns(lv)
    s.ensures(lambda ret, read: is_quotient(read(lv.f('mValue')), x, y, p), 'quotient times divisor is the dividend')
d = dict(C2F); d['when'] = lambda i: low(i) and i.np == 2
@contract('frn::lib::math::operator/', **d)
def fp_opdiv(s):
    x, y = val(s.arg(0)), val(s.arg(1)); p = wf(s, x, y); quotient(s, x, y, p)
    s.ensures(lambda ret, read: is_quotient(val(ret), x, y, p), 'quotient times divisor is the dividend')
