"""C05: matrices. A matrix is its row count, column count and row-major values."""
from contract import *
from specs_field import *
from specs_comb import MP
from specs_vec import elemwise, cp, LE
import core
M = 'frn::lib::math::Matrix::'; IA = 'std::invalid_argument'
FA, Imp = z3.ForAll, z3.Implies
LIM = 2 ** 27
def dims(m): return m.f['mRows'], m.f['mCols']
def wfm(s, m, what='matrix'):
    r, c = dims(m); s.require(z3.And(r >= 1, c >= 1, r < LIM, c < LIM, m.f['mValues'].n == r * c), what + ' is well formed (dimensions below 2^27)')
    s.inst(lambda r, c: Imp(z3.And(r >= 1, c >= 1, r < LIM, c < LIM), z3.And(r * c >= 1, r * c < 2 ** 54)), r, c); return r, c
POS = z3.Function('pos', I, I, I, I)          # POS(c, i, j) = c*i + j: the place of element (i, j) of a matrix with c columns
def at(m, i, j): return sel(m.f['mValues'].arr, POS(m.f['mCols'], i, j))
def defpos(s, c, i, j): s.assume(POS(c, i, j) == c * i + j)
def inside(s, r, c, i, j):
    s.inst(lambda r, c, i, j: Imp(z3.And(0 <= i, i < r, 0 <= j, j < c, r < LIM, c < LIM), z3.And(c * i + j >= 0, c * i + j < r * c, c * i >= 0, c * i < 2 ** 54)), r, c, i, j)
def op(const):
    def spec(s):
        m = s.this(); r, c = wfm(s, m); i, j = s.arg(0), s.arg(1); s.require(z3.And(i < r, j < c), 'row and column in range'); 
        if s.mode == 'verify': inside(s, r, c, i, j); defpos(s, c, i, j)
        s.assume(z3.And(POS(c, i, j) >= 0, POS(c, i, j) < m.f['mValues'].n)) if s.mode != 'verify' else s.ensures(lambda ret, read: z3.And(POS(c, i, j) >= 0, POS(c, i, j) < m.f['mValues'].n), 'position in range')
        s.returns(at(m, i, j) if const else s.obj.f('mValues').i(POS(c, i, j)))
    return spec
C5 = dict(prop='C05')
REG.add(Contract('mat_at', M + 'operator()', op(True), when=lambda i: i.fn and i.fn.get('const'), **C5))
REG.add(Contract('mat_ref', M + 'operator()', op(False), when=lambda i: i.fn and not i.fn.get('const'), **C5))
def new(ty, r, c, arr, et): return Rec(ty, {'mRows': r, 'mCols': c, 'mValues': Vec(r * c, arr, et, 'vector')})
@contract(M + '(ctor)', when=lambda i: i.np == 2, **C5)
def mat_new(s):
    r, c = s.arg(0), s.arg(1); s.require(z3.And(r < LIM, c < LIM), 'dimensions below 2^27'); s.throws(IA, z3.Or(r == 0, c == 0)); s.inst(lambda r, c: Imp(z3.And(r >= 0, c >= 0, r < LIM, c < LIM), z3.And(r * c >= 0, r * c < 2 ** 54)), r, c)
    s.setthis(new(s.ty, r, c, z3.K(I, z3.RealVal(0)), fe(s.ty)))
def fe(t): return dict(vals.recfields(vals.PROG, t))['mValues'].ta[0]
def like(m, arr): return m.set('mValues', cp(m.f['mValues'], arr))
ELEM = {'Add': lambda x, y: fnorm(x + y), 'Subtract': lambda x, y: fnorm(x - y), 'Multiply': fmul}
for nm, f in ELEM.items():
    def spec(s, f=f, into=False):
        a, b = s.this(), s.arg(0); wfm(s, a); wfm(s, b, 'argument'); s.throws(LE, z3.Or(a.f['mRows'] != b.f['mRows'], a.f['mCols'] != b.f['mCols']))
        v = like(a, elemwise(a.f['mValues'], b.f['mValues'], f))
        if into: s.setthis(v); s.returns(s.obj)
        else: s.returns(v)
    REG.add(Contract('mat_' + nm.lower(), M + nm, spec, **C5))
    REG.add(Contract('mat_%s_into' % nm.lower(), M + nm + 'Into', lambda s, sp=spec, f=f: sp(s, f, True), **C5))
def scaled(s): a, k = s.this(), s.arg(0); return like(a, lam(lambda j: fmul(sel(a.f['mValues'].arr, j), k)))
@contract(M + 'Scale', **C5)
def mat_scale(s): s.returns(scaled(s))
@contract(M + 'ScaleBy', **C5)
def mat_scaleby(s): s.setthis(scaled(s)); s.returns(s.obj)
def disjoint(s, c):
    """row-major positions: defined, ordered by rows, hence different elements have different places"""
    a, b, i, j = z3.Ints('a b i j')
    s.valid(lambda c, a, b, i, j: Imp(z3.And(0 <= a, a < i, 0 <= b, b < c, 0 <= j), c * a + b < c * i + j), 5)
    s.assume(FA([a, b, i, j], Imp(z3.And(0 <= a, a < i, 0 <= b, b < c, 0 <= j), POS(c, a, b) < POS(c, i, j)), patterns=[MP(POS(c, a, b), POS(c, i, j))]))
    s.assume(FA([a, b, j], Imp(b != j, POS(c, a, b) != POS(c, a, j)), patterns=[MP(POS(c, a, b), POS(c, a, j))]))
def rows_done(now, want, i, n, m, rest=None):
    """rows before i hold want(row, column)"""
    a, b = fresh('a', I), fresh('b', I)
    return FA([a, b], Imp(z3.And(0 <= a, a < i, 0 <= b, b < m), sel(now.arr, POS(m, a, b)) == want(a, b)))
def row_done(now, want, i, j, m):
    b = fresh('b', I); return FA([b], Imp(z3.And(0 <= b, b < j), sel(now.arr, POS(m, i, b)) == want(i, b)))
def local_matrix(L, pred):
    """the matrix under construction: the local matrix the loop changes"""
    own = {lv.c for lv in L.base.env[-1].values() if isinstance(lv, LV)}
    cand = {c for c, p in L.mods if c in own and isinstance(L.st.cells.get(c), Rec) and 'mValues' in L.st.cells[c].f}
    if len(cand) != 1: raise Unsup('invariant: matrix under construction')
    return L.st.cells[cand.pop()]
def sub_inv(level):
    def inv(s, L):
        m = local_matrix(L, None); now = m.f['mValues']; A = s.this(); rb, re, cb, ce = [s.arg(i) for i in range(4)]; n, c = re - rb, ce - cb
        want = lambda a, b: at(A, rb + a, cb + b); i = L.outer[-1] if level else L.k
        r = [('shape', z3.And(m.f['mRows'] == n, m.f['mCols'] == c, now.n == n * c)), ('finished rows', rows_done(now, want, i, n, c))]
        if level: r.append(('current row', row_done(now, want, i, L.k, c)))
        return r
    return inv
@contract(M + 'extract_submatrix', invs={0: sub_inv(0), 1: sub_inv(1)}, tmo=15.0, cfg=dict(noclosed=True), **C5)
def mat_sub(s):
    A = s.this(); r, c = wfm(s, A); rb, re, cb, ce = [s.arg(i) for i in range(4)]; bad = z3.Or(rb > re, re > r, cb > ce, ce > c); s.throws(LE, bad); s.throws(IA, z3.And(z3.Not(bad), z3.Or(rb == re, cb == ce)))
    disjoint(s, sv(ce - cb)); a, b = fresh('a', I), fresh('b', I)
    def post(ret, read):
        n, m = re - rb, ce - cb
        return [ret.f['mRows'] == n, ret.f['mCols'] == m, ret.f['mValues'].n == n * m, rows_done(ret.f['mValues'], lambda a, b: at(A, rb + a, cb + b), n, n, m)]
    s.ensures(post, 'element (i, j) of the result is element (row_beg + i, col_beg + j)')
PART = z3.Function('matmul_partial', I, I, I, R)     # PART(i, j, k): sum over q < k of A(i, q) * B(q, j), defined by its recursion
def mm_inv(level):
    def inv(s, L):
        m = local_matrix(L, None); now = m.f['mValues']; A, B = s.this(), s.arg(0); n, p, c = A.f['mRows'], A.f['mCols'], B.f['mCols']
        i = L.k if level == 0 else L.outer[-level]; b = fresh('b', I); a = fresh('a', I)
        rest = i if level == 0 else i + 1
        r = [('shape', z3.And(m.f['mRows'] == n, m.f['mCols'] == c, now.n == n * c)), ('finished rows', rows_done(now, lambda a, b: PART(a, b, p), i, n, c)),
             ('untouched rows', FA([a, b], Imp(z3.And(rest <= a, a < n, 0 <= b, b < c), sel(now.arr, POS(c, a, b)) == 0)))]
        if level == 1: r.append(('current row', FA([b], Imp(z3.And(0 <= b, b < c), sel(now.arr, POS(c, i, b)) == PART(i, b, L.k)))))
        if level == 2:
            k = L.outer[-1]; r += [('current row, done', FA([b], Imp(z3.And(0 <= b, b < L.k), sel(now.arr, POS(c, i, b)) == PART(i, b, sv(k + 1))))), ('current row, rest', FA([b], Imp(z3.And(L.k <= b, b < c), sel(now.arr, POS(c, i, b)) == PART(i, b, k))))]
            if L.phase == 'assume': L.st.facts.append(FA([b], PART(i, b, sv(k + 1)) == PART(i, b, k) + fmul(at(A, i, k), at(B, k, b)), patterns=[PART(i, b, sv(k + 1))]))
        if L.phase == 'prove' or level == 1: L.st.facts.append(FA([b], PART(i, b, iv(0)) == 0, patterns=[PART(i, b, iv(0))]))
        return r
    return inv
from core import sv
@contract(M + 'MatMul', invs={0: mm_inv(0), 1: mm_inv(1), 2: mm_inv(2)}, tmo=15.0, cfg=dict(noclosed=True), **C5)
def mat_mul(s):
    A, B = s.this(), s.arg(0); n, p = wfm(s, A); q, c = wfm(s, B, 'argument'); s.throws(IA, p != q); disjoint(s, c)
    s.ensures(lambda ret, read: [ret.f['mRows'] == n, ret.f['mCols'] == c, ret.f['mValues'].n == n * c, rows_done(ret.f['mValues'], lambda a, b: PART(a, b, p), n, n, c)], 'element (i, j) of the product is the sum over q of A(i, q) * B(q, j)')
PW = z3.Function('power', R, I, R)       # PW(a, j) = a^j, defined by its recursion
def vand_inv(level):
    def inv(s, L):
        m = local_matrix(L, None); now = m.f['mValues']; al = s.vec(0); n, c = al.n, s.arg(1); want = lambda a, b: PW(sel(al.arr, a), b); i = L.outer[-1] if level else L.k
        r = [('shape', z3.And(m.f['mRows'] == n, m.f['mCols'] == c, now.n == n * c)), ('finished rows', rows_done(now, want, i, n, c))]; a = sel(al.arr, i)
        if level:
            x = L.role(lambda v: solve.quick(L.base.all(), v != 1) == z3.unsat, R)
            if x is None: raise Unsup('invariant: running power')
            r += [('current row', row_done(now, want, i, L.k, c)), ('running power', x == PW(a, L.k))]
            if L.phase == 'assume': L.st.facts.append(PW(a, sv(L.k + 1)) == fmul(PW(a, L.k), a))
            else: L.st.facts.append(PW(a, iv(0)) == 1)
        return r
    return inv
VM = 'frn::lib::math::create_vandermonde_matrix'
def vand_post(al, n, c):
    return lambda ret, read: [ret.f['mRows'] == n, ret.f['mCols'] == c, ret.f['mValues'].n == n * c, rows_done(ret.f['mValues'], lambda a, b: PW(al(a), b), n, n, c)]
@contract(VM, when=lambda i: i.np == 2, invs={0: vand_inv(0), 1: vand_inv(1)}, tmo=15.0, cfg=dict(noclosed=True), **C5)
def vandermonde(s):
    al, c = s.vec(0), s.arg(1); n = al.n; s.require(z3.And(n < LIM, c < LIM), 'dimensions below 2^27'); s.throws(IA, z3.Or(n == 0, c == 0)); disjoint(s, c)
    s.ensures(vand_post(lambda a: sel(al.arr, a), n, c), 'element (i, j) is alpha_i to the power j')
@contract(VM, when=lambda i: i.np == 3, tmo=15.0, **C5)
def vandermonde_range(s):
    b, n, c = s.arg(0), s.arg(1), s.arg(2); s.require(z3.And(n < LIM, c < LIM), 'dimensions below 2^27'); s.throws(IA, z3.Or(n == 0, c == 0)); disjoint(s, c)
    s.ensures(vand_post(lambda a: fnorm(b + tof(a)), n, c), 'element (i, j) is (base + i) to the power j')
