"""Symbolic values, sorts and array terms."""
import z3, itertools
from frontend import Ty
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
class Unsup(Exception): pass
_ctr = itertools.count()
def reset_names():
    global _ctr
    _ctr = itertools.count()
def fresh(name, sort): return z3.Const('%s!%d' % (name, next(_ctr)), sort)
def iv(n): return z3.IntVal(n)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

# ---------- abstraction switches (set per verification target) ----------
class Cfg:
    absfield = True; absprg = True; abs = ()
cfg = Cfg()
FIELDQN = 'frn::lib::math::FpElement'
PRGQN = 'frn::lib::primitives::PRG'
def is_field(t): return cfg.absfield and t.k == 'rec' and t.n == FIELDQN and 'Mp61' in t.s
def is_prg(t): return cfg.absprg and t.k == 'rec' and t.n == PRGQN

# ---------- values ----------
class Rec:
    __slots__ = ('ty', 'f')
    def __init__(s, ty, f): s.ty = ty; s.f = f
    def set(s, k, v): g = dict(s.f); g[k] = v; return Rec(s.ty, g)
    def __repr__(s): return 'Rec(%s,%s)' % (s.ty.n if s.ty else None, s.f)
class Vec:
    """n: Int term, arr: z3 array Int->sort(et); kind: vector/string/array/raw"""
    __slots__ = ('n', 'arr', 'et', 'kind')
    def __init__(s, n, arr, et, kind='vector'): s.n = n; s.arr = arr; s.et = et; s.kind = kind
    def __repr__(s): return 'Vec(n=%s,%s)' % (s.n, str(s.arr)[:120])
    def at(s, i): return unpack(sel(s.arr, i if not isinstance(i, int) else iv(i)), s.et)
class Lst:
    """concrete-length array"""
    __slots__ = ('xs', 'et', 'kind')
    def __init__(s, xs, et, kind='array'): s.xs = list(xs); s.et = et; s.kind = kind
    def __repr__(s): return 'Lst%s' % s.xs
class LV:
    __slots__ = ('c', 'p')
    def __init__(s, c, p=()): s.c = c; s.p = p
    def f(s, n): return LV(s.c, s.p + (('f', n),))
    def i(s, i): return LV(s.c, s.p + (('i', i),))
    def __repr__(s): return 'LV(%s,%s)' % (s.c, s.p)
class Ref:
    """a reference stored as a value"""
    __slots__ = ('lv',)
    def __init__(s, lv): s.lv = lv
class Ptr:
    """lv: container (Vec/Lst) + element index, or object (idx None). view: byte size factor of reinterpretation (None = elements)"""
    __slots__ = ('lv', 'idx', 'view', 'rev')
    def __init__(s, lv, idx=None, view=None, rev=False): s.lv = lv; s.idx = idx; s.view = view; s.rev = rev
    def __repr__(s): return 'Ptr(%s,%s,%s)' % (s.lv, s.idx, s.view)
class Null:
    def __repr__(s): return 'Null'
class Clo:
    __slots__ = ('op', 'caps', 'this', 'r')
    def __init__(s, op, caps, this, r): s.op = op; s.caps = caps; s.this = this; s.r = r
class Opt:
    __slots__ = ('has', 'v', 'et')
    def __init__(s, has, v, et): s.has = has; s.v = v; s.et = et
class Opaque:
    __slots__ = ('tag', 'd')
    def __init__(s, tag, d=None): s.tag = tag; s.d = d
    def __repr__(s): return 'Opaque(%s)' % s.tag
class Uninit:
    def __repr__(s): return 'Uninit'
UNINIT = Uninit()

# ---------- PRG abstraction: (key, position in bytes) ----------
PRGD = z3.Datatype('PRGS'); PRGD.declare('mkprg', ('prgkey', I), ('prgctr', I)); PRGD = PRGD.create()
PRGB = z3.Function('prgbyte', I, I, I)          # key, absolute byte position -> byte
FEL = z3.Function('prgelem', I, I, R)         # key, p -> DEC of the 8 bytes prgbyte(key, p .. p+7)
PRGKEY = z3.Function('prgkeyof', *([I] * 16 + [I]))
DEC = z3.Function('decF', *([I] * 8 + [R]))       # 8 bytes -> field element
ENC = z3.Function('encF', R, I, I)                # field element, byte index -> byte
TOF = z3.Function('toF', I, R)                   # integer -> field element
REP = z3.Function('repF', R, I)                  # canonical representative
FM = z3.Function('fm', R, R, R)                  # field product of two atoms
FINV = z3.Function('finv', R, R)

# ---------- sorts ----------
_dts = {}
class RawTy:
    """type of a specification-only field"""
    def __init__(s, sort): s.k = 'raw'; s.sort = sort; s.n = s.r = s.ta = s.t = None; s.s = str(sort); s.c = False
    def strip(s): return s
    def __repr__(s): return '<ghost %s>' % s.s
ABSREC = {}     # record name -> specification-only fields that replace its data members (while vals.cfg.abs contains the name)
def isabs(t): return t.k == 'rec' and t.n in cfg.abs
def recfields(P, t):
    if t.n in cfg.abs: return [(n, RawTy(so)) for n, so in ABSREC[t.n]]
    r = P.records.get(t.r)
    if r is None: raise Unsup('record %s' % t.s)
    out = []
    for b in r['bases']:
        if b.k == 'rec' and b.n.startswith('frn') and 'RingElement' not in b.n and not b.n.endswith('Prime'):
            out += recfields(P, b)
    return out + [(f['n'], f['t']) for f in r['fields']]
PROG = None
def is_vecty(t): return t.k == 'rec' and t.n in ('std::vector', 'std::basic_string', 'std::array', 'std::initializer_list', 'std::deque') or t.k == 'arr'
def elemty(t): return t.t if t.k == 'arr' else t.ta[0]
BV128 = z3.BitVecSort(128)
def seq_sort(es):
    key = 'Seq<%s>' % es
    if key not in _dts:
        d = z3.Datatype(key); d.declare('mk' + key, ('len' + key, I), ('arr' + key, z3.ArraySort(I, es))); _dts[key] = d.create()
    return _dts[key]
def sort_of(t):
    if t.k == 'ref': raise Unsup('sort of reference')
    if t.k in ('int', 'enum'): return I
    if t.k == 'bool': return B
    if is_field(t): return R
    if is_prg(t): return PRGD
    if t.k == 'raw': return t.sort
    if t.k == 'simd': return BV128
    if t.k == 'rec' and t.n == 'std::unique_ptr' and isabs(t.ta[0]): return sort_of(t.ta[0])
    if is_vecty(t):
        return seq_sort(sort_of(elemty(t)))
    if t.k == 'rec' and t.n == 'std::pair':
        key = 'Pair<%s,%s>' % (sort_of(t.ta[0]), sort_of(t.ta[1]))
        if key not in _dts:
            d = z3.Datatype(key); d.declare('mk' + key, ('first' + key, sort_of(t.ta[0])), ('second' + key, sort_of(t.ta[1]))); _dts[key] = d.create()
        return _dts[key]
    if t.k == 'rec' and t.r in PROG.records:
        key = 'R<%s>' % t.r + ('abs' if isabs(t) else '')
        if key not in _dts:
            fs = recfields(PROG, t)
            d = z3.Datatype(key); d.declare('mk' + key, *[('%s@%s' % (n, key), sort_of(ft)) for n, ft in fs]) if fs else d.declare('mk' + key)
            _dts[key] = d.create()
        return _dts[key]
    raise Unsup('no sort for %s' % t.s)

def acc(d, k):
    """k-th accessor of a datatype term, with folding"""
    s = d.sort(); 
    if z3.is_app(d):
        dk = d.decl().kind()
        if dk == z3.Z3_OP_DT_CONSTRUCTOR: return d.arg(k)
        if dk == z3.Z3_OP_ITE:
            a, b = acc(d.arg(1), k), acc(d.arg(2), k)
            return a if a.eq(b) else z3.If(d.arg(0), a, b)
    return s.accessor(0, k)(d)

def is_lam(a): return z3.is_quantifier(a) and a.is_lambda()
def sel(arr, i):
    if isinstance(i, int): i = iv(i)
    if is_lam(arr):
        return fold_consts(z3.substitute_vars(arr.body(), i))
    if z3.is_app(arr):
        k = arr.decl().kind()
        if k == z3.Z3_OP_STORE:
            a, j, v = arr.arg(0), arr.arg(1), arr.arg(2)
            c = eqc(j, i)
            if c is True: return v
            if c is False: return sel(a, i)
            e = sel(a, i)
            return v if e.eq(v) else z3.If(j == i, v, e)
        if k == z3.Z3_OP_ITE:
            a, b = sel(arr.arg(1), i), sel(arr.arg(2), i)
            return a if a.eq(b) else z3.If(arr.arg(0), a, b)
        if k == z3.Z3_OP_CONST_ARRAY: return arr.arg(0)
    return z3.Select(arr, i)
def fold_consts(t):
    """re-normalise after substitution: select over lambda/store, accessor over constructor"""
    return renorm(t)
_rn = {}
def renorm(t):
    """bottom-up rewrite of select/accessor redexes (not below binders)"""
    key = t.get_id()
    hit = _rn.get(key)
    if hit is not None and hit[0].eq(t): return hit[1]
    r = _renorm(t)
    if len(_rn) > 200000: _rn.clear()
    _rn[key] = (t, r)
    return r
def _renorm(t):
    if not z3.is_app(t) or t.num_args() == 0: return t
    ch = t.children(); nch = [renorm(c) for c in ch]; d = t.decl(); k = d.kind()
    if k == z3.Z3_OP_SELECT: return sel(nch[0], nch[1])
    if k == z3.Z3_OP_DT_ACCESSOR:
        s = nch[0].sort()
        for j in range(s.constructor(0).arity()):
            if s.accessor(0, j).eq(d): return acc(nch[0], j)
    if k == z3.Z3_OP_ITE:
        c = cs(nch[0])
        if z3.is_true(c): return nch[1]
        if z3.is_false(c): return nch[2]
        if nch[1].eq(nch[2]): return nch[1]
        return z3.If(c, nch[1], nch[2])
    if all(a.eq(b) for a, b in zip(ch, nch)): r = t
    else: r = d(*nch)
    if d.eq(FM): return fmul(nch[0], nch[1])
    if d.name() == 'FSUM' and z3.is_int_value(nch[1]) and nch[1].as_long() == 0: return z3.RealVal(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and r.sort() == R and any(z3.is_rational_value(a) and a.numerator_as_long() == 0 for a in nch): return fnorm(r)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) : return cs(r)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL) and r.sort() == I: return cs(r)
    return r
def cs(t):
    return z3.simplify(t) if not has_binder(t) else t
_hb = {}
def has_binder(t):
    k = t.get_id(); h = _hb.get(k)
    if h is not None and h[0].eq(t): return h[1]
    r = z3.is_quantifier(t) or any(has_binder(c) for c in t.children())
    if len(_hb) > 200000: _hb.clear()
    _hb[k] = (t, r); return r
def eqc(a, b):
    if a.eq(b): return True
    d = z3.simplify(a - b)
    if z3.is_int_value(d): return d.as_long() == 0
    return None
def store(arr, i, v): 
    if isinstance(i, int): i = iv(i)
    if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE and eqc(arr.arg(1), i) is True: return z3.Store(arr.arg(0), i, v)
    return z3.Store(arr, i, v)
def lam(fn, name='j'):
    j = fresh(name, I)
    return z3.Lambda([j], fn(j))

def pack(v, t):
    t = t.strip()
    if isinstance(v, Vec): return sort_of(t).constructor(0)(v.n, v.arr)
    if isinstance(v, Lst):
        es = sort_of(v.et); a = z3.K(I, zero_term(v.et))
        for i, x in enumerate(v.xs): a = z3.Store(a, i, pack(x, v.et))
        return sort_of(t).constructor(0)(iv(len(v.xs)), a)
    if isinstance(v, Rec):
        if t.n == 'std::unique_ptr': t = t.ta[0]
        if t.n == 'std::pair': return sort_of(t).constructor(0)(pack(v.f['first'], t.ta[0]), pack(v.f['second'], t.ta[1]))
        return sort_of(t).constructor(0)(*[pack(v.f[n], ft) for n, ft in recfields(PROG, t)])
    if z3.is_expr(v): return v
    if v is UNINIT: return fresh('uninit', sort_of(t))
    raise Unsup('pack %r' % (v,))
def veckind(t):
    if t.k == 'arr': return 'carr'
    return {'std::vector': 'vector', 'std::basic_string': 'string', 'std::array': 'array', 'std::initializer_list': 'vector', 'std::deque': 'deque'}[t.n]
def unpack(e, t):
    t = t.strip()
    if is_field(t) or is_prg(t) or t.k in ('int', 'bool', 'enum', 'raw'): return e
    if t.k == 'rec' and t.n == 'std::unique_ptr': t = t.ta[0]     # an owned object, by value
    if is_vecty(t): return Vec(acc(e, 0), acc(e, 1), elemty(t), veckind(t))
    if t.k == 'rec' and t.n == 'std::pair': return Rec(t, {'first': unpack(acc(e, 0), t.ta[0]), 'second': unpack(acc(e, 1), t.ta[1])})
    if t.k == 'rec': return Rec(t, {n: unpack(acc(e, i), ft) for i, (n, ft) in enumerate(recfields(PROG, t))})
    raise Unsup('unpack %s' % t.s)
def zero_term(t):
    if t.k in ('int', 'enum'): return iv(0)
    if t.k == 'bool': return FALSE
    if is_field(t): return z3.RealVal(0)
    return fresh('dflt', sort_of(t))

# ---------- field polynomials ----------
def _mono(t): 
    """FM-nest -> list of atoms"""
    if z3.is_app(t) and t.decl().eq(FM): return _mono(t.arg(0)) + _mono(t.arg(1))
    return [t]
def poly(t, depth=0):
    """-> dict{tuple(sorted atom ids): (coef, atoms)}"""
    from fractions import Fraction
    if z3.is_rational_value(t):
        q = t.as_fraction(); return {} if q == 0 else {(): (q, ())}
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in t.children(): padd(r, poly(c), 1)
            return r
        if k == z3.Z3_OP_SUB:
            r = dict(poly(t.arg(0)))
            for c in t.children()[1:]: padd(r, poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            r = {}; padd(r, poly(t.arg(0)), -1); return r
        if k == z3.Z3_OP_MUL:
            r = {(): (Fraction(1), ())}
            for c in t.children(): r = pmul(r, poly(c))
            return r
        if t.decl().eq(FM): return pmul(poly(t.arg(0)), poly(t.arg(1)))
    return {(t.get_id(),): (Fraction(1), (t,))}
def padd(r, q, s):
    for k, (c, a) in q.items():
        c0 = r[k][0] if k in r else 0
        if c0 + s * c == 0: r.pop(k, None)
        else: r[k] = (c0 + s * c, a)
def pmul(p, q):
    r = {}
    for k1, (c1, a1) in p.items():
        for k2, (c2, a2) in q.items():
            at = sorted(a1 + a2, key=lambda x: (x.hash(), x.get_id())); k = tuple(x.get_id() for x in at)
            padd(r, {k: (c1 * c2, tuple(at))}, 1)
    return r
def unpoly(p):
    ts = []
    for k, (c, at) in sorted(p.items()):
        if not at: ts.append(z3.RealVal(c)); continue
        m = at[-1]
        for x in reversed(at[:-1]): m = FM(x, m)
        ts.append(m if c == 1 else -m if c == -1 else z3.RealVal(c) * m)
    if not ts: return z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)
def has_ite(t): return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE
def fmul(a, b):
    if has_ite(a): return z3.If(a.arg(0), fmul(a.arg(1), b), fmul(a.arg(2), b))
    if has_ite(b): return z3.If(b.arg(0), fmul(a, b.arg(1)), fmul(a, b.arg(2)))
    return unpoly(pmul(poly(a), poly(b)))
def fnorm(t):
    return unpoly(poly(t))
