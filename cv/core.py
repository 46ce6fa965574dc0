"""Symbolic executor / VC generator over the exported AST."""
import z3, time
from vals import *
import vals, solve
from solve import contains_any, quick, prove
MAXSZ = 2 ** 56
_IM = z3.Function('imul', I, I, I)
_sk = {}
def sk(t):
    """deterministic ordering key"""
    h = _sk.get(t.get_id())
    if h is None or not h[0].eq(t): h = (t, str(t)); _sk[t.get_id()] = h
    return h[1]
def IMUL(a, b):
    """integer product, opaque to the solver (commutative by construction)"""
    if z3.is_int_value(a) or z3.is_int_value(b): return a * b
    return _IM(a, b) if sk(a) <= sk(b) else _IM(b, a)
BYTE_QN = ('std::vector', 'std::basic_string')

GUARDED = set(); HOOKS = {}   # classes whose containers may be accessed only with the mutex held (monitors)
GHOST = {}     # record name -> adds specification-only fields to a symbolic object
class State:
    __slots__ = ('cells', 'env', 'pc', 'facts', 'log')
    def __init__(s): s.cells = {}; s.env = [{}]; s.pc = []; s.facts = []; s.log = []
    def copy(s):
        t = State(); t.cells = dict(s.cells); t.env = [dict(e) if i == len(s.env) - 1 else e for i, e in enumerate(s.env)]
        t.pc = list(s.pc); t.facts = list(s.facts); t.log = list(s.log); return t
    def all(s): return s.facts + s.pc

class Frame:
    __slots__ = ('this', 'fn', 'clo')
    def __init__(s, this, fn, clo=None): s.this = this; s.fn = fn; s.clo = clo

class Oblig:
    __slots__ = ('name', 'facts', 'goal', 'line', 'kind')
    def __init__(s, name, facts, goal, line, kind): s.name = name; s.facts = facts; s.goal = goal; s.line = line; s.kind = kind

EXC_BASES = {'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error',
             'std::system_error': 'std::runtime_error'}

def sv(x):
    """simplify an Int/Bool term when cheap"""
    return z3.simplify(x) if not has_binder(x) else x
def add(a, b): return sv(a + b)
def subt(a, b): return sv(a - b)
def mul(a, b): return sv(a * b)
def idiv(a, c):
    """a / c for a positive constant c, in a normal form"""
    a = sv(a)
    if c == 1 : return a
    if z3.is_app(a) and a.num_args() == 2 and isconst(a.arg(1)):
        k = a.arg(1).as_long(); kd = a.decl().kind()
        if kd == z3.Z3_OP_MOD and k > 0 and k % c == 0: return imod(idiv(a.arg(0), c), k // c)
        if kd == z3.Z3_OP_IDIV and k > 0: return idiv(a.arg(0), k * c)
    return sv(a / c)
def imod(a, c):
    a = sv(a)
    if c == 1: return iv(0)
    if z3.is_app(a) and a.num_args() == 2 and isconst(a.arg(1)):
        k = a.arg(1).as_long()
        if a.decl().kind() == z3.Z3_OP_MOD and k > 0 and k % c == 0: return imod(a.arg(0), c)
    return sv(a % c)
def isconst(x): return z3.is_int_value(x)
def And(l):
    l = [x for x in l if not z3.is_true(x)]
    return TRUE if not l else l[0] if len(l) == 1 else z3.And(*l)
def ranged(t):
    return (-(1 << (t.b - 1)), (1 << (t.b - 1)) - 1) if t.sg else (0, (1 << t.b) - 1)

def e_type(fn): return fn.get('t')
def tzeros(v, d=0):
    """a power of two (exponent) that divides the term"""
    if isconst(v): n = v.as_long(); return 64 if n == 0 else (n & -n).bit_length() - 1
    if d > 12 or not z3.is_app(v): return 0
    k = v.decl().kind()
    if k == z3.Z3_OP_ADD: return min(tzeros(c, d + 1) for c in v.children())
    if k == z3.Z3_OP_MUL: return sum(tzeros(c, d + 1) for c in v.children())
    if k == z3.Z3_OP_ITE: return min(tzeros(v.arg(1), d + 1), tzeros(v.arg(2), d + 1))
    return 0
_FB = {}
def factbounds(f):
    """constant bounds a fact states: {term id: (lo, hi)}"""
    k = f.get_id(); h = _FB.get(k)
    if h is not None and h[0].eq(f): return h[1]
    r = {}
    def add(t, lo, hi):
        a, b = r.get(t.get_id(), (None, None))
        if lo is not None: a = lo if a is None else max(a, lo)
        if hi is not None: b = hi if b is None else min(b, hi)
        r[t.get_id()] = (a, b)
    for c in (f.children() if z3.is_and(f) else [f]):
        neg = z3.is_not(c); d = c.arg(0) if neg else c
        if not z3.is_app(d) or d.num_args() != 2 or not isconst(d.arg(1)): continue
        x, n = d.arg(0), d.arg(1).as_long()
        if z3.is_le(d): add(x, n + 1, None) if neg else add(x, None, n)
        elif z3.is_ge(d): add(x, None, n - 1) if neg else add(x, n, None)
        elif z3.is_lt(d) and not neg: add(x, None, n - 1)
    if len(_FB) > 100000: _FB.clear()
    _FB[k] = (f, r); return r
I2B = z3.Function('I2B', I, z3.BitVecSort(64))      # a 64-bit word as a bit vector (uninterpreted: used on equal arguments only)
def lane(x): return x if z3.is_bv(x) else z3.BitVecVal(x.as_long(), 64) if isconst(x) else I2B(x)
class Exec:
    hooks = HOOKS
    bst = None
    def __init__(self, prog, contracts, target=None):
        self.P = prog; self.C = contracts; self.target = target
        self.cellc = 0; self.obl = []; self.sink = []; self.math = 0; self.discover = 0
        self.frames = []; self.used = set(); self.inlined = set(); self.notes = []; self.unsolved = 0; self.loops = 0
        self.gcells = {}; self.depth = 0; self.line = 0; self.templates = []; self.contractless = None
        self.bv = False; self.imul = False; self.deadline = None; self.nowrap_assume = []
    # ----- cells -----
    def new(self, st, v, tag='c'):
        self.cellc += 1; k = '%s%d' % (tag, self.cellc); st.cells[k] = v; return LV(k)
    def deref(self, lv):
        return lv
    def read(self, st, lv, want=None):
        v = st.cells[lv.c]
        for p in lv.p: v = self.step(st, v, p)
        return v
    def step(self, st, v, p):
        if isinstance(v, Ref): v = self.read(st, v.lv)
        if p[0] == 'f':
            if isinstance(v, Rec):
                if p[1] in v.f:
                    return v.f[p[1]]
                raise Unsup('field %s of %s' % (p[1], v.ty and v.ty.n))
            if v is UNINIT: return UNINIT
            if isinstance(v, Opaque): return Opaque('field')      # libc structures: contents are not tracked
            raise Unsup('field %s of %r' % (p[1], type(v)))
        if p[0] == 'i':
            i = p[1]
            if isinstance(v, Vec):
                r = unpack(sel(v.arr, i), v.et); self.typefacts(st, r, v.et); return r
            if isinstance(v, Lst):
                if isconst(i): 
                    k = i.as_long()
                    if not 0 <= k < len(v.xs): raise Unsup('constant index out of bounds')
                    return v.xs[k]
                return self.lst_read(v, i)
            raise Unsup('index of %r' % v)
        if p[0] == 'o': return v.v
        raise Unsup('path')
    def lst_read(self, v, i):
        r = v.xs[-1]
        for k in range(len(v.xs) - 2, -1, -1): r = self.ite(i == k, v.xs[k], r)
        return r
    def write(self, st, lv, val):
        if lv.c.startswith('punned'): raise Unsup('write through a reinterpreted pointer')
        st.cells[lv.c] = self.upd(st, st.cells.get(lv.c), lv.p, val)
    def upd(self, st, v, path, val):
        if not path: return val
        if isinstance(v, Ref):
            self.write(st, LV(v.lv.c, v.lv.p + path), val); return v
        p, rest = path[0], path[1:]
        if p[0] == 'f':
            if isinstance(v, Opaque): return v
            if not isinstance(v, Rec): raise Unsup('field write to %r' % (v,))
            return v.set(p[1], self.upd(st, v.f.get(p[1]), rest, val))
        if p[0] == 'i':
            i = p[1]
            if isinstance(v, Vec):
                nv = val if not rest else self.upd(st, unpack(sel(v.arr, i), v.et), rest, val)
                return Vec(v.n, store(v.arr, i, pack(nv, v.et)), v.et, v.kind)
            if isinstance(v, Lst):
                xs = list(v.xs)
                if isconst(i):
                    k = i.as_long()
                    if not 0 <= k < len(xs): raise Unsup('constant index out of bounds')
                    xs[k] = self.upd(st, xs[k], rest, val)
                else:
                    for k in range(len(xs)): xs[k] = self.ite(i == k, self.upd(st, xs[k], rest, val), xs[k])
                return Lst(xs, v.et, v.kind)
        if p[0] == 'o': return Opt(v.has, self.upd(st, v.v, rest, val), v.et)
        raise Unsup('write path %r on %r' % (p, v))
    def ite(self, c, a, b):
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if z3.is_expr(a) and z3.is_expr(b): return a if a.eq(b) else z3.If(c, a, b)
        if isinstance(a, Vec) and isinstance(b, Vec): return Vec(self.ite(c, a.n, b.n), self.ite(c, a.arr, b.arr), a.et, a.kind)
        if isinstance(a, Rec) and isinstance(b, Rec): return Rec(a.ty, {k: self.ite(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Lst) and isinstance(b, Lst) and len(a.xs) == len(b.xs): return Lst([self.ite(c, x, y) for x, y in zip(a.xs, b.xs)], a.et, a.kind)
        if isinstance(a, Opt) and isinstance(b, Opt): return Opt(self.ite(c, a.has, b.has), self.ite(c, a.v, b.v), a.et)
        if a is b: return a
        raise Unsup('ite of %r/%r' % (type(a), type(b)))
    def typefacts(self, st, v, t):
        """facts true of every value of a type (machine ranges, lengths)"""
        if z3.is_expr(v):
            if t.k == 'int' and v.sort() == I and not isconst(v) and z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR):
                lo, hi = ranged(t); self.fact(st, z3.And(v >= lo, v <= hi))
        elif isinstance(v, Vec):
            if not isconst(v.n) and z3.is_app(v.n) and v.n.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR): self.fact(st, z3.And(v.n >= 0, v.n < MAXSZ))
        elif isinstance(v, Rec):
            if v.ty is not None and v.ty.k == 'rec' and v.ty.r in self.P.records:
                for n, ft in recfields(self.P, v.ty):
                    if n in v.f: self.typefacts(st, v.f[n], ft.strip())
    def fact(self, st, f):
        if z3.is_true(f): return
        for g in st.facts[-40:]:
            if g.eq(f): return
        st.facts.append(f)
    def havocked(self, st, lv):
        """a fresh value of the same shape"""
        def go(v):
            if z3.is_expr(v): return fresh('post', v.sort())
            if isinstance(v, Vec): n = fresh('post', I); st.facts.append(z3.And(n >= 0, n < MAXSZ)); return Vec(n, fresh('post', v.arr.sort()), v.et, v.kind)
            if isinstance(v, Rec): return Rec(v.ty, {k: go(x) for k, x in v.f.items()})
            return v
        return go(self.read(st, lv))
    # ----- obligations -----
    def oblige(self, st, goal, name, kind='safety'):
        g = cs(goal) if z3.is_expr(goal) else z3.BoolVal(goal)
        if z3.is_true(g): return
        if not self.discover:
            self.obl.append(Oblig(name, st.all(), g, self.line, kind))
        if not z3.is_false(g): self.fact(st, g)
    def feasible(self, st, c=None):
        if c is not None:
            c = cs(c)
            if z3.is_true(c) : return True
            if z3.is_false(c): return False
        return quick(st.all(), c) != z3.unsat
    def implied(self, st, c, ms=150):
        c = cs(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return quick(st.all(), z3.Not(c), ms) == z3.unsat
    # ----- integers -----
    def bounds(self, v, depth=0, st=None):
        """interval of a term, from its structure and the facts about its atoms"""
        st = st or getattr(self, 'bst', None)
        if st is not None and self.bst is not st:
            old = self.bst; self.bst = st
            try: return self.bounds(v, depth, st)
            finally: self.bst = old
        if z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR) and st is not None:
            lo = hi = None; vid = v.get_id()
            for fs in (st.facts, st.pc):
                for f in fs:
                    h = factbounds(f)
                    if h and vid in h:
                        l, u = h[vid]
                        if l is not None: lo = l if lo is None else max(lo, l)
                        if u is not None: hi = u if hi is None else min(hi, u)
            if lo is not None and hi is not None: return lo, hi
        if isconst(v): n = v.as_long(); return n, n
        if depth > 12 or not z3.is_app(v): return None
        k = v.decl().kind()
        if k == z3.Z3_OP_MOD and isconst(v.arg(1)) and v.arg(1).as_long() > 0: return 0, v.arg(1).as_long() - 1
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in v.children():
                b = self.bounds(c, depth + 1)
                if b is None: return None
                lo += b[0]; hi += b[1]
            return lo, hi
        if k == z3.Z3_OP_MUL and v.num_args() == 2:
            a, b = self.bounds(v.arg(0), depth + 1), self.bounds(v.arg(1), depth + 1)
            if a and b: 
                c = [x * y for x in a for y in b]; return min(c), max(c)
        if k == z3.Z3_OP_IDIV and isconst(v.arg(1)) and v.arg(1).as_long() > 0:
            a = self.bounds(v.arg(0), depth + 1)
            if a: d = v.arg(1).as_long(); return a[0] // d, a[1] // d
        if k == z3.Z3_OP_ITE:
            a, b = self.bounds(v.arg(1), depth + 1), self.bounds(v.arg(2), depth + 1)
            if a and b: return min(a[0], b[0]), max(a[1], b[1])
        return None
    def wrap(self, st, v, t, conv=False):
        """value v (mathematical) stored in integer type t"""
        if t.k == 'bool': return v
        if z3.is_bv(v): return self.bvconv(v, t)
        lo, hi = ranged(t)
        v = sv(v)
        if isconst(v):
            n = v.as_long()
            if lo <= n <= hi: return v
            if t.sg and not conv: self.oblige(st, FALSE, 'signed overflow')
            n &= (1 << t.b) - 1
            if t.sg and n >> (t.b - 1): n -= 1 << t.b
            return iv(n)
        b = self.bounds(v, 0, st)
        if b and lo <= b[0] and b[1] <= hi: return v
        if self.math: return v
        inr = z3.And(v >= lo, v <= hi)
        if self.implied(st, inr): return v
        if t.sg and not conv:
            self.oblige(st, inr, 'no signed overflow'); return v
        m = 1 << t.b
        if not t.sg:
            if self.implied(st, z3.And(v >= -m, v < m)): return z3.If(v < 0, v + m, v)
            if self.implied(st, z3.And(v >= 0, v < 2 * m)): return z3.If(v >= m, v - m, v)
            return imod(v, m)
        w = imod(v, m)
        return z3.If(w >= m // 2, w - m, w)
    def bvconv(self, v, t):
        n = v.size()
        if n == t.b: return v
        if n > t.b: return z3.simplify(z3.Extract(t.b - 1, 0, v))
        return z3.simplify(z3.ZeroExt(t.b - n, v))   # BV mode is used on unsigned code only
    def tobv(self, v, t):
        if z3.is_bv(v): return v
        if isconst(v): return z3.BitVecVal(v.as_long(), t.b)
        if self.bv and t.b == 64:
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE: return z3.If(v.arg(0), self.tobv(v.arg(1), t), self.tobv(v.arg(2), t))
            return I2B(v)
        return z3.Int2BV(v, t.b)
    def bitsplit(self, st, op, a, b, t):
        """| & ^ on mathematical ints"""
        if isconst(a) and isconst(b):
            x, y = a.as_long(), b.as_long()
            if x >= 0 and y >= 0: return iv(x | y if op == '|' else x & y if op == '&' else x ^ y)
        if isconst(a): a, b = b, a
        ca = self.const_of(st, b)
        if ca is not None:
            n = ca
            if op == '&':
                if n == 0: return iv(0)
                if n > 0 and (n & (n + 1)) == 0: return imod(a, n + 1)
                if n > 0:
                    tz = (n & -n).bit_length() - 1; m = n >> tz
                    if (m & (m + 1)) == 0: return sv(imod(idiv(a, 1 << tz), m + 1) * (1 << tz))
                    if bin(n).count('1') <= 8: return sv(z3.Sum(*[((a / (1 << i)) % 2) * (1 << i) for i in range(n.bit_length()) if n >> i & 1]))
            if op in '|^' and n == 0: return a
        if op in '|^':      # disjoint bits, seen from the shape of the terms
            for x, y in ((a, b), (b, a)):
                by, bx = self.bounds(y, 0, st), self.bounds(x, 0, st)
                if by and bx and by[0] >= 0 and bx[0] >= 0 and by[1] < (1 << tzeros(x)): return sv(x + y)
        ca = self.const_of(st, a)
        if ca is not None and op == '&' and ca >= 0 and (ca & (ca + 1)) == 0: return imod(b, ca + 1)
        # small operand
        for x, y in ((a, b), (b, a)):
            for k in (1, 3, 8):
                if self.implied(st, z3.And(y >= 0, y < (1 << k), x >= 0)):
                    if op == '|':
                        lowx = imod(x, 1 << k)
                        if lowx.eq(y): return x
                        if self.implied(st, lowx == y, 3000): return x
                        if self.implied(st, lowx == 0, 3000): return sv(x + y)
                    s = []
                    for i in range(k):
                        xi, yi = (x / (1 << i)) % 2, (y / (1 << i)) % 2
                        if op == '|': s.append(z3.If(z3.Or(xi == 1, yi == 1), 1 << i, 0))
                        elif op == '&': s.append(z3.If(z3.And(xi == 1, yi == 1), 1 << i, 0))
                        else: s.append(z3.If(xi != yi, 1 << i, 0))
                    r = z3.Sum(*s)
                    if op == '&': return sv(r)
                    return sv((x / (1 << k)) * (1 << k) + r)
        # disjoint
        if op in '|^':
            for x, y in ((a, b), (b, a)):
                for k in (8, 16, 24, 32, 40, 48, 56, 61, 64):
                    if k < t.b and self.implied(st, z3.And(y >= 0, y < (1 << k), x >= 0, x % (1 << k) == 0)): return sv(x + y)
        return z3.Function({'|': 'bor', '&': 'band', '^': 'bxor'}[op], I, I, I)(a, b)
    def const_of(self, st, v):
        if isconst(v): return v.as_long()
        for f in st.facts + st.pc:
            if z3.is_eq(f):
                if f.arg(0).eq(v) and isconst(f.arg(1)): return f.arg(1).as_long()
                if f.arg(1).eq(v) and isconst(f.arg(0)): return f.arg(0).as_long()
        return None
    def arith(self, st, op, a, b, t, tb=None):
        """a op b in type t (after usual conversions)"""
        if z3.is_bv(a) or z3.is_bv(b): return self.bvarith(st, op, a, b, t)
        if op == '+': return self.wrap(st, a + b, t)
        if op == '-': return self.wrap(st, a - b, t)
        if op == '*':
            if self.imul and not isconst(a) and not isconst(b):
                m = IMUL(a, b); ba, bb = self.bounds(a, 0, st), self.bounds(b, 0, st)
                if ba and bb and ba[0] >= 0 and bb[0] >= 0: self.fact(st, z3.And(m >= 0, m <= ba[1] * bb[1]))
                return self.wrap(st, m, t)
            return self.wrap(st, a * b, t)
        if op in '/%':
            self.oblige(st, b != 0, 'division by zero')
            if t.sg and not (self.implied(st, z3.And(a >= 0, b > 0))):
                q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
                return self.wrap(st, q, t) if op == '/' else self.wrap(st, a - b * q, t)
            if not t.sg and not isconst(b): self.fact(st, b >= 0)
            if isconst(b) and b.as_long() > 0: return idiv(a, b.as_long()) if op == '/' else imod(a, b.as_long())
            return sv(a / b) if op == '/' else sv(a % b)
        if op in ('<<', '>>'):
            if not isconst(b):
                c = self.const_of(st, b)
                if c is not None: b = iv(c)
            self.oblige(st, z3.And(b >= 0, b < t.b), 'shift amount in range')
            if isconst(b):
                m = 1 << b.as_long()
            else:
                m = iv(1 << (t.b - 1))
                for k in range(t.b - 2, -1, -1): m = z3.If(b == k, iv(1 << k), m)
                if not self.implied(st, z3.And(b >= 0, b < t.b)): raise Unsup('unbounded shift')
            if op == '<<':
                if t.sg: self.oblige(st, a >= 0, 'shift of negative')
                return self.wrap(st, a * m, t, conv=not t.sg)
            return idiv(a, m) if isinstance(m, int) else sv(a / m)
        if op in '|&^': return self.bitsplit(st, op, a, b, t)
        raise Unsup('op ' + op)
    def bvarith(self, st, op, a, b, t):
        if op in ('<<', '>>'):
            w = a.size() if z3.is_bv(a) else t.b
            a = self.tobv(a, t)
            if not z3.is_bv(b): b = z3.BitVecVal(b.as_long(), w) if isconst(b) else z3.Int2BV(b, w)
            elif b.size() != w: b = z3.ZeroExt(w - b.size(), b) if b.size() < w else z3.Extract(w - 1, 0, b)
            self.oblige(st, z3.ULT(b, w), 'shift amount in range')
            return z3.simplify(a << b if op == '<<' else z3.LShR(a, b))
        a, b = self.tobv(a, t), self.tobv(b, t)
        f = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b,
             '/': lambda: z3.UDiv(a, b), '%': lambda: z3.URem(a, b)}[op]
        return z3.simplify(f())
    def compare(self, st, op, a, b, t=None):
        if z3.is_bv(a) or z3.is_bv(b):
            tt = t; a, b = self.tobv(a, tt), self.tobv(b, tt)
            r = {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}.get(op)
            if r: return z3.simplify(r(a, b))
        if op == '==': return cs(a == b)
        if op == '!=': return cs(a != b)
        return cs({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op])
    def tobool(self, st, v):
        if isinstance(v, LV): v = self.read(st, v)
        if isinstance(v, Null): return FALSE
        if isinstance(v, Ptr): return TRUE
        if isinstance(v, Opt): return v.has
        if z3.is_expr(v):
            if v.sort() == B: return v
            if v.sort() == I: return cs(v != 0)
            if z3.is_bv(v): return cs(v != 0)
        raise Unsup('tobool %r' % (v,))
    # ----- default values -----
    def default(self, st, t, zero=True):
        t = t.strip()
        if t.k in ('int', 'enum'): return iv(0) if zero else UNINIT
        if t.k == 'bool': return FALSE if zero else UNINIT
        if t.k == 'ptr': return Null() if zero else UNINIT
        if is_field(t): return z3.RealVal(0)
        if t.k == 'arr':
            if t.n <= 256: return Lst([self.default(st, t.t, zero) for _ in range(t.n)], t.t, 'carr')
            raise Unsup('big array')
        if t.k == 'simd': return UNINIT
        if t.k == 'rec':
            from std import std_default
            r = std_default(self, st, t)
            if r is not None: return r
            if t.r in self.P.records:
                ctor = self.find_default_ctor(t)
                if ctor is not None:
                    out = self.construct(st, t, ctor, [])
                    if len(out) == 1: return out[0][1]
                    raise Unsup('forking default ctor')
                fs = recfields(self.P, t)
                return Rec(t, {n: self.default(st, ft, zero) for n, ft in fs})
        raise Unsup('default of %s' % t.s)
    def find_default_ctor(self, t):
        for f in self.P.funcs.values():
            if f.get('ctor') and f['cls'].s == t.s and not f['ps'] : return f
        return None
    def symval(self, st, t, name):
        """unconstrained symbolic value of a type"""
        t = t.strip()
        if t.k in ('int', 'enum'):
            v = fresh(name, I)
            if t.k == 'int': lo, hi = ranged(t); st.facts.append(z3.And(v >= lo, v <= hi))
            elif t.en: st.facts.append(z3.Or(*[v == x for _, x in t.en]))
            return v
        if t.k == 'bool': return fresh(name, B)
        if t.k == 'raw': return fresh(name, t.sort)
        if t.k == 'simd': return fresh(name, vals.BV128)
        if is_field(t): return fresh(name, R)
        if is_prg(t): return fresh(name, PRGD)
        if t.k == 'arr':
            if self.bv == 'words' and t.t.k == 'int' and not t.t.sg and t.t.b == 64: return Vec(iv(t.n), fresh(name, z3.ArraySort(I, z3.BitVecSort(64))), t.t, 'carr')
            if self.bv and t.n <= 256 and t.t.k == 'int' and not t.t.sg: return Lst([fresh('%s_%d' % (name, i), z3.BitVecSort(t.t.b)) for i in range(t.n)], t.t, 'carr')
            if t.n <= 64: return Lst([self.symval(st, t.t, '%s_%d' % (name, i)) for i in range(t.n)], t.t, 'carr')
            return Vec(iv(t.n), fresh(name, z3.ArraySort(I, sort_of(t.t))), t.t, 'carr')
        if is_vecty(t):
            n = fresh(name + '_n', I); st.facts.append(z3.And(n >= 0, n < MAXSZ))
            if t.n == 'std::array': n = iv(t.ta[1])
            return Vec(n, fresh(name, z3.ArraySort(I, sort_of(elemty(t)))), elemty(t), veckind(t))
        if t.k == 'rec' and t.n == 'std::optional': return Opt(fresh(name + '_has', B), self.symval(st, t.ta[0], name + '_v'), t.ta[0])
        if t.k == 'rec' and t.n == 'std::map':
            from std import sym_map
            return sym_map(self, st, t, name)
        if t.k == 'rec' and t.n in ('std::unique_ptr', 'std::shared_ptr'):
            et = t.ta[0]
            if et.k == 'arr': raise Unsup('sym array ptr')
            return Ptr(self.new(st, self.symval(st, et, name), name))
        if t.k == 'ptr':
            if t.t.k == 'rec': return Ptr(self.new(st, self.symval(st, t.t, name), name))
            raise Unsup('sym pointer ' + t.s)
        if t.k == 'rec' and t.r in self.P.records:
            r = Rec(t, {n: self.symval(st, ft, name + '.' + n) for n, ft in recfields(self.P, t)})
            return GHOST[t.n](self, st, r) if t.n in GHOST else r
        if t.k == 'rec': return Opaque(t.n)
        if t.k == 'simd': return fresh(name, z3.BitVecSort(128))
        raise Unsup('symbolic %s' % t.s)
    # ----- expression evaluation -----
    def rv(self, e, st):
        return [(s, self.read(s, v) if isinstance(v, LV) else v) for s, v in self.ev(e, st)]
    def evs(self, es, st, f=None):
        f = f or self.ev
        acc = [(st, [])]
        for e in es:
            nacc = []
            for s, vs in acc:
                for s2, v in f(e, s): nacc.append((s2, vs + [v]))
            acc = nacc
        return acc
    def lvof(self, st, v, tag='tmp'):
        return v if isinstance(v, LV) else self.new(st, v, tag)
    def fork(self, st, c):
        """-> (st_true or None, st_false or None)"""
        c = cs(c)
        if z3.is_true(c): return st, None
        if z3.is_false(c): return None, st
        t = self.feasible(st, c); f = self.feasible(st, z3.Not(c))
        if t and f:
            s2 = st.copy(); st.pc.append(c); s2.pc.append(cs(z3.Not(c))); return st, s2
        if t: st.pc.append(c) if False else None; return st, None
        if f: return None, st
        return None, None
    def ev(self, e, st):
        if self.deadline and time.time() > self.deadline: raise Unsup('time budget exceeded')
        if 'l' in e: self.line = e['l']
        return getattr(self, 'e_' + e['e'], self.e_bad)(e, st)
    def e_bad(self, e, st): raise Unsup('expression %s %s' % (e['e'], e.get('why', '')))
    def e_int(self, e, st):
        v = int(e['v']); t = e['t']
        return [(st, iv(v))]
    def e_bool(self, e, st): return [(st, z3.BoolVal(e['v']))]
    def e_str(self, e, st):
        return [(st, self.new(st, Lst([iv(ord(c)) for c in e['v']] + [iv(0)], e['t'].t if e['t'].k == 'arr' else e['t'], 'cstr')))]
    def e_null(self, e, st): return [(st, Null())]
    def e_zero(self, e, st): return [(st, self.default(st, e['t']))]
    def e_float(self, e, st): return [(st, Opaque('float'))]
    def e_this(self, e, st):
        return [(st, Ptr(self.frames[-1].this))]
    def e_var(self, e, st):
        lv = st.env[-1].get(e['id'])
        if lv is None: raise Unsup('variable %s' % e['n'])
        return [(st, lv)]
    def e_gvar(self, e, st):
        k = e['k']
        if k in self.gcells and self.gcells[k] in st.cells: return [(st, LV(self.gcells[k]))]
        g = self.P.globals.get(k)
        nm = 'g:' + k
        if g is None or 'init' not in g:
            if g is not None and is_field(g['t']) and k.endswith('::kZero'): st.cells[nm] = z3.RealVal(0)
            elif g is not None and is_field(g['t']) and k.endswith('::kOne'): st.cells[nm] = z3.RealVal(1)
            else: st.cells[nm] = Opaque('global ' + k)
        elif is_field(g['t']) and k.endswith(('::kZero', '::kOne')): st.cells[nm] = z3.RealVal(1 if k.endswith('kOne') else 0)
        else:
            out = self.rv(g['init'], st)
            if len(out) != 1: raise Unsup('global init forks')
            st, v = out[0]; st.cells[nm] = v
        self.gcells[k] = nm
        return [(st, LV(nm))]
    def e_mat(self, e, st):
        return [(s, self.lvof(s, v)) for s, v in self.ev(e['a'], st)]
    def objlv(self, st, v):
        """LV designated by an object expression value (LV, pointer, prvalue)"""
        if isinstance(v, LV):
            x = self.read(st, v)
            return x.lv if isinstance(x, Ref) else v
        if isinstance(v, Ref): return v.lv
        return self.new(st, v)
    def punned(self, st, p):
        """little-endian read of an unsigned integer through a pointer to bytes; the resulting cell cannot be written"""
        if isinstance(p.view, tuple) and p.view[0] == 'cast':
            fe, te = p.view[1], p.view[2]; c = self.read(st, p.lv)
            if fe is not None and fe.k == te.k == 'int' and fe.b == 8 and not fe.sg and not te.sg and te.b in (16, 32, 64) and isinstance(c, Vec) and c.arr.sort().range() == I:
                m = te.b // 8; self.oblige(st, z3.And(p.idx >= 0, p.idx + m <= c.n), 'pointer in bounds')
                return self.new(st, sv(z3.Sum(*[sel(c.arr, sv(p.idx + i)) * 2 ** (8 * i) for i in range(m)])), 'punned')
        raise Unsup('deref of reinterpreted pointer')
    def ptrlv(self, st, p):
        if isinstance(p, LV): p = self.read(st, p)
        if isinstance(p, Null): self.oblige(st, FALSE, 'null dereference'); raise Unsup('null dereference')
        if not isinstance(p, Ptr): raise Unsup('deref of %r' % (p,))
        if p.idx is None: return p.lv
        if p.view: return self.punned(st, p)
        c = self.read(st, p.lv); n = iv(len(c.xs)) if isinstance(c, Lst) else c.n
        self.oblige(st, z3.And(p.idx >= 0, p.idx < n), 'pointer in bounds')
        return p.lv.i(sv(p.idx))
    def e_mem(self, e, st):
        out = []
        for s, b in self.ev(e['b'], st):
            lv = self.ptrlv(s, b) if e['arrow'] else self.objlv(s, b)
            x = lv.f(e['f'])
            v = self.read(s, x)
            if isinstance(v, Ref): x = v.lv
            if 'held' in s.cells and isinstance(v, Vec) and self.guarded(s, lv): self.oblige(s, s.cells['held'], '%s accessed with the mutex held' % e['f'])
            out.append((s, x))
        return out
    def guarded(self, st, lv):
        v = self.read(st, lv); return isinstance(v, Rec) and v.ty is not None and v.ty.n in GUARDED
    def e_idx(self, e, st):
        out = []
        for s, (b, i) in self.evs([e['b'], e['i']], st, self.rv):
            if isinstance(i, Ptr): b, i = i, b
            if isinstance(b, Ptr):
                p = Ptr(b.lv, sv((b.idx if b.idx is not None else iv(0)) + self.toint(i)), b.view); out.append((s, self.ptrlv(s, p)))
            else: raise Unsup('subscript of %r' % (b,))
        return out
    def toint(self, v):
        if z3.is_bv(v):
            v2 = z3.simplify(z3.BV2Int(v)); return v2
        return v
    def e_un(self, e, st):
        op = e['op']; t = e['t']; out = []
        if op == '*':
            for s, v in self.rv(e['a'], st): out.append((s, self.ptrlv(s, v)))
            return out
        if op == '&':
            for s, v in self.ev(e['a'], st):
                if not isinstance(v, LV): raise Unsup('address of rvalue')
                if v.p and v.p[-1][0] == 'i': out.append((s, Ptr(LV(v.c, v.p[:-1]), v.p[-1][1])))
                else: out.append((s, Ptr(v)))
            return out
        if op in ('++', '--'):
            for s, lv in self.ev(e['a'], st):
                old = self.read(s, lv)
                if old is UNINIT: self.oblige(s, FALSE, 'uninitialised read'); raise Unsup('uninit')
                if isinstance(old, Ptr): new = Ptr(old.lv, sv(old.idx + (1 if op == '++' else -1)), old.view, old.rev)
                elif z3.is_bv(old): new = z3.simplify(old + (1 if op == '++' else -1))
                else: new = self.wrap(s, old + (1 if op == '++' else -1), e['a']['t'].strip(), conv=e['a']['t'].strip().b < 32)
                self.write(s, lv, new)
                out.append((s, old if e['post'] else lv))
            return out
        for s, v in self.rv(e['a'], st):
            if op == '!': out.append((s, cs(z3.Not(self.tobool(s, v)))))
            elif op == '-': out.append((s, -v if z3.is_bv(v) else self.wrap(s, -v, t)))
            elif op == '+': out.append((s, v))
            elif op == '~':
                if z3.is_bv(v): out.append((s, z3.simplify(~v)))
                else: out.append((s, self.wrap(s, -v - 1, t) if t.sg else sv(((1 << t.b) - 1) - v)))
            else: raise Unsup('unary ' + op)
        return out
    def e_bin(self, e, st):
        op = e['op']; t = e['t']; out = []
        if op in ('&&', '||'):
            for s, a in self.rv(e['a'], st):
                a = cs(self.tobool(s, a))
                if z3.is_true(a) or z3.is_false(a):
                    if z3.is_true(a) == (op == '||'): out.append((s, a))
                    else: out += [(s2, self.tobool(s2, b)) for s2, b in self.rv(e['b'], s)]
                    continue
                # try without forking: evaluate b under assumption
                s2 = s.copy(); s2.pc.append(a if op == '&&' else cs(z3.Not(a)))
                no = len(self.obl); ns = len(self.sink)
                rb = self.rv(e['b'], s2)
                if len(rb) == 1 and len(self.sink) == ns and self.samecells(s, rb[0][0]):
                    b = self.tobool(rb[0][0], rb[0][1])
                    for f in rb[0][0].facts[len(s.facts):]: s.facts.append(z3.Implies(a if op == '&&' else z3.Not(a), f))
                    out.append((s, cs(z3.And(a, b) if op == '&&' else z3.Or(a, b)))); continue
                del self.obl[no:]; del self.sink[ns:]
                tst, fst = self.fork(s, a)
                if op == '&&':
                    if tst is not None: out += [(x, self.tobool(x, b)) for x, b in self.rv(e['b'], tst)]
                    if fst is not None: out.append((fst, FALSE))
                else:
                    if tst is not None: out.append((tst, TRUE))
                    if fst is not None: out += [(x, self.tobool(x, b)) for x, b in self.rv(e['b'], fst)]
            return out
        if op == ',':
            for s, _ in self.ev(e['a'], st): out += self.ev(e['b'], s)
            return out
        for s, (a, b) in self.evs([e['a'], e['b']], st, self.rv):
            out.append((s, self.binop(s, op, a, b, t, e['a']['t'])))
        return out
    def samecells(self, a, b):
        """no visible side effect (temporaries aside)"""
        for k, v in a.cells.items():
            if b.cells.get(k) is not v:
                if not self.same(v, b.cells.get(k)): return False
        return True
    def same(self, v, w):
        if v is w: return True
        if z3.is_expr(v) and z3.is_expr(w): return v.eq(w)
        if type(v) != type(w): return False
        if isinstance(v, Vec): return v.n.eq(w.n) and v.arr.eq(w.arr)
        if isinstance(v, Rec): return v.f.keys() == w.f.keys() and all(self.same(v.f[k], w.f[k]) for k in v.f)
        if isinstance(v, Lst): return len(v.xs) == len(w.xs) and all(self.same(x, y) for x, y in zip(v.xs, w.xs))
        if isinstance(v, LV): return v.c == w.c and self.samepath(v.p, w.p)
        if isinstance(v, Ptr): return self.same(v.lv, w.lv) and v.view == w.view and ((v.idx is None and w.idx is None) or (v.idx is not None and w.idx is not None and v.idx.eq(w.idx)))
        if isinstance(v, Ref): return self.same(v.lv, w.lv)
        if isinstance(v, Opt): return v.has.eq(w.has) and self.same(v.v, w.v)
        if isinstance(v, (Null, Opaque)): return True
        return False
    def samepath(self, p, q):
        if len(p) != len(q): return False
        for a, b in zip(p, q):
            if a[0] != b[0]: return False
            if a[0] == 'i':
                if eqc(a[1], b[1]) is not True: return False
            elif a != b: return False
        return True
    def binop(self, st, op, a, b, t, at):
        for x in (a, b):
            if x is UNINIT: self.oblige(st, FALSE, 'uninitialised read'); raise Unsup('uninit')
        if isinstance(a, (Ptr, Null)) or isinstance(b, (Ptr, Null)): return self.ptrop(st, op, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque('num') if op not in ('<', '>', '<=', '>=', '==', '!=') else fresh('opq', B)
        if op in ('<', '<=', '>', '>=', '==', '!='): return self.compare(st, op, a, b, at)
        if a.sort() == B:
            if op in '&|^' and b.sort() == B: return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a, b)
        return self.arith(st, op, a, b, t)
    def ptrop(self, st, op, a, b):
        if op in '+-' and isinstance(a, Ptr) and z3.is_expr(b):
            return Ptr(a.lv, sv((a.idx if a.idx is not None else iv(0)) + (b if op == '+' else -b)), a.view, a.rev)
        if op == '+' and isinstance(b, Ptr): return self.ptrop(st, op, b, a)
        if isinstance(a, Null) or isinstance(b, Null):
            r = isinstance(a, Null) and isinstance(b, Null)
            if op == '==': return z3.BoolVal(r)
            if op == '!=': return z3.BoolVal(not r)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.idx is not None and b.idx is not None:
            if not self.same(a.lv, b.lv): raise Unsup('comparison of unrelated pointers')
            if op == '-': return sv(a.idx - b.idx)
            return self.compare(st, op, a.idx, b.idx)
        raise Unsup('pointer op ' + op)
    def e_asg(self, e, st):
        op = e['op']; out = []
        for s, (b, lv) in self.evs2(e['b'], e['a'], st):
            if isinstance(b, LV): b = self.read(s, b)
            if not isinstance(lv, LV): raise Unsup('assignment to rvalue')
            if op == '': v = b
            else:
                cur = self.read(s, lv); ct = e['ct']
                if isinstance(cur, Ptr): v = self.ptrop(s, op, cur, b)
                else:
                    if cur is UNINIT or b is UNINIT: self.oblige(s, FALSE, 'uninitialised read'); raise Unsup('uninit')
                    lt = e['a']['t'].strip()
                    a1 = self.wrap(s, cur, e['clt'], conv=True) if e['clt'].k == 'int' else cur
                    if lt.k == 'bool': raise Unsup('bool compound')
                    v = self.arith(s, op, a1, b, ct); v = self.wrap(s, v, lt, conv=True)
            self.write(s, lv, v); out.append((s, lv))
        return out
    def evs2(self, eb, ea, st):
        r = []
        for s, b in self.ev(eb, st):
            if isinstance(b, LV): b = self.read(s, b)
            for s2, a in self.ev(ea, s): r.append((s2, (b, a)))
        return r
    def e_cond(self, e, st):
        out = []
        for s, c in self.rv(e['c'], st):
            c = cs(self.tobool(s, c))
            if z3.is_true(c): out += self.ev(e['a'], s); continue
            if z3.is_false(c): out += self.ev(e['b'], s); continue
            # merge pure scalar branches
            sa, sb = s.copy(), s.copy(); sa.pc.append(c); sb.pc.append(cs(z3.Not(c)))
            no, ns = len(self.obl), len(self.sink)
            fa = self.feasible(s, c); fb = self.feasible(s, z3.Not(c))
            if not fa: out += self.ev(e['b'], s); continue
            if not fb: out += self.ev(e['a'], s); continue
            ra, rb = self.ev(e['a'], sa), self.ev(e['b'], sb)
            if len(ra) == 1 and len(rb) == 1 and len(self.sink) == ns and self.samecells(s, ra[0][0]) and self.samecells(s, rb[0][0]):
                va, vb = ra[0][1], rb[0][1]
                if not isinstance(va, LV) and not isinstance(vb, LV) and z3.is_expr(va) and z3.is_expr(vb) and va.sort() == vb.sort():
                    for f in ra[0][0].facts[len(s.facts):]: s.facts.append(z3.Implies(c, f))
                    for f in rb[0][0].facts[len(s.facts) - 0:]: 
                        if not any(f.eq(g) for g in s.facts): s.facts.append(z3.Implies(z3.Not(c), f))
                    out.append((s, z3.If(c, va, vb))); continue
            out += ra + rb
        return out
    def e_cast(self, e, st):
        ck = e['ck']; t = e['t']
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr'): return self.ev(e['a'], st)
        if ck == 'LValueToRValue':
            out = []
            for s, v in self.ev(e['a'], st):
                x = self.read(s, v) if isinstance(v, LV) else v
                if isinstance(x, Ref): x = self.read(s, x.lv)
                if x is UNINIT and t.k in ('int', 'bool', 'enum', 'ptr'):
                    self.oblige(s, FALSE, 'uninitialised read'); x = self.symval(s, t, 'uninit')
                out.append((s, x))
            return out
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            out = []
            for s, v in self.rv(e['a'], st):
                if isinstance(v, Opaque): out.append((s, v)); continue
                if v.sort() == B: v = z3.If(v, iv(1), iv(0))
                out.append((s, self.wrap(s, v, t, conv=True) if t.k == 'int' else v))
            return out
        if ck in ('IntegralToBoolean', 'PointerToBoolean'): return [(s, cs(self.tobool(s, v))) for s, v in self.rv(e['a'], st)]
        if ck == 'ArrayToPointerDecay':
            return [(s, Ptr(self.lvof(s, v), iv(0))) for s, v in self.ev(e['a'], st)]
        if ck == 'NullToPointer': return [(st, Null())]
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'): return self.ev(e['a'], st)
        if ck == 'ToVoid': return [(s, None) for s, v in self.ev(e['a'], st)]
        if ck == 'BitCast':
            out = []
            for s, v in self.rv(e['a'], st): out.append((s, self.bitcast(s, v, e['a']['t'], t)))
            return out
        if ck in ('IntegralToFloating', 'FloatingCast', 'FloatingToIntegral'): return [(s, Opaque('float')) for s, v in self.rv(e['a'], st)]
        raise Unsup('cast ' + ck)
    def bitcast(self, st, v, ft, t):
        if isinstance(v, Null): return v
        if t.k == 'simd' and z3.is_bv(v): return v
        if t.k == 'ptr' and isinstance(v, Ptr):
            fe, te = ft.t if ft.k == 'ptr' else None, t.t
            if te.k == 'void' or (te.k == 'int' and te.b == 8) or te.k == 'simd' or (te.k == 'int'):
                return Ptr(v.lv, v.idx, ('cast', fe, te) if not (te.k == 'void' or (fe is not None and fe.k == 'void')) and not (fe.k == te.k == 'int' and fe.b == te.b) else v.view)
            if te.k == 'rec': return Ptr(v.lv, v.idx, v.view)
        raise Unsup('bitcast %s -> %s' % (ft.s, t.s))
    def e_il(self, e, st):
        t = e['t']; out = []
        if t.k == 'arr':
            for s, vs in self.evs(e['a'], st, self.rv):
                xs = list(vs)
                while len(xs) < t.n:
                    if 'filler' in e and e['filler']:
                        r = self.rv(e['filler'], s); s, v = r[0]; xs.append(v)
                    else: xs.append(self.default(s, t.t))
                out.append((s, Lst(xs, t.t, 'carr') if t.n <= 256 else None))
            return out
        if t.k == 'rec' and t.n == 'std::array':
            for s, vs in self.evs(e['a'], st, self.rv):
                v = vs[0] if vs else None
                if isinstance(v, Lst): v = Lst(v.xs, v.et, 'array')
                out.append((s, v if v is not None else self.default(s, t)))
            return out
        if t.k == 'rec' and t.r in self.P.records:
            fs = recfields(self.P, t)
            for s, vs in self.evs(e['a'], st, self.rv):
                out.append((s, Rec(t, {n: (vs[i] if i < len(vs) else self.default(s, ft)) for i, (n, ft) in enumerate(fs)})))
            return out
        if t.k in ('int', 'bool', 'ptr', 'enum'):
            return self.rv(e['a'][0], st) if e['a'] else [(st, self.default(st, t))]
        raise Unsup('init list of ' + t.s)
    def e_stdil(self, e, st):
        return self.ev(e['a'], st)
    def e_lambda(self, e, st):
        caps = {}; this = None; acc = [(st, {}, None)]
        for c in e['caps']:
            nacc = []
            for s, m, th in acc:
                if c.get('this'): nacc.append((s, m, self.frames[-1].this)); continue
                if c['byref']:
                    for s2, v in self.ev(c['init'], s): nacc.append((s2, {**m, c['id']: self.lvof(s2, v)}, th))
                else:
                    for s2, v in self.rv(c['init'], s): nacc.append((s2, {**m, c['id']: self.new(s2, v, 'cap')}, th))
            acc = nacc
        return [(s, Clo(e['op'], m, th, e['r'])) for s, m, th in acc]
    def e_fnref(self, e, st): return [(st, Clo(e['fn'], {}, None, None))]
    def e_throw(self, e, st):
        if e['a'] is None: raise Unsup('rethrow')
        t = e['a']['t']
        outs = self.rv(e['a'], st) if False else [(st, None)]
        for s, _ in outs: self.sink.append(('throw', s, t.n if t.k == 'rec' else t.s, self.line))
        return []
    def e_new(self, e, st):
        if e.get('n') is not None: raise Unsup('array new')
        out = []
        for s, v in (self.rv(e['init'], st) if e.get('init') else [(st, self.default(st, e['at']))]): out.append((s, Ptr(self.new(s, v, 'heap'))))
        return out
    def e_arrcopy(self, e, st): return self.rv(e['a'], st)
    def e_unsup(self, e, st): raise Unsup('node ' + e.get('why', ''))
    # ----- constructors -----
    def e_ctor(self, e, st):
        t = e['t']; out = []
        if e.get('copy') or e.get('move'):
            fn = self.P.funcs.get(e['fn'])
            if fn is None or fn.get('dflt') or is_field(t) or is_prg(t):
                for s, v in self.ev(e['args'][0], st):
                    src = v
                    if isinstance(v, LV): v = self.read(s, v)
                    if isinstance(v, Ref): v = self.read(s, v.lv)
                    if e.get('move') and t.n == 'std::unique_ptr' and isinstance(src, LV): self.write(s, src, Null())
                    out.append((s, v))
                return out
        from std import std_ctor
        for s, args in self.evs(e['args'], st):
            out += self.ctor_call(s, e, t, args)
        return out
    def ctor_call(self, s, e, t, args):
        from std import std_ctor
        fn = self.P.funcs.get(e['fn'])
        ctr = self.C.lookup_ctor(t, e, fn) if self.C else None
        if ctr is not None and not (self.contractless and ctr is self.contractless):
            this = self.new(s, UNINIT, 'obj')
            return [(s2, self.read(s2, this)) for s2, _ in self.apply_contract(ctr, s, fn or e, this, args, t)]
        r = std_ctor(self, s, t, e, args)
        if r is not None: return r
        if is_field(t):
            raise Unsup('field constructor without contract: %s' % e['fn'])
        if fn is not None: return self.construct(s, t, fn, args)
        if t.r in self.P.records and not args:
            fs = recfields(self.P, t)
            if e.get('zi'): return [(s, Rec(t, {n: self.default(s, ft) for n, ft in fs}))]
            rec = self.P.records[t.r]; m = {}
            allf = {f['n']: f for f in rec['fields']}
            for n, ft in fs:
                if n in allf and allf[n].get('init') is not None:
                    self.frames.append(Frame(None, None)); r = self.rv(allf[n]['init'], s); self.frames.pop(); s, m[n] = r[0]
                else: m[n] = self.default(s, ft, zero=False)
            return [(s, Rec(t, m))]
        raise Unsup('constructor %s of %s' % (e['fn'], t.s))
    def construct(self, st, t, fn, args, thislv=None):
        """run a user constructor; returns [(st, value)]"""
        self.inlined.add(fn['qn'])
        fs = recfields(self.P, t)
        this = thislv or self.new(st, Rec(t, {n: UNINIT for n, _ in fs}), 'obj')
        if thislv is None:
            for n, ft in fs:
                if ft.k == 'arr' and ft.n <= 256: st.cells[this.c].f[n] = Lst([UNINIT] * ft.n, ft.t, 'carr')
        self.enter(st, fn, args)
        self.frames.append(Frame(this, fn)); self.depth += 1
        if self.depth > 60: raise Unsup('inline depth')
        fts = dict(fs)
        try:
            states = [st]
            for ini in fn.get('inits') or []:
                ns = []
                for s in states:
                    if 'f' in ini:
                        ft = fts[ini['f']]
                        if ft.k == 'ref':
                            for s2, v in self.ev(ini['a'], s):
                                self.write(s2, this.f(ini['f']), Ref(self.lvof(s2, v))); ns.append(s2)
                        else:
                            for s2, v in self.rv(ini['a'], s): self.write(s2, this.f(ini['f']), v); ns.append(s2)
                    elif 'base' in ini:
                        a = ini['a']
                        if ini['base'].k == 'rec' and 'RingElement' not in ini['base'].n and ini['base'].n.startswith('frn') and a['e'] == 'ctor':
                            bfn = self.P.funcs.get(a['fn'])
                            if bfn is None: ns.append(s); continue
                            for s2, bargs in self.evs(a['args'], s): ns += [s3 for s3, _ in self.construct(s2, ini['base'], bfn, bargs, this)]
                        else: ns.append(s)
                    else: raise Unsup('delegating ctor')
                states = ns
            out = []
            for s in states:
                for k, s2, v in (self.block(fn['body'], s) if fn.get('body') else [('n', s, None)]):
                    s2.env = s2.env[:-2] + [dict(s2.env[-2])]; out.append((s2, self.read(s2, this)))
        finally:
            self.frames.pop(); self.depth -= 1
        return out
    # ----- calls -----
    def enter(self, st, fn, args):
        env = {}
        for p, a in zip(fn['ps'], args):
            if p['t'].k == 'ref': env[p['id']] = self.lvof(st, a)
            else:
                v = self.read(st, a) if isinstance(a, LV) else a
                if isinstance(v, Ref): v = self.read(st, v.lv)
                env[p['id']] = self.new(st, v, p['n'] or 'p')
        st.env = st.env + [env]
    def e_call(self, e, st):
        out = []
        if 'obj' in e:
            for s, o in self.ev(e['obj'], st):
                if e.get('arrow'):
                    olv = self.ptrlv(s, o)
                else: olv = self.objlv(s, o)
                for s2, args in self.evs(e['args'], s): out += self.call(s2, e, olv, args)
        else:
            for s, args in self.evs(e['args'], st): out += self.call(s, e, None, args)
        return out
    def call(self, st, e, obj, args):
        from std import std_call
        key = e['fn']; self.line = e.get('l', self.line)
        ov = obj
        if obj is not None:
            o = self.read(st, obj)
            if isinstance(o, Ref): obj = o.lv; o = self.read(st, obj)
            if isinstance(o, Clo) and e['qn'].endswith('operator()'): return self.call_clo(st, o, args)
            if e.get('virt') and isinstance(o, Rec) and o.ty is not None and not e.get('qual'):
                key = self.dispatch(o.ty, key)
        fn = self.P.funcs.get(key)
        ctr = self.C.lookup(fn, e, key) if self.C else None
        if ctr is not None and not (ctr is self.contractless): return self.apply_contract(ctr, st, fn or e, obj, args, None)
        if fn is None or not fn['qn'].startswith('frn'):
            r = std_call(self, st, e, obj, args)
            if r is not None: return r
        if fn is None: raise Unsup('call to %s' % e['qn'])
        return self.inline(st, fn, obj, args)
    def dispatch(self, ty, key):
        base = self.P.funcs.get(key)
        # find overriding function in ty (by overridden chain)
        for f in self.P.funcs.values():
            if f.get('over') and f.get('cls') is not None and f['cls'].s == ty.s and self.overrides(f, key): return f['k']
        # walk up bases
        r = self.P.records.get(ty.r)
        if r:
            for b in r['bases']:
                if b.k == 'rec' and b.n.startswith('frn'):
                    k = self.dispatch(b, key)
                    if k != key: return k
        return key
    def overrides(self, f, key):
        for o in f.get('over') or []:
            if o == key: return True
            g = self.P.funcs.get(o)
            if g and self.overrides(g, key): return True
        return False
    def call_clo(self, st, clo, args):
        fn = self.P.funcs.get(clo.op)
        if fn is None: raise Unsup('closure body ' + str(clo.op))
        return self.inline(st, fn, clo.this, args, clo)
    def inline(self, st, fn, obj, args, clo=None):
        if fn.get('body') is None:
            if fn.get('dflt') and fn['qn'].endswith('operator='):
                v = self.read(st, args[0]) if isinstance(args[0], LV) else args[0]; self.write(st, obj, v); return [(st, obj)]
            raise Unsup('no body: ' + fn['qn'])
        if fn.get('dflt') and fn['qn'].endswith('operator='):
            v = self.read(st, args[0]) if isinstance(args[0], LV) else args[0]; self.write(st, obj, v); return [(st, obj)]
        self.depth += 1
        if self.depth > 40: self.depth -= 1; raise Unsup('inline depth')
        self.inlined.add(fn['qn'])
        self.enter(st, fn, args)
        if clo: st.env[-1].update(clo.caps)
        self.frames.append(Frame(obj, fn, clo))
        ln = self.line
        try: outs = self.block(fn['body'], st)
        finally: self.frames.pop(); self.depth -= 1
        self.line = ln
        res = []
        for k, s, v in outs:
            s.env = s.env[:-2] + [dict(s.env[-2])]
            if k == 'n' and fn['ret'].k != 'void' and not fn.get('ctor'):
                self.oblige(s, FALSE, 'control reaches end of non-void function'); continue
            res.append((s, v))
        return res
    def e_icall(self, e, st):
        out = []
        for s, c in self.rv(e['callee'], st):
            for s2, args in self.evs(e['args'], s):
                if isinstance(c, Clo): out += self.call_clo(s2, c, args)
                else: raise Unsup('indirect call')
        return out
    # ----- contracts -----
    def apply_contract(self, ctr, st, fn, obj, args, ty):
        from contract import Spec
        self.used.add(ctr.name)
        lvs = []; vals_ = []
        pts = [p['t'] if isinstance(p, dict) else p for p in (fn.get('ps') or [])]
        for p, a in zip(pts, args):
            if p.k == 'ref': lvs.append(self.lvof(st, a))
            else:
                v = self.read(st, a) if isinstance(a, LV) else a
                lvs.append(self.new(st, v))
        sp = Spec(self, st, obj, lvs, fn, 'call'); sp.ty = ty
        ctr.fn(sp)
        for g, nm in sp.reqs: self.oblige(st, g, 'precondition of %s: %s' % (ctr.short, nm), 'requires')
        for f in sp.assumes: self.fact(st, f)
        for exc, g in sp.thr:
            g = cs(g)
            if z3.is_false(g): continue
            if self.feasible(st, g):
                s2 = st.copy(); 
                if not z3.is_true(g): s2.pc.append(g)
                for lv, v in sp.throwset: self.write(s2, lv, v)
                self.sink.append(('throw', s2, exc, self.line))
            if z3.is_true(g): return []
            st.pc.append(cs(z3.Not(g)))
        for exc, g in sp.mayt:
            s2 = st.copy()
            if not z3.is_true(g): s2.pc.append(g)
            for lv, v in sp.throwset: self.write(s2, lv, v)
            self.sink.append(('throw', s2, exc, self.line))
        for lv, v in sp.sets: self.write(st, lv, v)
        if sp.log: st.log += sp.log
        r = sp.ret
        if sp.enss:
            rt = (fn.get('ret') or e_type(fn)) if not sp.hasret else None
            if rt is not None and rt.k not in ('void', 'ref'): r = self.symval(st, rt, 'ret')
            for efn, nm in sp.enss:
                gs = efn(r, lambda lv: self.read(st, lv))
                for g in (gs if isinstance(gs, list) else [gs]): self.fact(st, cs(g))
        return [(st, r)]
    # ----- statements -----
    def block(self, s, st):
        return self.ex(s, st)
    def ex(self, s, st):
        if s is None: return [('n', st, None)]
        if 'l' in s: self.line = s['l']
        return getattr(self, 's_' + s['s'], self.s_bad)(s, st)
    def s_bad(self, s, st): raise Unsup('statement %s %s' % (s['s'], s.get('why', '')))
    def s_nop(self, s, st): return [('n', st, None)]
    def s_blk(self, s, st):
        cur = [('n', st, None)]; done = []
        for x in s['b']:
            nxt = []
            for k, q, v in cur:
                for r in self.ex(x, q): (nxt if r[0] == 'n' else done).append(r)
            cur = nxt
            if not cur: break
        return cur + done
    def s_expr(self, s, st):
        return [('n', q, None) for q, v in self.ev(s['a'], st)]
    def s_decl(self, s, st):
        cur = [st]
        for v in s['v']:
            nxt = []
            for q in cur: nxt += self.decl(v, q)
            cur = nxt
        return [('n', q, None) for q in cur]
    def decl(self, v, st):
        t = v['t']
        if v.get('static'):
            r = self.e_gvar({'k': v['k'], 't': t}, st); s, lv = r[0]; s.env[-1][v['id']] = lv; return [s]
        if 'init' not in v or v['init'] is None:
            st.env[-1][v['id']] = self.new(st, self.default(st, t, zero=False), v['n'] or 'v'); return [st]
        out = []
        for s, x in self.ev(v['init'], st):
            if t.k == 'ref': s.env[-1][v['id']] = self.lvof(s, x)
            else:
                if isinstance(x, LV): x = self.read(s, x)
                if isinstance(x, Ref): x = self.read(s, x.lv)
                if t.k == 'arr' and isinstance(x, Lst) and x.kind == 'cstr': x = Lst(x.xs, x.et, 'carr')
                s.env[-1][v['id']] = self.new(s, x, v['n'] or 'v')
            out.append(s)
        return out
    def s_ret(self, s, st):
        if s['a'] is None: return [('r', st, None)]
        fn = self.frames[-1].fn; out = []
        for q, v in self.ev(s['a'], st):
            if fn is not None and fn['ret'].k == 'ref': v = self.lvof(q, v)
            elif isinstance(v, LV): v = self.read(q, v)
            if isinstance(v, Ref) and fn['ret'].k != 'ref': v = self.read(q, v.lv)
            out.append(('r', q, v))
        return out
    def s_break(self, s, st): return [('b', st, None)]
    def s_cont(self, s, st): return [('c', st, None)]
    def s_if(self, s, st):
        out = []
        states = [st]
        if s.get('init'): states = [q for k, q, v in self.ex(s['init'], st)]
        if s.get('cv'): states = [q for x in states for q in self.decl(s['cv'], x)]
        for q0 in states:
            for q, c in self.rv(s['c'], q0):
                t, f = self.fork(q, self.tobool(q, c))
                if t is not None: out += self.ex(s['a'], t)
                if f is not None: out += self.ex(s['b'], f) if s['b'] else [('n', f, None)]
        return out
    def s_switch(self, s, st):
        if s.get('init'): raise Unsup('switch init')
        body = s['b']['b']; flat = []
        def add_(x):
            if x['s'] == 'case': flat.append(('case', x['v'])); add_(x['b'])
            elif x['s'] == 'default': flat.append(('default', None)); add_(x['b'])
            elif x: flat.append(('st', x))
        for x in body: add_(x)
        out = []
        for q, c in self.rv(s['c'], st):
            rest = q; seen = []
            def run(i, s0):
                cur = [('n', s0, None)]; done = []
                for kind, x in flat[i:]:
                    if kind != 'st': continue
                    nx = []
                    for k, s1, v in cur:
                        for r in self.ex(x, s1):
                            if r[0] == 'n': nx.append(r)
                            elif r[0] == 'b': done.append(('n', r[1], None))
                            else: done.append(r)
                    cur = nx
                return cur + done
            dflt = None
            for i, (kind, x) in enumerate(flat):
                if kind == 'default': dflt = i
                if kind == 'case' and rest is not None:
                    cv = self.rv(x, rest)[0][1]
                    t, rest = self.fork(rest, self.compare(rest, '==', c, cv))
                    if t is not None: out += run(i + 1, t)
            if rest is not None: out += run(dflt + 1, rest) if dflt is not None else [('n', rest, None)]
        return out
    def s_do(self, s, st):
        out = []
        first = self.ex(s['b'], st); cont = []
        for k, q, v in first:
            if k in ('n', 'c'): cont.append(q)
            elif k == 'b': out.append(('n', q, None))
            else: out.append((k, q, v))
        for q in cont: out += self.loop({'c': s['c'], 'n': None, 'b': s['b'], 'l': s.get('l'), 'v': None}, q)
        return out
    def s_while(self, s, st): return self.loop({'c': s['c'], 'n': None, 'b': s['b'], 'l': s.get('l'), 'v': None}, st)
    def s_for(self, s, st):
        out = []
        for k, q, v in (self.ex(s['i'], st) if s.get('i') else [('n', st, None)]):
            out += self.loop({'c': s['c'], 'n': s['n'], 'b': s['b'], 'l': s.get('l'), 'v': None}, q)
        return out
    def s_rfor(self, s, st):
        cur = [st]
        for p in s['pre']: cur = [q for x in cur for k, q, v in self.ex(p, x)]
        out = []
        for q in cur: out += self.loop({'c': s['c'], 'n': s['n'], 'b': s['b'], 'l': s.get('l'), 'v': s['v']}, q)
        return out
    def loop(self, L, st):
        from loops import do_loop
        return do_loop(self, L, st)
    def one_iter(self, L, st):
        """-> (ends: states after a full iteration, exits: [(kind, st, val)])"""
        ends = []; exits = []
        conds = self.rv(L['c'], st) if L['c'] is not None else [(st, TRUE)]
        for q, c in conds:
            t, f = self.fork(q, self.tobool(q, c))
            if f is not None: exits.append(('n', f, None))
            if t is not None:
                bodies = self.ex(L['v'], t) if L['v'] else [('n', t, None)]
                for k0, b0, _ in bodies:
                    for k, b, v in self.ex(L['b'], b0):
                        if k in ('n', 'c'):
                            if L['n'] is not None:
                                for b2, _ in self.ev(L['n'], b): ends.append(b2)
                            else: ends.append(b)
                        elif k == 'b': exits.append(('n!', b, None))
                        else: exits.append((k, b, v))
        return ends, exits
