"""Models of the standard-library operations the code base uses (trusted)."""
import z3
from vals import *
import vals
from core import sv, add, isconst, And, MAXSZ
import solve

def vecn(v): return iv(len(v.xs)) if isinstance(v, Lst) else v.n
def tovec(v):
    if isinstance(v, Vec): return v
    a = z3.K(I, zero_term(v.et))
    for i, x in enumerate(v.xs): a = z3.Store(a, i, pack(x, v.et))
    return Vec(iv(len(v.xs)), a, v.et, v.kind)
def cstr(v):
    """string literal (Lst with trailing 0) -> string Vec"""
    x = Lst(v.xs[:-1], v.et, 'string'); return tovec(x)

def std_default(X, st, t):
    n = t.n
    if n in ('std::vector', 'std::basic_string', 'std::deque'): return Vec(iv(0), z3.Const('empty.%s' % sort_of(elemty(t)), z3.ArraySort(I, sort_of(elemty(t)))), elemty(t), veckind(t))
    if n == 'std::array': return Lst([X.default(st, t.ta[0]) for _ in range(t.ta[1])], t.ta[0], 'array')
    if n == 'std::optional': return Opt(FALSE, X.symval(st, t.ta[0], 'noval') if t.ta[0].k in ('int', 'enum', 'bool') or is_vecty(t.ta[0]) else Null(), t.ta[0])
    if n in ('std::unique_ptr', 'std::shared_ptr'): return Null()
    if n == 'std::map': return empty_map(X, st, t)
    if n.startswith('std::') or n.startswith('__'): return Opaque(n)
    if is_prg(t): return PRGD.mkprg(PRGKEY(*[iv(0)] * 16), iv(0))
    return None

# ---- maps keyed by sequences: (dom: list of (key, value) pairs as Vec of pairs insertion history) ----
class MapV:
    """keys: Vec of keys inserted (in order), vals: Vec of values; lookup is by first equal key"""
    __slots__ = ('keys', 'vals', 'ty')
    def __init__(s, keys, vals, ty): s.keys = keys; s.vals = vals; s.ty = ty
def empty_map(X, st, t):
    kt, vt = t.ta[0], t.ta[1]
    return Rec(t, {'$keys': Vec(iv(0), fresh('mk', z3.ArraySort(I, sort_of(kt))), kt), '$vals': Vec(iv(0), fresh('mv', z3.ArraySort(I, sort_of(vt))), vt)})
def sym_map(X, st, t, name):
    kt, vt = t.ta[0], t.ta[1]
    n = fresh(name + '_n', I); X.fact(st, z3.And(n >= 0, n < MAXSZ))
    return Rec(t, {'$keys': Vec(n, fresh(name + '_k', z3.ArraySort(I, sort_of(kt))), kt), '$vals': Vec(n, fresh(name + '_v', z3.ArraySort(I, sort_of(vt))), vt)})

def ptr_range(X, st, a, b):
    """[a,b) of pointers/iterators into one container -> (container value, start, len)"""
    if not X.same(a.lv, b.lv): raise Unsup('range over different containers')
    c = tovec(X.read(st, a.lv)); ai = a.idx; n = sv(b.idx - ai)
    X.oblige(st, z3.And(n >= 0, ai >= 0, b.idx <= c.n), 'valid iterator range')
    return c, ai, n
def slice_vec(c, a, n, et=None, kind='vector'):
    if isconst(a) and a.as_long() == 0: return Vec(n, c.arr, et or c.et, kind)
    return Vec(n, lam(lambda j: sel(c.arr, a + j)), et or c.et, kind)

def std_ctor(X, st, t, e, args):
    n = t.n
    if n in ('std::vector', 'std::basic_string'):
        av = [X.read(st, a) if isinstance(a, LV) else a for a in args]
        av = [a for a in av if not (isinstance(a, Opaque) and a.tag.startswith('std::allocator'))]
        kind = veckind(t); et = elemty(t)
        if not av: return [(st, std_default(X, st, t))]
        if n == 'std::basic_string' and isinstance(av[0], Ptr):
            c = X.read(st, av[0].lv)
            if isinstance(c, Lst) and c.kind == 'cstr': return [(st, cstr(c))]
        if isinstance(av[0], Lst) and (e.get('il') or av[0].kind in ('carr',)):
            return [(st, Vec(iv(len(av[0].xs)), tovec(av[0]).arr, et, kind))]
        if isinstance(av[0], Vec) and len(av) == 1: return [(st, av[0])]
        if len(av) == 2 and isinstance(av[0], Ptr) and isinstance(av[1], Ptr):
            a, b = av
            if a.rev:
                c = tovec(X.read(st, a.lv)); ln = sv(a.idx - b.idx); top = a.idx
                return [(st, Vec(ln, lam(lambda j: sel(c.arr, top - 1 - j)), et, kind))]
            c, s0, ln = ptr_range(X, st, a, b); return [(st, slice_vec(c, s0, ln, et, kind))]
        if z3.is_expr(av[0]) and av[0].sort() == I:
            if len(av) == 1: 
                d = X.default(st, et)
            else: d = av[1]
            X.oblige(st, av[0] < MAXSZ, 'allocation size below 2^56', 'env')
            return [(st, Vec(av[0], z3.K(I, pack(d, et)), et, kind))]
        raise Unsup('vector ctor')
    if n == 'std::array': return [(st, std_default(X, st, t))]
    if n == 'std::map': return [(st, empty_map(X, st, t))]
    if n == '__gnu_cxx::__normal_iterator': return [(st, X.read(st, args[0]) if isinstance(args[0], LV) else args[0])]
    if n == 'std::reverse_iterator': return [(st, X.read(st, args[0]) if isinstance(args[0], LV) else args[0])]
    if n == 'std::pair':
        av = [X.read(st, a) if isinstance(a, LV) else a for a in args]
        return [(st, Rec(t, {'first': av[0], 'second': av[1]}))]
    if n == 'std::function':
        return [(st, X.read(st, args[0]) if isinstance(args[0], LV) else args[0])]
    if n == 'std::optional':
        if not args: return [(st, std_default(X, st, t))]
        v = X.read(st, args[0]) if isinstance(args[0], LV) else args[0]
        return [(st, v if isinstance(v, Opt) else Opt(TRUE, v, t.ta[0]))]
    if n in ('std::unique_ptr', 'std::shared_ptr'):
        av = [X.read(st, a) if isinstance(a, LV) else a for a in args]
        if not av: return [(st, Null())]
        if isinstance(av[0], (Ptr, Null)):
            if n == 'std::unique_ptr' and args and isinstance(args[0], LV) : X.write(st, args[0], Null())
            return [(st, av[0])]
        if z3.is_expr(av[0]): return [(st, Null())]    # 0 literal
    if n in ('std::logic_error', 'std::invalid_argument', 'std::runtime_error', 'std::system_error'): return [(st, Opaque(n))]
    if n in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock') and 'held' in st.cells and len(args) == 1:
        X.oblige(st, z3.Not(st.cells['held']), 'mutex not already held'); st.cells['held'] = TRUE; return [(st, Opaque(n))]
    if n and (n.startswith('std::') or n.startswith('__')): return [(st, Opaque(n))]
    if n == 'sockaddr_in': return [(st, Opaque(n))]
    return None

STREAMS = ('std::basic_ostream', 'std::basic_stringstream', 'std::basic_ios')
def rd(X, st, a): 
    v = X.read(st, a) if isinstance(a, LV) else a
    return X.read(st, v.lv) if isinstance(v, Ref) else v

def memcpy(X, st, d, s, n):
    X_ = X
    if isconst(n) and n.as_long() == 0: return
    if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Unsup('memcpy of %r %r' % (d, s))
    def bytes_of(p):
        """-> (count limit in bytes, fn(byteoffset)->byte)"""
        if p.idx is None:
            v = X.read(st, p.lv)
            if z3.is_expr(v) and v.sort() == I:
                return None, (lambda k: sv((v / (1 << (8 * k))) % 256) if isinstance(k, int) else None), v
            raise Unsup('memcpy source object')
        c = tovec(X.read(st, p.lv)); 
        return c, None, None
    sc = dc = None
    # scalar object source/destination
    if s.idx is None:
        v = X.read(st, s.lv)
        if z3.is_expr(v) and v.sort() == I and isconst(n):
            b = [sv((v / (1 << (8 * k))) % 256) for k in range(n.as_long())]
            return put_bytes(X, st, d, n, lambda k: pick(b, k))
        raise Unsup('memcpy from object')
    if d.idx is None:
        v = X.read(st, d.lv)
        src = tovec(X.read(st, s.lv))
        if not isconst(n): raise Unsup('memcpy to scalar of symbolic size')
        k = n.as_long()
        X.oblige(st, z3.And(s.idx >= 0, s.idx + k <= src.n), 'memcpy source in bounds')
        bs = [sel(src.arr, sv(s.idx + i)) for i in range(k)]
        for b in bs: X.fact(st, z3.And(b >= 0, b <= 255))
        X.write(st, d.lv, sv(z3.Sum(*[b * (1 << (8 * i)) for i, b in enumerate(bs)]) if k > 1 else bs[0])); return
    src = X.read(st, s.lv); src = tovec(src)
    if src.et.k == 'int' and src.et.b == 8:
        X.oblige(st, z3.And(s.idx >= 0, s.idx + n <= src.n), 'memcpy source in bounds')
        return put_bytes(X, st, d, n, lambda k: sel(src.arr, sv(s.idx + k)))
    if is_field(src.et):
        X.oblige(st, z3.And(s.idx >= 0, s.idx * 8 + n <= src.n * 8), 'memcpy source in bounds')
        return put_bytes(X, st, d, n, lambda k: ENC(sel(src.arr, sv(s.idx + k / 8)), k % 8))
    raise Unsup('memcpy element type %s' % src.et.s)
def pick(b, k):
    if isinstance(k, int): return b[k]
    if isconst(k): return b[k.as_long()]
    r = b[-1]
    for i in range(len(b) - 2, -1, -1): r = z3.If(k == i, b[i], r)
    return r
def put_bytes(X, st, d, n, fn):
    c = X.read(st, d.lv)
    if isinstance(c, Lst):
        if isconst(n) and isconst(d.idx):
            xs = list(c.xs); o = d.idx.as_long(); k = n.as_long()
            if o < 0 or o + k > len(xs): X.oblige(st, FALSE, 'memcpy destination in bounds'); raise Unsup('memcpy oob')
            for i in range(k): xs[o + i] = fn(i) if True else None
            X.write(st, d.lv, Lst(xs, c.et, c.kind)); return
        c = tovec(Lst([iv(0) if x is UNINIT else x for x in c.xs], c.et, c.kind))
    if not (c.et.k == 'int' and c.et.b == 8): raise Unsup('memcpy destination type')
    X.oblige(st, z3.And(d.idx >= 0, d.idx + n <= c.n), 'memcpy destination in bounds')
    di = d.idx
    if isconst(n) and n.as_long() <= 16:
        a = c.arr
        for i in range(n.as_long()): a = store(a, sv(di + i), fn(i))
    else: a = lam(lambda j: z3.If(z3.And(di <= j, j < di + n), fn(sv(j - di)), sel(c.arr, j)))
    X.write(st, d.lv, Vec(c.n, a, c.et, c.kind))

AESF = {}
def std_call(X, st, e, obj, args):
    q = e['qn']; m = q.split('::')[-1]
    if q.startswith('std::chrono') or q in ('std::this_thread::sleep_for', 'std::operator""ms', 'std::put_time', 'localtime', 'std::setfill', 'std::setw', 'std::generic_category'):
        return [(st, Opaque(q))]
    if q in ('std::move', 'std::forward'): return [(st, args[0])]
    if q == 'std::min': 
        a, b = rd(X, st, args[0]), rd(X, st, args[1]); return [(st, z3.If(b < a, b, a))]
    if q == 'std::max':
        a, b = rd(X, st, args[0]), rd(X, st, args[1]); return [(st, z3.If(a < b, b, a))]
    if q in ('memcpy', '__builtin_memcpy', 'std::memcpy'):
        d, s, n = [rd(X, st, a) for a in args]; memcpy(X, st, d, s, n); return [(st, d)]
    if q.startswith('_mm_') or q.startswith('__builtin_ia32_'): return simd_call(X, st, q, [rd(X, st, a) for a in args])
    if q == 'malloc':
        n = rd(X, st, args[0])
        c = X.new(st, Vec(n, fresh('heap', z3.ArraySort(I, I)), X.P.types['unsigned char'], 'raw'), 'heap')
        return [(st, Ptr(c, iv(0)))]
    if q == 'free': return [(st, None)]
    if q in ('std::make_shared', 'std::make_unique'): 
        t = e['t'].ta[0]
        if t.k == 'arr':
            n = rd(X, st, args[0]); c = X.new(st, Vec(n, z3.K(I, zero_term(t.t)), t.t, 'raw'), 'heap'); return [(st, Ptr(c, iv(0)))]
        return make_obj(X, st, t, args)
    if q == 'std::make_optional': return [(st, Opt(TRUE, rd(X, st, args[0]), e['t'].ta[0]))]
    if q in ('std::operator<<', 'std::basic_ostream::operator<<'): return [(st, args[0] if obj is None else obj)]
    if q == 'std::find':
        return std_find(X, st, *[rd(X, st, a) for a in args])
    if q == 'std::accumulate':
        a, b, init = [rd(X, st, x) for x in args[:3]]
        c, s0, n = ptr_range(X, st, a, b)
        if is_field(c.et) and len(args) == 3: return [(st, init + solve.fsum(lambda j: sel(c.arr, sv(s0 + j)), n))]
        return None
    if q in ('std::copy', 'std::copy_n'):
        if q == 'std::copy': a, b, d = [rd(X, st, x) for x in args]; c, s0, n = ptr_range(X, st, a, b)
        else:
            a, n, d = [rd(X, st, x) for x in args]; c = tovec(X.read(st, a.lv)); s0 = a.idx
        dc = tovec(X.read(st, d.lv)); X.oblige(st, z3.And(d.idx >= 0, d.idx + n <= dc.n), 'copy destination in bounds')
        di = d.idx; X.write(st, d.lv, Vec(dc.n, lam(lambda j: z3.If(z3.And(di <= j, j < di + n), sel(c.arr, sv(s0 + j - di)), sel(dc.arr, j))), dc.et, dc.kind))
        return [(st, Ptr(d.lv, sv(di + n)))]
    if q == 'std::fill':
        a, b, v = [rd(X, st, x) for x in args]; c, s0, n = ptr_range(X, st, a, b); pv = pack(v, c.et)
        X.write(st, a.lv, Vec(c.n, lam(lambda j: z3.If(z3.And(s0 <= j, j < s0 + n), pv, sel(c.arr, j))), c.et, c.kind)); return [(st, None)]
    if q == 'std::swap':
        a, b = rd(X, st, args[0]), rd(X, st, args[1]); X.write(st, args[0], b); X.write(st, args[1], a); return [(st, None)]
    if q in ('std::distance',):
        a, b = [rd(X, st, x) for x in args]; return [(st, sv(b.idx - a.idx))]
    if q in ('std::next', 'std::advance'):
        a = rd(X, st, args[0]); n = rd(X, st, args[1]) if len(args) > 1 else iv(1)
        r = Ptr(a.lv, sv(a.idx + n), a.view, a.rev)
        if q == 'std::advance': X.write(st, args[0], r); return [(st, None)]
        return [(st, r)]
    if q == 'std::async':
        if 'threads' in st.cells:       # the thread is started once and runs to completion at some later time
            a = [rd(X, st, x) for x in args]; f = [x for x in a if isinstance(x, Clo)]; pol = [x for x in a if z3.is_expr(x)]
            X.oblige(st, z3.And(len(pol) == 1, pol[0] == 1) if pol else FALSE, 'the thread is started immediately (launch::async)')
            if len(f) != 1: raise Unsup('thread function')
            st.cells['threads'] = sv(st.cells['threads'] + 1)
            return [(s2, Opaque('future')) for s2, _ in X.call_clo(st, f[0], [])]
        return [(st, Opaque('future'))]
    if q in ('htons',): return [(st, Opaque('htons'))]
    if obj is None and '__gnu_cxx::operator' in q:
        a, b = [rd(X, st, x) for x in args]; op = m[len('operator'):]; return [(st, X.ptrop(st, op, a, b))]
    if obj is None and (q.startswith('std::operator==') or q.startswith('std::operator!=')):
        a, b = [rd(X, st, x) for x in args]
        if isinstance(a, (Ptr, Null)) or isinstance(b, (Ptr, Null)): return [(st, X.ptrop(st, m[len('operator'):], a, b))]
        return None
    if obj is None: return None
    o = X.read(st, obj)
    ot = e['qn'].rsplit('::', 1)[0]
    if ot == '__gnu_cxx::__normal_iterator' or ot == 'std::reverse_iterator':
        if m == 'operator*': return [(st, X.ptrlv(st, o))]
        if m == 'operator->': return [(st, Ptr(X.ptrlv(st, o)))]
        if m in ('operator++', 'operator--'):
            d = 1 if m == 'operator++' else -1
            X.write(st, obj, Ptr(o.lv, sv(o.idx + d), o.view, o.rev))
            return [(st, o if args else obj)]
        if m in ('operator+', 'operator-'): return [(st, X.ptrop(st, m[-1], o, rd(X, st, args[0])))]
        if m in ('operator+=', 'operator-='): X.write(st, obj, X.ptrop(st, m[-2], o, rd(X, st, args[0]))); return [(st, obj)]
        if m == 'operator[]': return [(st, X.ptrlv(st, X.ptrop(st, '+', o, rd(X, st, args[0]))))]
    if ot in ('std::vector', 'std::basic_string', 'std::array', 'std::deque', 'std::initializer_list'): return vec_call(X, st, e, m, obj, o, args)
    if ot in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'):
        if isinstance(o, Rec): o = Ptr(obj)       # element of a container of owning pointers: the owned object, by value
        if m in ('operator->', 'get'): return [(st, o)]
        if m == 'operator*': return [(st, X.ptrlv(st, o))]
        if m == '(conv)' or m == 'operator bool': return [(st, z3.BoolVal(isinstance(o, Ptr)))]
        if m == 'operator=':
            v = rd(X, st, args[0]); X.write(st, obj, v)
            if 'unique' in ot and isinstance(args[0], LV): X.write(st, args[0], Null())
            return [(st, obj)]
    if ot == 'std::optional':
        if m in ('(conv)', 'has_value', 'operator bool'): return [(st, o.has)]
        if m in ('value', 'operator*'):
            if m == 'value':
                t, f = X.fork(st, o.has)
                if f is not None: X.sink.append(('throw', f, 'std::bad_optional_access', X.line))
                if t is None: return []
                st = t
            else: X.oblige(st, o.has, 'optional engaged')
            return [(st, LV(obj.c, obj.p + (('o',),)))]
        if m == 'operator->': X.oblige(st, o.has, 'optional engaged'); return [(st, Ptr(LV(obj.c, obj.p + (('o',),))))]
        if m == 'value_or':
            d = rd(X, st, args[0])
            if z3.is_true(o.has): return [(st, o.v)]
            if z3.is_false(o.has): return [(st, d)]
            try: return [(st, X.ite(o.has, o.v, d))]
            except Unsup:
                t, f = X.fork(st, o.has); return ([(t, o.v)] if t else []) + ([(f, d)] if f else [])
        if m == 'operator=':
            v = rd(X, st, args[0]); X.write(st, obj, v if isinstance(v, Opt) else Opt(TRUE, v, o.et)); return [(st, obj)]
    if ot == 'std::function' and m == 'operator()':
        if isinstance(o, Clo): return X.call_clo(st, o, args)
        if isinstance(o, Opaque) and callable(o.d): return o.d(X, st, [rd(X, st, a) for a in args])
    if ot == 'std::map': return map_call(X, st, e, m, obj, o, args)
    if ot in ('std::basic_stringstream', 'std::basic_ostream', 'std::basic_ifstream', 'std::basic_ios'):
        if m == 'operator<<': return [(st, obj)]
        if m == 'str':
            return [(st, X.symval(st, e['t'], 'strm'))]
        if m in ('is_open', '(conv)', 'operator bool'): return [(st, fresh('stream', B))]
    if 'held' in st.cells and ot in ('std::mutex', 'std::unique_lock', 'std::condition_variable', 'std::_V2::condition_variable_any'):
        if m == 'unlock': X.oblige(st, st.cells['held'], 'mutex held when unlocked'); st.cells['held'] = FALSE
        elif m == 'lock': X.oblige(st, z3.Not(st.cells['held']), 'mutex not already held'); st.cells['held'] = TRUE
        elif m in ('notify_one', 'notify_all'): st.cells['notified'] = sv(st.cells['notified'] + 1)
        elif m == 'wait':
            X.oblige(st, st.cells['held'], 'mutex held while waiting'); own = LV(obj.c, obj.p[:-1])
            X.write(st, own, X.havocked(st, own))        # other threads may change the monitored object while the mutex is released
            if len(args) == 2:
                out = []
                for s2, b in X.call_clo(st, rd(X, st, args[1]), []): s2.facts.append(X.tobool(s2, b)); out.append((s2, None))
                return out
        else: return None
        return [(st, None)]
    if 'joined' in st.cells and ot in ('std::future', 'std::__basic_future') and m in ('wait', 'get'):
        X.hooks['wait'](X, st); return [(st, None)]
    if ot in ('std::mutex', 'std::unique_lock', 'std::condition_variable', 'std::future', 'std::__basic_future'): return [(st, None)]
    return None

def make_obj(X, st, t, args):
    fn = None
    cands = [f for f in X.P.funcs.values() if f.get('ctor') and f['cls'].s == t.s and len(f['ps']) == len(args)]
    if len(cands) > 1:
        cands = [f for f in cands if not (len(args) == 1 and f['ps'][0]['t'].strip().s.replace('const ', '') == t.s)] or cands
    if cands:
        fn = cands[0]
        ctr = X.C.lookup_ctor(t, {'fn': fn['k'], 'ps': [p['t'] for p in fn['ps']]}, fn) if X.C else None
        outs = []
        if ctr is not None and ctr is not X.contractless:
            this = X.new(st, UNINIT, 'heap')
            return [(s, Ptr(this)) for s, _ in X.apply_contract(ctr, st, fn, this, args, t)]
        for s, v in X.construct(st, t, fn, args): outs.append((s, Ptr(X.new(s, v, 'heap'))))
        return outs
    if t.n and t.n.startswith('frn') and not args:
        return [(st, Ptr(X.new(st, Rec(t, {n: X.default(st, ft, zero=False) for n, ft in recfields(X.P, t)}) if t.r in X.P.records else Opaque(t.n), 'heap')))]
    if t.n and t.n.startswith('std'):
        v = std_default(X, st, t); return [(st, Ptr(X.new(st, v, 'heap')))]
    raise Unsup('make %s' % t.s)

def std_find(X, st, a, b, v):
    c, s0, n = ptr_range(X, st, a, b)
    k = fresh('found', I); j = z3.Int('jf'); pv = pack(v, c.et)
    X.fact(st, z3.And(k >= 0, k <= n))
    X.fact(st, z3.Implies(k < n, sel(c.arr, sv(s0 + k)) == pv))
    jj = fresh('jf', I); body = z3.Implies(z3.And(0 <= jj, jj < k), sel(c.arr, sv(s0 + jj)) != pv)
    X.fact(st, z3.ForAll([jj], body))
    return [(st, Ptr(a.lv, sv(s0 + k), a.view))]

def vec_call(X, st, e, m, obj, o, args):
    av = lambda i: rd(X, st, args[i])
    if isinstance(o, Opaque): return [(st, Opaque('of opaque'))] if m in ('size', 'c_str') else None
    n = vecn(o)
    if m in ('size', 'length'): return [(st, n)]
    if m == 'empty': return [(st, cs(n == 0))]
    if m in ('operator[]', 'at'):
        i = X.toint(av(0))
        if m == 'at':
            t, f = X.fork(st, z3.And(i >= 0, i < n))
            if f is not None: X.sink.append(('throw', f, 'std::out_of_range', X.line))
            if t is None: return []
            return [(t, obj.i(i))]
        X.oblige(st, z3.And(i >= 0, i < n), 'index in bounds of %s' % (getattr(o, 'kind', '')))
        return [(st, obj.i(sv(i)))]
    if m in ('front', 'back'):
        X.oblige(st, n > 0, m + ' of empty'); return [(st, obj.i(iv(0) if m == 'front' else sv(n - 1)))]
    if m in ('begin', 'cbegin', 'data', 'c_str'): return [(st, Ptr(obj, iv(0)))]
    if m in ('end', 'cend'): return [(st, Ptr(obj, n))]
    if m == 'rbegin': return [(st, Ptr(obj, n, None, True))]
    if m == 'rend': return [(st, Ptr(obj, iv(0), None, True))]
    if m in ('reserve', 'shrink_to_fit'): return [(st, None)]
    if isinstance(o, Lst): 
        if m == 'fill': X.write(st, obj, Lst([av(0)] * len(o.xs), o.et, o.kind)); return [(st, None)]
        o = tovec(o)
    if m == 'clear': X.write(st, obj, Vec(iv(0), o.arr, o.et, o.kind)); return [(st, None)]
    if m in ('push_back', 'emplace_back'):
        outs = [(st, None)]
        if m == 'emplace_back' and (len(args) != 1): 
            if len(args) == 0: v = X.default(st, o.et); outs = [(st, v)]
            else: outs = emplace(X, st, o.et, args)
        else:
            v = av(0)
            # emplace_back converts
            if not value_of_type(v, o.et): outs = emplace(X, st, o.et, args)
            else: outs = [(st, v)]
        res = []
        for s, v in outs:
            X.write(s, obj, Vec(sv(o.n + 1), store(o.arr, o.n, pack(v, o.et)), o.et, o.kind)); res.append((s, obj.i(o.n)))
        return res
    if m in ('pop_back',):
        X.oblige(st, n > 0, 'pop_back of empty'); X.write(st, obj, Vec(sv(n - 1), o.arr, o.et, o.kind)); return [(st, None)]
    if m == 'resize':
        k = av(0); d = av(1) if len(args) > 1 else X.default(st, o.et); pd = pack(d, o.et)
        X.oblige(st, k < MAXSZ, 'allocation size below 2^56', 'env')
        if isconst(n) and n.as_long() == 0: a = z3.K(I, pd)
        elif X.implied(st, k <= n): a = o.arr
        else: a = lam(lambda j: z3.If(j < n, sel(o.arr, j), pd))
        X.write(st, obj, Vec(k, a, o.et, o.kind)); return [(st, None)]
    if m == 'assign':
        if len(args) == 2:
            a, b = av(0), av(1)
            if isinstance(a, Ptr): c, s0, ln = ptr_range(X, st, a, b); X.write(st, obj, slice_vec(c, s0, ln, o.et, o.kind))
            else: X.write(st, obj, Vec(a, z3.K(I, pack(b, o.et)), o.et, o.kind))
            return [(st, None)]
    if m == 'operator=':
        v = av(0)
        if isinstance(v, Ptr):
            c = X.read(st, v.lv); v = cstr(c)
        if isinstance(v, Lst): v = tovec(v)
        X.write(st, obj, Vec(v.n, v.arr, o.et, o.kind)); return [(st, obj)]
    if m == 'insert':
        pos = av(0)
        if len(args) == 3 and isinstance(av(1), Ptr):
            c, s0, ln = ptr_range(X, st, av(1), av(2)); p = pos.idx
            if eqc(p, n) is True: a = lam(lambda j: z3.If(j < n, sel(o.arr, j), sel(c.arr, sv(s0 + j - n))))
            else: a = lam(lambda j: z3.If(j < p, sel(o.arr, j), z3.If(j < p + ln, sel(c.arr, sv(s0 + j - p)), sel(o.arr, sv(j - ln)))))
            X.oblige(st, z3.And(p >= 0, p <= n), 'insert position valid')
            X.write(st, obj, Vec(sv(n + ln), a, o.et, o.kind)); return [(st, Ptr(obj, p))]
    if m == 'erase':
        if len(args) == 1:
            p = av(0).idx; X.oblige(st, z3.And(p >= 0, p < n), 'erase position valid')
            X.write(st, obj, Vec(sv(n - 1), lam(lambda j: z3.If(j < p, sel(o.arr, j), sel(o.arr, sv(j + 1)))), o.et, o.kind)); return [(st, Ptr(obj, p))]
    if m == 'pop_front':
        X.oblige(st, n > 0, 'pop_front of empty'); X.write(st, obj, Vec(sv(n - 1), lam(lambda j: sel(o.arr, sv(j + 1))), o.et, o.kind)); return [(st, None)]
    if m == 'swap':
        w = av(0); X.write(st, args[0], o); X.write(st, obj, w); return [(st, None)]
    raise Unsup('vector::%s' % m)
def value_of_type(v, t):
    if is_field(t): return z3.is_expr(v) and v.sort() == R
    if is_prg(t): return z3.is_expr(v) and v.sort() == PRGD
    if t.k in ('int', 'bool', 'enum'): return z3.is_expr(v)
    if is_vecty(t): return isinstance(v, (Vec, Lst))
    if t.k == 'rec': return isinstance(v, (Rec, Ptr, Null, Opt, Opaque, Clo)) and (not isinstance(v, Rec) or v.ty is None or v.ty.s.replace('const ', '') == t.s or v.ty.n == t.n)
    return True
def emplace(X, st, t, args):
    cands = [f for f in X.P.funcs.values() if f.get('ctor') and f['cls'].s == t.s and len(f['ps']) == len(args)]
    if is_vecty(t) and len(args) == 2 or is_vecty(t): return std_ctor(X, st, t, {'fn': '', 'ps': []}, args)
    if is_prg(t): cands = [f for f in X.P.funcs.values() if f.get('ctor') and f['cls'].n == PRGQN and len(f['ps']) == len(args)]
    for f in cands:
        e = {'fn': f['k'], 'ps': [p['t'] for p in f['ps']], 'qn': f['qn'], 't': t}
        return X.ctor_call(st, e, t, args)
    raise Unsup('emplace %s' % t.s)
def map_call(X, st, e, m, obj, o, args):
    ks, vs = o.f['$keys'], o.f['$vals']
    if m == 'insert':
        p = rd(X, st, args[0])
        # modelled as append; lookup uses the first match, so a duplicate insertion has no effect on lookups
        X.write(st, obj, Rec(o.ty, {'$keys': Vec(sv(ks.n + 1), store(ks.arr, ks.n, pack(p.f['first'], ks.et)), ks.et), '$vals': Vec(sv(vs.n + 1), store(vs.arr, vs.n, pack(p.f['second'], vs.et)), vs.et)}))
        return [(st, Opaque('insert result'))]
    if m == 'at':
        k = rd(X, st, args[0])
        i = fresh('mapidx', I)
        eq = lambda i: seqeq(sel(ks.arr, i), pack(k, ks.et), ks.et)
        jj = fresh('jm', I)
        X.fact(st, z3.And(i >= 0, i <= ks.n)); X.fact(st, z3.Implies(i < ks.n, eq(i)))
        X.fact(st, z3.ForAll([jj], z3.Implies(z3.And(0 <= jj, jj < i), z3.Not(eq(jj)))))
        t, f = X.fork(st, i < ks.n)
        if f is not None: X.sink.append(('throw', f, 'std::out_of_range', X.line))
        if t is None: return []
        tmp = X.new(t, unpack(sel(vs.arr, i), vs.et))
        return [(t, tmp)]
    raise Unsup('map::' + m)
SEQEQ = {}
def seqeq(a, b, t):
    """equality of packed sequences, extensional on [0,len)"""
    s = a.sort()
    if not is_vecty(t): return a == b
    v, w = unpack(a, t), unpack(b, t)
    j = fresh('je', I)
    return z3.And(v.n == w.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), sel(v.arr, j) == sel(w.arr, j))))

# ---- 128-bit vectors: the instructions the generator uses. The AES round functions and SubWord are uninterpreted; everything else is exact.
W4 = lambda x: [z3.Extract(32 * i + 31, 32 * i, x) for i in range(4)]
def CAT4(w): return z3.Concat(w[3], w[2], w[1], w[0])
AESR = z3.Function('aes_round', vals.BV128, vals.BV128)          # SubBytes, ShiftRows, MixColumns
AESL = z3.Function('aes_last_round', vals.BV128, vals.BV128)     # SubBytes, ShiftRows
SUBW = z3.Function('aes_subword', z3.BitVecSort(32), z3.BitVecSort(32))
BITS64 = z3.Function('bits64', I, z3.BitVecSort(64))             # two's complement of a 64-bit integer
LOAD16 = z3.Function('load128', *[I] * 16, vals.BV128)           # sixteen bytes, lowest address in the lowest bits
BYTE16 = z3.Function('byte128', vals.BV128, I, I)
def rotw(w): return z3.RotateRight(w, 8)
def simd_call(X, st, q, a):
    n = q.replace('__builtin_ia32_', '').replace('_mm_', '')
    if n == 'xor_si128': return [(st, a[0] ^ a[1])]
    if n in ('aesenc_si128', 'aesenc128'): return [(st, AESR(a[0]) ^ a[1])]
    if n in ('aesenclast_si128', 'aesenclast128'): return [(st, AESL(a[0]) ^ a[1])]
    if n == 'set_epi64x': return [(st, z3.Concat(BITS64(a[0]), BITS64(a[1])))]
    if n in ('aeskeygenassist128', 'pshufd', 'pslldqi128_byteshift') and isconst(a[1]):
        w, k = W4(a[0]), a[1].as_long() & 255
        if n == 'pshufd': return [(st, CAT4([w[(k >> 2 * i) & 3] for i in range(4)]))]
        if n == 'pslldqi128_byteshift': return [(st, a[0] << (8 * k) if k < 16 else z3.BitVecVal(0, 128))]
        r = z3.BitVecVal(k, 32); return [(st, CAT4([SUBW(w[1]), rotw(SUBW(w[1])) ^ r, SUBW(w[3]), rotw(SUBW(w[3])) ^ r]))]
    if n in ('loadu_si128', 'storeu_si128'):
        p = a[0]
        if not isinstance(p, Ptr): raise Unsup(q)
        o = X.read(st, p.lv)
        if z3.is_bv(o) and o.size() == 128 and p.idx is None or isinstance(o, Lst) and o.et.k == 'simd':
            l = p.lv if p.idx is None else X.ptrlv(st, Ptr(p.lv, p.idx))
            if n == 'loadu_si128': return [(st, X.read(st, l))]
            X.write(st, l, a[1]); return [(st, None)]
        if not isinstance(o, (Vec, Lst)) or o.et.k != 'int' or o.et.b != 8: raise Unsup(q + ' of object')
        c = tovec(o); X.oblige(st, z3.And(p.idx >= 0, p.idx + 16 <= c.n), 'pointer in bounds')
        if n == 'loadu_si128': return [(st, LOAD16(*[sel(c.arr, sv(p.idx + i)) for i in range(16)]))]
        arr = c.arr
        for i in range(16): arr = store(arr, sv(p.idx + i), BYTE16(a[1], iv(i)))
        X.write(st, p.lv, Vec(c.n, arr, c.et, c.kind)); return [(st, None)]
    raise Unsup(q)
