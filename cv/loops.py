"""Loop invariants: per loop, closed forms C_s(k) for every modified location s are guessed from the symbolic
transition of one iteration and then *proved* inductive (base and step are obligations like any other).
The invariant used after the loop is: exists k >= 0. state = C(k) and the loop condition held at 0..k-1."""
import z3, re, time
from vals import *
import vals, solve
from solve import deep, contains_any, prove, FSUM, ISUM, FPOW, FPROD, fsum, quick
import core
from core import sv, add, isconst, And, State, Oblig, ranged

# ---------------- slots ----------------
def leaves(v, pre=()):
    """-> [(path, term, type-or-None)] of scalar/array leaves"""
    out = []
    if z3.is_expr(v):
        if v.sort() == PRGD: return [(pre + (('pk',),), acc(v, 0)), (pre + (('pc',),), acc(v, 1))]
        return [(pre, v)]
    if isinstance(v, Vec): return [(pre + (('n',),), v.n), (pre + (('a',),), v.arr)]
    if isinstance(v, Rec):
        for k, x in v.f.items(): out += leaves(x, pre + (('f', k),))
        return out
    if isinstance(v, Lst):
        for k, x in enumerate(v.xs): out += leaves(x, pre + (('x', k),))
        return out
    if isinstance(v, Ptr): return [(pre + (('idx',),), v.idx)] if v.idx is not None else []
    if isinstance(v, Opt): return [(pre + (('has',),), v.has)] + leaves(v.v, pre + (('ov',),))
    return []
def setleaf(v, path, t):
    if not path: return t
    p, rest = path[0], path[1:]
    if p[0] == 'pk': return PRGD.mkprg(t, acc(v, 1))
    if p[0] == 'pc': return PRGD.mkprg(acc(v, 0), t)
    if p[0] == 'n': return Vec(t, v.arr, v.et, v.kind)
    if p[0] == 'a': return Vec(v.n, t, v.et, v.kind)
    if p[0] == 'f': return v.set(p[1], setleaf(v.f[p[1]], rest, t))
    if p[0] == 'x': xs = list(v.xs); xs[p[1]] = setleaf(xs[p[1]], rest, t); return Lst(xs, v.et, v.kind)
    if p[0] == 'idx': return Ptr(v.lv, t, v.view, v.rev)
    if p[0] == 'has': return Opt(t, v.v, v.et)
    if p[0] == 'ov': return Opt(v.has, setleaf(v.v, rest, t), v.et)
    raise Unsup('setleaf')
def getleaf(v, path):
    for p in path:
        k = p[0]
        if k == 'pk': return acc(v, 0)
        if k == 'pc': return acc(v, 1)
        if k == 'n': return v.n
        if k == 'a': return v.arr
        if k == 'f': v = v.f[p[1]]
        elif k == 'x': v = v.xs[p[1]]
        elif k == 'idx': return v.idx
        elif k == 'has': return v.has
        elif k == 'ov': v = v.v
    return v
def shape_same(X, a, b):
    """same structure apart from leaf terms"""
    if z3.is_expr(a) and z3.is_expr(b): return a.sort() == b.sort()
    if type(a) != type(b): return False
    if isinstance(a, Vec): return a.arr.sort() == b.arr.sort()
    if isinstance(a, Rec): return a.f.keys() == b.f.keys() and all(shape_same(X, a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Lst): return len(a.xs) == len(b.xs) and all(shape_same(X, x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, Ptr): return X.same(a.lv, b.lv) and (a.idx is None) == (b.idx is None) and a.view == b.view
    if isinstance(a, Opt): return shape_same(X, a.v, b.v)
    return X.same(a, b)
def harmonize(X, old, new):
    """make the entry value structurally comparable with the value after an iteration (uninitialised / concrete arrays)"""
    from std import tovec
    if old is UNINIT and z3.is_expr(new): return fresh('uninit', new.sort())
    if old is UNINIT and isinstance(new, Vec): return Vec(fresh('uninit', I), fresh('uninit', new.arr.sort()), new.et, new.kind)
    if old is UNINIT and isinstance(new, Ptr): raise Unsup('uninitialised pointer assigned in loop')
    if isinstance(old, Lst) and isinstance(new, Vec): return tovec(old)
    if isinstance(old, Rec) and isinstance(new, Rec) and old.f.keys() == new.f.keys():
        return Rec(old.ty, {k: harmonize(X, old.f[k], new.f[k]) for k in old.f})
    if isinstance(old, Lst) and isinstance(new, Lst) and len(old.xs) == len(new.xs):
        return Lst([harmonize(X, a, b) for a, b in zip(old.xs, new.xs)], old.et, old.kind)
    if isinstance(old, Opt) and isinstance(new, Opt): return Opt(old.has, harmonize(X, old.v, new.v) if not isinstance(old.v, Null) else old.v, old.et)
    return old

NUM = re.compile(r'!(\d+)$')
def consts_of(t, acc_=None, seen=None):
    acc_ = {} if acc_ is None else acc_; seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc_[x.get_id()] = x
        st.extend(x.children())
    return acc_
def is_local(c, mark):
    m = NUM.search(c.decl().name())
    return bool(m) and int(m.group(1)) >= mark
def has_local(t, mark): return any(is_local(c, mark) for c in consts_of(t).values())
def nextnum():
    return int(NUM.search(fresh('m', I).decl().name()).group(1))
def rsub(t, *sub):
    if not sub: return t
    r = z3.substitute(t, *sub)
    return t if r.eq(t) else deep(renorm(r))
def norm(t):
    if t.sort() == R: return fnorm(t) if not has_ite(t) else t
    if t.sort() in (I, B) and not has_binder(t): return z3.simplify(t, som=True) if t.sort() == I else z3.simplify(t)
    return t

# ---------------- recurrences ----------------
class NoSol(Exception): pass
def lin(t, k):
    """t = a + c*k with a free of k -> (a, c) or None"""
    if not contains_any(t, [k]): return t, iv(0)
    a = sv(z3.substitute(t, (k, iv(0))))
    b = sv(z3.substitute(t, (k, iv(1))))
    c = z3.simplify(b - a, som=True)
    d = z3.simplify(t - a - c * k, som=True)
    if isconst(d) and d.as_long() == 0: return a, c
    # div/mod free check failed
    s = z3.Solver(); s.set('timeout', 200); s.add(d != 0)
    if not has_binder(d) and s.check() == z3.unsat: return a, c
    return None
def under(g, v):
    """v simplified under the literals of g"""
    sub = []
    for c in conj(g):
        if z3.is_not(c): sub.append((c.arg(0), FALSE))
        elif not z3.is_true(c): sub.append((c, TRUE))
    return renorm(z3.substitute(v, *sub)) if sub else v
def cases(t, S, g=()):
    """flatten ite tree"""
    r = cases_(t, S, g)
    return [(g, under(g, v) if g else v) for g, v in r] if len(r) <= 12 else r
def cases_(t, S, g=()):
    if has_ite(t):
        c = t.arg(0)
        return cases_(t.arg(1), S, g + (c,)) + cases_(t.arg(2), S, g + (cs(z3.Not(c)),))
    return [(g, t)]
def conj(g):
    out = []
    for c in g:
        if z3.is_and(c): out += conj(c.children())
        elif z3.is_not(c) and z3.is_or(c.arg(0)): out += conj([cs(z3.Not(x)) for x in c.arg(0).children()])
        else: out.append(c)
    return out
def bound(c, k):
    """inequality -> (expr, op) meaning expr >= 0 or expr == 0"""
    if not z3.is_app(c): return None
    kd = c.decl().kind(); neg = False
    if kd == z3.Z3_OP_NOT: neg = True; c = c.arg(0); kd = c.decl().kind() if z3.is_app(c) else None
    if kd not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ): return None
    a, b = c.arg(0), c.arg(1)
    if a.sort() != I: return None
    if kd == z3.Z3_OP_EQ: return None if neg else (a - b, '==')
    if kd == z3.Z3_OP_LE: e = b - a
    elif kd == z3.Z3_OP_GE: e = a - b
    elif kd == z3.Z3_OP_LT: e = b - a - 1
    else: e = a - b - 1
    if neg: e = -e - 1
    return e, '>='
def witness(g, k, params):
    """a term w (free of k) such that g implies k == w, guessed"""
    cj = conj(g); lows = []; highs = []
    for c in cj:
        if not contains_any(c, [k]): continue
        b = bound(c, k)
        if b is None: continue
        l = lin(b[0], k)
        if l is None: continue
        a, co = l
        if b[1] == '==':
            if isconst(co):
                n = co.as_long()
                if n == 1: return z3.simplify(-a, som=True)
                if n == -1: return z3.simplify(a, som=True)
                if n > 0: return sv((-a) / n)
                if n < 0: return sv(a / (-n))
            else: return sv((-a) / co) if True else None
        else: (lows if True else highs).append((a, co))
    # pair of bounds: A + s*k >= 0 (k large), B - s*k >= 0
    for a, co in lows:
        for b, co2 in lows:
            if z3.is_true(z3.simplify(co == -co2)):
                # j - lo0 - s*k >= 0 has coefficient -s ; hi: lo0 + s*k + s - 1 - j >= 0 coefficient s
                s = co2; # a + co*k >=0 with co=-s ; b + s*k >= 0
                tot = z3.simplify(a + b - s + 1, som=True)    # a + b == s - 1 : contiguous ranges
                if isconst(tot) and tot.as_long() == 0:
                    if isconst(s) and s.as_long() < 0: continue
                    return sv(a / s)
    return None
def inner_ites(t, out, lim=6):
    """conditions of conditionals below arithmetic operators of t"""
    if not z3.is_app(t) or len(out) > lim: return
    if has_ite(t):
        if not any(t.arg(0).eq(c) for c in out): out.append(t.arg(0))
        inner_ites(t.arg(1), out, lim); inner_ites(t.arg(2), out, lim); return
    if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or t.decl().eq(FM):
        for c in t.children(): inner_ites(c, out, lim)
def assume_cond(t, c, val):
    """t with conditionals on c resolved"""
    if not z3.is_app(t) or t.num_args() == 0: return t
    if has_ite(t) and t.arg(0).eq(c): return assume_cond(t.arg(1 if val else 2), c, val)
    if has_ite(t): return z3.If(t.arg(0), assume_cond(t.arg(1), c, val), assume_cond(t.arg(2), c, val))
    if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or t.decl().eq(FM):
        return t.decl()(*[assume_cond(x, c, val) for x in t.children()]) if t.num_args() <= 2 else (z3.Sum if t.decl().kind() == z3.Z3_OP_ADD else z3.Product)(*[assume_cond(x, c, val) for x in t.children()])
    return t
def hoist(t):
    """move conditionals out of sums and products"""
    if has_ite(t) or t.sort() not in (I, R): return t
    conds = []; inner_ites(t, conds)
    if not conds or len(conds) > 5: return t
    def go(t, cs_):
        if not cs_: return fnorm(t) if t.sort() == R else sv(t)
        a, b = go(assume_cond(t, cs_[0], True), cs_[1:]), go(assume_cond(t, cs_[0], False), cs_[1:])
        return a if a.eq(b) else z3.If(cs_[0], a, b)
    return go(t, conds)
CONT = [None]     # continuation condition of the loop being solved, as a function of the iteration
def solve_scalar(T, S, x0, k, params):
    """closed form of s(0)=x0, s(k+1)=T(s(k),k); returns fn(kappa)->term"""
    so = T.sort()
    T = hoist(solve.inrange(renorm(T), k, None, CONT[0](k)) if CONT[0] is not None else renorm(T))
    if T.eq(S): return lambda q: x0
    if not contains_any(T, [S]):
        def f(q):
            qc = z3.simplify(q)
            if isconst(qc) and qc.as_long() <= 0: return x0
            r = rsub(T, (k, sv(q - 1)))
            if not contains_any(T, [k]) and r.eq(x0): return x0
            return z3.If(q > 0, r, x0)
        return f
    cas = cases(T, S)
    if any(contains_any(c, [S]) for g, _ in cas for c in g): raise NoSol('guard depends on itself')
    upd = [(g, v) for g, v in cas if not v.eq(S)]
    # additive
    ds = []
    for g, v in cas:
        if v.sort() == R:
            p = poly(v); key = (S.get_id(),)
            if key in p and p[key][0] == 1:
                q = dict(p); q.pop(key)
                if any(any(x.eq(S) or contains_any(x, [S]) for x in at) for _, at in q.values()): ds = None; break
                ds.append((g, unpoly(q)))
            else: ds = None; break
        elif v.sort() == I:
            d = z3.simplify(v - S, som=True) if not has_binder(v) else renorm(v - S)
            if contains_any(d, [S]): ds = None; break
            ds.append((g, d))
        else: ds = None; break
    if ds is not None:
        nz = [(g, d) for g, d in ds if not (z3.is_rational_value(d) or isconst(d)) or not z3.is_true(z3.simplify(d == 0))]
        # single guarded writer at a unique iteration?
        if all(g for g, d in nz) and so != B:
            r = try_unique(upd, S, x0, k, params)
            if r is not None: return r
        if len(ds) == 1 and not contains_any(ds[0][1], [k]):
            d = ds[0][1]
            if so == I: return lambda q: sv(x0 + d * q) if not isconst(d) or d.as_long() not in (1, -1) else (sv(x0 + q) if d.as_long() == 1 else sv(x0 - q))
        if so == I and not any(contains_any(d, [k]) for g, d in ds) and not any(contains_any(c, [k]) for g, d in ds for c in g):
            def fi(q):
                r = None
                for g, d in reversed(ds):
                    w = sv(x0 + d * q) if isconst(d) else x0 + d * q
                    r = w if r is None else z3.If(And(list(g)), w, r)
                return r
            return fi
        body = None
        for g, d in reversed(ds):
            body = d if body is None else z3.If(And(list(g)), d, body)
        if so == R: return lambda q: x0 + fsum(lambda j: rsub(body, (k, j)), q)
        return lambda q: x0 + solve.isum(lambda j: rsub(body, (k, j)), q)
    r = try_unique(upd, S, x0, k, params)
    if r is not None: return r
    if len(cas) == 1 and so == R:
        p = poly(T)
        if len(p) == 1:
            (co, at), = p.values()
            if sum(1 for x in at if x.eq(S)) == 1:
                rest = [x for x in at if not x.eq(S)]
                if not any(contains_any(x, [S]) for x in rest):
                    fac = unpoly({tuple(x.get_id() for x in rest): (co, tuple(rest))})
                    if not contains_any(fac, [k]): return lambda q: fmul(x0, FPOW(fac, q))
                    return lambda q: fmul(x0, FPROD(lam(lambda j: rsub(fac, (k, j))), q))
    # overwrites under guards that do not change: the last iteration decides
    if upd and not any(contains_any(v, [S]) for g, v in upd) and not any(contains_any(c, [k, S]) for g, v in cas for c in g):
        def f(q):
            r = x0
            for g, v in reversed(cas):
                w = x0 if v.eq(S) else rsub(v, (k, sv(q - 1)))
                r = w if r is x0 and not g else z3.If(And(list(g)), w, r) if g else w
            return z3.If(q > 0, r, x0)
        return f
    # conditional assignment independent of k except last value: guard false -> keep
    if len(upd) == 1 and not contains_any(upd[0][1], [S]) and not any(contains_any(c, [k]) for c in upd[0][0]):
        g, v = upd[0]
        return lambda q: z3.If(z3.And(q > 0, *g), rsub(v, (k, sv(q - 1))), x0)
    raise NoSol('no pattern for %s' % str(T)[:200])
def try_unique(upd, S, x0, k, params):
    """each guarded update happens at one iteration w (function of the parameters)"""
    res = []
    for g, v in upd:
        w = witness(g, k, params)
        if w is None: return None
        gs = [c for c in conj(g)]
        gw = [x for x in (rsub(c, (k, w)) for c in gs) if not z3.is_true(x)]
        gw = [c for c in gw if not z3.is_true(cs(c))]
        vw = rsub(v, (k, w))
        vw = rsub(vw, (S, x0)) if contains_any(vw, [S]) else vw
        if contains_any(vw, [S]): return None
        res.append((w, gw, vw))
    if not res: return None
    def f(q):
        r = x0
        for w, gw, vw in reversed(res): 
            c = cs(z3.And(w >= 0, w < q, *gw))
            r = vw if z3.is_true(c) else r if z3.is_false(c) else z3.If(c, vw, r)
        return r
    return f
def chain_fix(vw, S): return vw

def solve_elem(T, X, x0, k, params, et_sort):
    """T: new value (any sort), X: symbol term standing for the old value, x0: entry value"""
    so = T.sort()
    if so in (I, R, B) or z3.is_bv_sort(so):
        S = fresh('S', so); T2 = subst_term(T, X, S)
        return solve_scalar(T2, S, x0, k, params)
    if so.kind() == z3.Z3_ARRAY_SORT:
        j = fresh('gj', so.domain())
        Tj = renorm(sel(T, j)); Xj = z3.Select(X, j)
        Tj = align(Tj, X, j, k)
        chain = try_chain(Tj, X, x0, k, j)
        if chain is not None: return lambda q: z3.Lambda([j], chain(q))
        fj = solve_elem(Tj, Xj, sel(x0, j), k, params + [j], None)
        def f(q):
            b = fj(q)
            if z3.is_select(b) and b.arg(1).eq(j) and not contains_any(b.arg(0), [j]): return b.arg(0)
            return z3.Lambda([j], b)
        return f
    if so.kind() == z3.Z3_DATATYPE_SORT:
        c = so.constructor(0); fs = []
        if T.eq(X): return lambda q: x0
        S = fresh('S', so); cas = cases(z3.substitute(T, (X, S)), None)
        upd = [(g, v) for g, v in cas if not v.eq(S)]
        if upd and all(g for g, v in upd) and not any(contains_any(c_, [S]) for g, v in cas for c_ in g):
            r = try_unique(upd, S, x0, k, params)
            if r is not None: return r
        comp = [so.accessor(0, i)(X) for i in range(c.arity())]; fs = [None] * c.arity(); err = None
        for rnd in range(2):
            sub = [(comp[i], fs[i](k)) for i in range(c.arity()) if fs[i] is not None]
            for i in range(c.arity()):
                if fs[i] is not None: continue
                Ti = acc(T, i)
                if sub: Ti = rsub(Ti, *sub)
                try:
                    f = solve_elem(Ti, comp[i], acc(x0, i), k, params, None)
                    if contains_any(f(k), [X]): raise NoSol('depends on another component')
                    fs[i] = f; sub.append((comp[i], f(k)))
                except NoSol as ex: err = ex
        if any(f is None for f in fs): raise err
        return lambda q: c(*[f(q) for f in fs])
    raise NoSol('sort %s' % so)
def subst_term(T, X, S):
    """replace the (compound) term X by S, then check no other use of X's root"""
    return z3.substitute(T, (X, S)) if not T.eq(X) else S
def align(Tj, X, j, k):
    """under a guard that fixes k = w(j) rewrite the guarded value so that selections at index a+ck become selections at j"""
    cas = cases(Tj, None)
    if len(cas) <= 1: return Tj
    out = None
    for g, v in reversed(cas):
        if contains_any(v, [k]) or True:
            if not any(contains_any(c, [k]) for c in g) and contains_any(v, [X]):
                for c in conj(g):
                    if z3.is_eq(c) and (c.arg(0).eq(j) or c.arg(1).eq(j)):
                        A = c.arg(1) if c.arg(0).eq(j) else c.arg(0)
                        if not contains_any(A, [j]): v = rsub(v, (z3.Select(X, A), z3.Select(X, j)))
            if any(contains_any(c, [k]) for c in g) and contains_any(v, [X]):
                w = witness(g, k, [j])
                if w is None:
                    for c in conj(g):
                        if z3.is_eq(c) and (c.arg(0).eq(j) or c.arg(1).eq(j)):
                            A = c.arg(1) if c.arg(0).eq(j) else c.arg(0)
                            if not contains_any(A, [j]): v = rsub(v, (A, j))
                else:
                    v2 = rsub(v, (k, w)); 
                    v2 = normsel(v2, X)
                    v = v2
        out = v if out is None else z3.If(And(list(g)), v, out)
    return out
def normsel(t, X):
    """normalise indices of selections"""
    if not z3.is_app(t) or t.num_args() == 0: return t
    ch = [normsel(c, X) for c in t.children()]
    if z3.is_select(t) and ch[1].sort() == I and not has_binder(ch[1]): return sel(ch[0], z3.simplify(ch[1], som=True))
    return t.decl()(*ch)
def try_chain(Tj, X, x0, k, j):
    """x[a+k] = f(x[a+k-1]) : value chains along the array"""
    cas = cases(Tj, None); Xj = z3.Select(X, j)
    upd = [(g, v) for g, v in cas if not v.eq(Xj)]
    if len(upd) != 1: return None
    g, v = upd[0]
    w = witness(g, k, [j])
    if w is None: return None
    v = normsel(rsub(v, (k, w)), X)
    for d in (-1, 1):
        nb = z3.Select(X, z3.simplify(j + d, som=True)); S = fresh('S', v.sort())
        v2 = z3.substitute(v, (nb, S))
        if contains_any(v2, [X]) or not contains_any(v2, [S]): continue
        gw = [c for c in (rsub(c, (k, w)) for c in conj(g)) if not z3.is_true(cs(c))]
        start = z3.simplify(j - w if d == -1 else j + w, som=True)     # index written at k=0
        base = sel(x0, z3.simplify(start + d, som=True))
        kk = fresh('ck', I)
        # value at step k as recurrence in k: s(-1)=base ; s(k)=v(s(k-1)) with j = start + k
        try:
            Tk = rsub(v2, (j, sv(start_at(start, j, kk, d)))) if contains_any(v2, [j]) else v2
            f = solve_scalar(Tk, S, base, kk, [])
        except NoSol: continue
        return lambda q: z3.If(z3.And(w >= 0, w < q, *gw), f(sv(w + 1)), sel(x0, j))
    return None
def start_at(start, j, kk, d): return (start + kk) if d == -1 else (start - kk)

def extra_touch(T, Xsym, own):
    return False

# ---------------- driver ----------------
def loop_key(L): return id(L['b'])
MODCACHE = {}

def do_loop(X, L, st):
    X.loops += 1
    # concrete unrolling
    cur = [st]; out = []; n = 0
    while cur:
        if len(cur) > 64: raise Unsup('too many states while unrolling')
        nxt = []
        for q in cur:
            if n > 400: raise Unsup('unrolling limit')
            kind = cond_const(X, L, q) if inv_of(X, L) is None else None
            if kind is None and getattr(X, 'unroll', 0) and n <= X.unroll and inv_of(X, L) is None and not X.discover: kind = 'split'    # paths per iteration; the guard must be refuted within the limit
            if kind is None and getattr(X, 'unroll', 0) and inv_of(X, L) is None and not X.discover and n > X.unroll: raise Unsup('loop not bounded by %d iterations' % X.unroll)
            if kind is None:
                out += symbolic_loop(X, L, q); continue
            ends, exits = X.one_iter(L, q)
            out += [(('n' if k == 'n!' else k), s, v) for k, s, v in exits]
            for e in ends: e.env = q.env[:-1] + [dict(q.env[-1])] if e.env is not q.env else e.env
            nxt += ends
        cur = nxt; n += 1
    return out
def cond_const(X, L, st):
    if L['c'] is None or L['c'].get('e') == 'bool': return None
    no, ns, nd = len(X.obl), len(X.sink), X.discover
    X.discover += 1
    try:
        r = X.rv(L['c'], st.copy())
    finally:
        X.discover = nd; del X.obl[no:]; del X.sink[ns:]
    if len(r) != 1: return None
    c = cs(X.tobool(r[0][0], r[0][1]))
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return None

class LoopView:
    """what a supplied invariant may look at: a state at the loop head, the iteration count, the entry state"""
    def __init__(s, X, st, base, k, mods=(), head=None, phase='assume'):
        s.X = X; s.st = st; s.base = base; s.k = k; s.mods = mods; s.phase = phase; s.lemmas = []; s.outer = list(getattr(X, 'kstack', []))     # iteration counts of the enclosing loops
        s.head = LoopView(X, head, base, k, mods) if head is not None else None      # state at the start of the iteration (when preservation is shown)
    def lemma(s, f, *terms):
        """a valid fact about any integers: proved for arbitrary ones on its own, then available for the given terms"""
        s.lemmas.append((f, terms))
    def role(s, pred, sort=I):
        """the scalar local changed by the loop whose value on entry satisfies pred (None if there is none): names do not matter"""
        own = {lv.c for lv in s.base.env[-1].values() if isinstance(lv, LV)}
        for c, p in s.mods:
            if c in own and not p:
                v = s.base.cells.get(c)
                if z3.is_expr(v) and v.sort() == sort and pred(v): return s.st.cells[c]
        return None
    def lv(s, name, pred=None):
        env = s.st.env[-1]; hit = []
        for lv in env.values():
            if isinstance(lv, LV) and re.fullmatch(re.escape(name) + r'\d+', lv.c): hit.append(lv)
        if not hit and pred:
            for lv in env.values():
                if isinstance(lv, LV):
                    try:
                        if pred(s.X.read(s.st, lv)): hit.append(lv)
                    except Exception: pass
        if len(hit) < 1: raise Unsup('invariant: no variable %s' % name)
        return hit[-1]
    def get(s, name, pred=None, st=None):
        v = s.X.read(st or s.st, s.lv(name, pred))
        return s.X.read(st or s.st, v.lv) if isinstance(v, Ref) else v
    def entry(s, name, pred=None): return s.get(name, pred, s.base)
    def read(s, lv): return s.X.read(s.st, lv)
def inv_at(X, inv, st, base, k, mods=(), head=None, phase='assume', line=None):
    L = LoopView(X, st, base, k, mods, head, phase); r = [(n, g) for n, g in inv(X.spec, L)]
    for f, terms in L.lemmas:
        vs = [fresh('l', t.sort()) for t in terms]
        if not X.discover: X.obl.append(Oblig('lemma about the loop variables', [], f(*vs), line, 'inv'))
        st.facts.append(f(*terms))
    return r
def inv_of(X, L):
    m = getattr(X, 'invmap', {}); return m.get(id(L['b'])) or m.get('*')
class Inf: pass

def put(X, st, slots, vals_):
    for (c, p), t in zip(slots, vals_): st.cells[c] = setleaf(st.cells[c], p, t)

def run_iter(X, L, st, discover=True):
    """one iteration on a copy, nothing recorded; returns ends, exits"""
    no, ns, nd, nm, un = len(X.obl), len(X.sink), X.discover, X.math, X.unsolved
    X.discover += 1; X.math += 1
    lp = X.loops; X.kstack = getattr(X, 'kstack', []) + [fresh('kd', I)]
    try: ends, exits = X.one_iter(L, st)
    finally:
        X.kstack = X.kstack[:-1]; X.discover = nd; X.math = nm; X.loops = lp
        del X.obl[no:]; del X.sink[ns:]
    return ends, exits

def typed_havoc(X, st, slot, t, entry):
    """machine facts about a havocked leaf"""
    c, p = slot
    f = fresh('h', t.sort())
    if p and p[-1][0] == 'n': st.facts.append(z3.And(f >= 0, f < core.MAXSZ))
    return f

def find_mods(X, L, st, marks):
    key = (loop_key(L), len(X.frames))
    mods = [s for s in MODCACHE.get(key, [])] if False else []
    base = st
    for rnd in range(12):
        h = base.copy()
        syms = []
        for c, p in mods:
            t = getleaf(h.cells[c], p); syms.append(typed_havoc(X, h, (c, p), t, None))
        put(X, h, mods, syms)
        pre = {c: h.cells[c] for c in base.cells}; marks[0] = nextnum()
        ends, exits = run_iter(X, L, h)
        new = []; restart = False
        for e in ends:
            for c in base.cells:
                a, b = pre[c], e.cells.get(c)
                if a is b: continue
                if not shape_same(X, a, b):
                    na = harmonize(X, base.cells[c], b)
                    if not shape_same(X, na, b): raise Unsup('loop changes structure of %s (%s -> %s)' % (c, type(a).__name__, type(b).__name__))
                    base = base.copy(); base.cells[c] = na; restart = True; continue
                for (p, ta), (p2, tb) in zip(leaves(a), leaves(b)):
                    if not ta.eq(tb):
                        if ta.sort() in (I, B) and not has_binder(ta) and not has_binder(tb) and z3.is_true(z3.simplify(ta == tb)): continue
                        if (c, p) not in mods and (c, p) not in new: new.append((c, p))
        if restart: continue
        if not new: return base, mods, ends, exits, syms, h
        mods = mods + new
    raise Unsup('modified locations do not stabilise')

def pcsuffix(base, e):
    return e.pc[len(base.pc):]

def symbolic_loop(X, L, st):
    line = L.get('l')
    marks = [0]
    base, mods, ends, exits, syms, h = find_mods(X, L, st, marks)
    entry = [getleaf(base.cells[c], p) for c, p in mods]
    K = fresh('k', I); X.loopconsts = getattr(X, 'loopconsts', [])
    mark0 = marks[0]
    closed = {}                 # index -> fn(kappa)
    contfn = None
    failed = {}
    rejected = {}
    if getattr(X, 'noclosed', False) and inv_of(X, L):      # containers are described by the supplied invariant alone
        for i, e0 in enumerate(entry):
            if e0.sort().kind() == z3.Z3_ARRAY_SORT or z3.is_bv(e0): rejected[i] = failed[i] = 'described by the supplied invariant'
    for rnd in range(8):
        mark = nextnum() if rnd else mark0; newly = set()
        if rnd > 0:
            h = base.copy(); h.facts.append(K >= 0); syms2 = []
            for i, (c, p) in enumerate(mods):
                if i in closed: syms2.append(closed[i](K))
                else: syms2.append(typed_havoc(X, h, (c, p), entry[i], None))
            put(X, h, mods, syms2); syms = syms2
            if contfn is not None:
                h.facts.append(z3.Implies(K > 0, contfn(sv(K - 1))))
                ki = fresh('ki', I); h.facts.append(z3.ForAll([ki], z3.Implies(z3.And(0 <= ki, ki < K), contfn(ki))))
            mark = nextnum()
            lb = h
            ends, exits = run_iter(X, L, h)
            hb = len(base.pc)
        prog = False
        # transition terms
        T = {}
        for i, (c, p) in enumerate(mods):
            if i in closed or i in rejected: continue
            t = None
            for e in reversed(ends):
                v = getleaf(e.cells[c], p); pcs = And(e.pc[len(base.pc):])
                t = v if t is None or v.eq(t) else z3.If(pcs, v, t)
            if t is not None: T[i] = renorm(t)
        # continuation condition with what is solved
        def cont():
            dis = []
            for e in ends:
                cj = []
                for c in e.pc[len(base.pc):]:
                    c2 = rsub(c, *[(syms[j], closed[j](K)) for j in newly])
                    bad = any((is_local(x, mark) and not x.eq(K)) or any(x.eq(syms[j]) for j in range(len(mods)) if j not in closed) for x in consts_of(c2).values())
                    if not bad: cj.append(c2)
                dis.append(And(cj))
            newcont = None
            if dis and not any(z3.is_true(d) for d in dis):
                dd = dis[0] if len(dis) == 1 else common_or(dis)
                if not z3.is_true(dd): newcont = dd
            return (lambda q, dd=newcont: rsub(dd, (K, q))) if newcont is not None else None
        for pas in range(5):
            p2 = False
            for i in list(T):
                if i in closed or (pas == 0 and T[i].sort() != I): continue
                t = T[i]
                sub = [(syms[j], closed[j](K)) for j in newly]
                if sub: t = rsub(t, *sub)
                others = [syms[j] for j in range(len(mods)) if j != i and j not in closed]
                if contains_any(t, others) if others else False: failed[i] = 'depends on unsolved'; continue
                if any(is_local(c_, mark) and not any(c_.eq(s) for s in syms) for c_ in consts_of(t).values()): failed[i] = 'iteration-local value %s' % [c_ for c_ in consts_of(t).values() if is_local(c_, mark) and not any(c_.eq(s) for s in syms)][:4]; continue
                saved, CONT[0] = CONT[0], contfn
                try:
                    f = solve_elem(t, syms[i], entry[i], K, [], None)
                    r = f(K)
                    if contains_any(r, [syms[i]]): raise NoSol('self reference left')
                    closed[i] = f; newly.add(i); p2 = prog = True; failed.pop(i, None)
                except NoSol as ex: failed[i] = str(ex)
                finally: CONT[0] = saved
            if pas == 0: contfn = cont()
            elif not p2: break
        contfn = cont()
        if len(closed) + len(rejected) == len(mods) and rnd >= 1 and not prog: break
        if not prog and rnd >= 1: break
    return finish(X, L, st, base, mods, entry, K, closed, contfn, failed, line)
def common_or(dis):
    """disjunction of conjunctions with the common conjuncts factored out"""
    cl = [conj([d]) for d in dis]
    com = [c for c in cl[0] if all(any(c.eq(x) for x in o) for o in cl[1:])]
    rest = [And([c for c in o if not any(c.eq(x) for x in com)]) for o in cl]
    r = cs(z3.Or(*rest)) if not any(z3.is_true(x) for x in rest) else TRUE
    return And(com + ([] if z3.is_true(r) else [r]))

def eq_goals(a, b, so=None):
    """leaf equalities (with skolem indices) between two terms"""
    if a.eq(b): return []
    so = a.sort()
    if so.kind() == z3.Z3_ARRAY_SORT:
        j = fresh('sj', so.domain()); return eq_goals(renorm(sel(a, j)), renorm(sel(b, j)))
    if so.kind() == z3.Z3_DATATYPE_SORT and so != PRGD:
        out = []
        for i in range(so.constructor(0).arity()): out += eq_goals(acc(a, i), acc(b, i))
        return out
    return [a == b]

def finish(X, L, st, base, mods, entry, K, closed, contfn, failed, line):
    """final run under the invariant; proves preservation, returns outcomes"""
    rejected = set()
    for attempt in range(6):
        h = base.copy(); 
        h.facts.append(K >= 0)
        vals_ = []; syms = []
        for i, (c, p) in enumerate(mods):
            if i in closed: vals_.append(closed[i](K))
            else:
                f = fresh('h', entry[i].sort()); syms.append(f); vals_.append(f)
        put(X, h, mods, vals_)
        for i, (c, p) in enumerate(mods):
            if i not in closed: leaf_facts(X, h, c, p, vals_[i])
        if contfn is not None:
            h.facts.append(z3.Implies(K > 0, contfn(sv(K - 1))))
            ki = fresh('ki', I); h.facts.append(z3.ForAll([ki], z3.Implies(z3.And(0 <= ki, ki < K), contfn(ki))))
        inv = inv_of(X, L); no, ns, un = len(X.obl), len(X.sink), X.unsolved
        if inv:
            for n_, g in inv_at(X, inv, h, base, K, mods, line=line): h.facts.append(g)
            hd = h.copy()
        lg = len(h.log)
        env0 = h.env; h0 = dict(h.cells)
        X.kstack = getattr(X, 'kstack', []) + [K]
        try: ends, exits = X.one_iter(L, h)
        finally: X.kstack = X.kstack[:-1]
        bad = set(); badcont = False
        if not X.discover:
            for e in ends:
                fx = e.all()
                for i, (c, p) in enumerate(mods):
                    if i not in closed: continue
                    got = getleaf(e.cells[c], p); want = closed[i](sv(K + 1))
                    for g in eq_goals(got, want):
                        r, info = prove(fx, g, 4.0)
                        if r != 'proved': bad.add(i); X.notes.append('line %s: closed form of %s rejected: %s' % (line, mods[i], str(g)[:300])); break
                    if i in bad: break
                if contfn is not None:
                    r, info = prove(fx, contfn(K), 4.0)
                    if r != 'proved': badcont = True
                for c in base.cells:
                    if c in e.cells and e.cells[c] is not h0.get(c):
                        for (p, ta), (_, tb) in zip(leaves(h0[c]), leaves(e.cells[c])):
                            if (c, p) not in mods and not ta.eq(tb):
                                r, _i = prove(fx, z3.And(*eq_goals(ta, tb)) if eq_goals(ta, tb) else TRUE, 3.0)
                                if r != 'proved': raise Unsup('location %s%s modified beyond the discovered set' % (c, p))
        if not bad and not badcont: break
        del X.obl[no:]; del X.sink[ns:]; X.unsolved = un
        for i in bad: closed.pop(i); failed[i] = 'preservation not proved'
        if badcont: contfn = None
    else: raise Unsup('loop invariant does not stabilise')
    if inv and not X.discover:
        for n_, g in inv_at(X, inv, base, base, iv(0), mods, phase='prove', line=line): X.obl.append(Oblig('loop invariant %s holds initially' % n_, base.all(), g, line, 'inv'))
        for e in ends:
            for n_, g in inv_at(X, inv, e, base, sv(K + 1), mods, hd, 'prove', line): X.obl.append(Oblig('loop invariant %s is preserved' % n_, e.all(), g, line, 'inv'))
    # base case: C(0) = entry
    if not X.discover:
        for i in list(closed):
            for g in eq_goals(closed[i](iv(0)), entry[i]):
                r, info = prove(base.all(), g, 3.0)
                if r != 'proved': open('/tmp/goal.txt','w').write(str(r)+str(info)[:300]+g.sexpr()+'\n\nFACTS\n'+'\n'.join(x.sexpr() for x in base.all())); raise Unsup('closed form base case of %s: %s' % (mods[i], str(g)[:1500]))
        nun = [mods[i] for i in range(len(mods)) if i not in closed]
        if nun:
            X.unsolved += len(nun) if not inv else 0
            for i in range(len(mods)):
                if i not in closed: X.notes.append('line %s: no closed form for %s (%s)' % (line, mods[i], failed.get(i, '?')))
        X.invs = getattr(X, 'invs', 0) + len(closed)
    out = []
    for k, s, v in exits:
        s.env = base.env[:-1] + [dict(base.env[-1])] if k != 'r' else s.env
        if len(s.log) > lg and False: pass
        if k == 'n':
            s = tripcount(X, s, K, contfn, base); out.append(('n', s, v))
        else: out.append(('n' if k == 'n!' else k, s, v))
    if len(out) and any(len(e.log) > lg for e in ends): raise Unsup('communication inside a symbolic loop')
    return out
def leaf_facts(X, st, c, p, f):
    if p and p[-1][0] == 'n': st.facts.append(z3.And(f >= 0, f < core.MAXSZ)); return
    if f.sort() == I:
        t = X.celltypes.get((c, p)) if hasattr(X, 'celltypes') else None
        if t is not None and t.k == 'int': lo, hi = ranged(t); st.facts.append(z3.And(f >= lo, f <= hi))

def tripcount(X, s, K, contfn, base):
    """solve for the number of iterations at normal exit"""
    cands = []
    if contfn is not None:
        for c in conj([contfn(K)]):
            e = None
            if z3.is_not(c) and z3.is_eq(c.arg(0)) and c.arg(0).arg(0).sort() == I: e = (c.arg(0).arg(0) - c.arg(0).arg(1), '!=')
            elif z3.is_distinct(c) and c.arg(0).sort() == I: e = (c.arg(0) - c.arg(1), '!=')
            else:
                b = bound(c, K)
                if b and b[1] == '>=': e = b
            if e is None: continue
            l = lin(e[0], K)
            if l is None: continue
            a, co = l
            if not isconst(co): continue
            n = co.as_long()
            if e[1] == '!=':
                if n == -1: cands.append(sv(a))
                elif n == 1: cands.append(sv(-a))
            elif n < 0:
                # a - m*k >= 0 holds for k <= a/m ; first failing k = floor(a/m)+1 when a>=0
                m = -n; t = z3.simplify(a + 1, som=True) if m == 1 else sv(a / m + 1)
                cands.append(t)
    for t in cands:
        for T in (t, z3.If(t > 0, t, iv(0))):
            if contains_any(T, [K]): continue
            if X.discover:
                ok = quick(s.all(), K != T) == z3.unsat
            else: ok = quick(s.all(), K != T) == z3.unsat or prove([f for f in s.all()], K == T, 2.0, fallback=False)[0] == 'proved'
            if ok:
                s.facts.append(z3.simplify(T) >= 0 if True else None)
                subst_state(X, s, K, T); return s
    return s
def subst_val(v, sub):
    if z3.is_expr(v): return rsub(v, *sub) if contains_any(v, [sub[0][0]]) else v
    if isinstance(v, Vec): return Vec(subst_val(v.n, sub), subst_val(v.arr, sub), v.et, v.kind)
    if isinstance(v, Rec): return Rec(v.ty, {k: subst_val(x, sub) for k, x in v.f.items()})
    if isinstance(v, Lst): return Lst([subst_val(x, sub) for x in v.xs], v.et, v.kind)
    if isinstance(v, Ptr): return Ptr(LV(v.lv.c, tuple((p[0], subst_val(p[1], sub)) if p[0] == 'i' else p for p in v.lv.p)), subst_val(v.idx, sub) if v.idx is not None else None, v.view, v.rev)
    if isinstance(v, Opt): return Opt(subst_val(v.has, sub), subst_val(v.v, sub) if not isinstance(v.v, Null) else v.v, v.et)
    return v
def subst_state(X, s, K, T):
    sub = [(K, T)]
    for c in list(s.cells): s.cells[c] = subst_val(s.cells[c], sub)
    def keep(f):
        f2 = z3.substitute(f, *sub) if contains_any(f, [K]) else f
        return f2 if has_forall(f2) else renorm(f2)
    s.pc = [x for x in (keep(f) for f in s.pc) if not z3.is_true(x)]
    s.facts = [x for x in (keep(f) for f in s.facts) if not z3.is_true(x)]
from solve import has_forall
