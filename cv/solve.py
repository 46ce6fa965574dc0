"""Obligation discharge: fold lemmas + z3 (in process), then cvc5 / z3 4.8 as fallbacks."""
import z3, time, subprocess, tempfile, os
from vals import *
import vals
STATS = {'z3': 0, 'cvc5': 0, 'z3-4.8': 0, 'trivial': 0, 'time': 0.0, 'failed': 0}

# ---------- folds / array-argument functions ----------
AR = z3.ArraySort(I, R); AI = z3.ArraySort(I, I)
FSUM = z3.Function('FSUM', AR, I, R)
ISUM = z3.Function('ISUM', AI, I, I)
# name -> (unit, step(acc, arr, k)); None when only extensional
FOLDS = {}
def deffold(f, unit, step): FOLDS[f.name()] = (f, unit, step)
deffold(FSUM, lambda a: z3.RealVal(0), lambda acc, a, k: acc + sel(a, k))
deffold(ISUM, lambda a: iv(0), lambda acc, a, k: acc + sel(a, k))
# FPROD and geometric powers
FPROD = z3.Function('FPROD', AR, I, R)
deffold(FPROD, lambda a: z3.RealVal(1), lambda acc, a, k: fmul(acc, sel(a, k)))
FPOW = z3.Function('fpow', R, I, R)
EXTFNS = {}    # functions whose array args matter only on [0,n): name -> (f, index of length arg, [array arg idx])
def defext(f, nidx, aidx): EXTFNS[f.name()] = (f, nidx, aidx)
def is_arruf(t): return z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (t.decl().name() in FOLDS or t.decl().name() in EXTFNS)
HOOKS = []     # callables(list of ground terms by decl name) -> lemmas

_dep = {}
def contains(t, c):
    if t.eq(c): return True
    return any(contains(x, c) for x in _subterms(t) if x.eq(c)) if False else _contains(t, c, set())
def _contains(t, c, seen):
    if t.get_id() in seen: return False
    seen.add(t.get_id())
    if t.eq(c): return True
    if z3.is_quantifier(t): return _contains(t.body(), c, seen)
    return any(_contains(x, c, seen) for x in t.children())
def contains_any(t, cs_):
    seen = set(); ids = {c.get_id() for c in cs_}
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False

def inrange(e, j, n, extra=None):
    """e with the integer comparisons decided by 0 <= j < n replaced by their value"""
    for _ in range(3):
        atoms = {}; seen = set(); st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x): continue
            seen.add(x.get_id())
            if x.sort() == B and x.num_args() == 2 and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and x.arg(0).sort() == I \
               and contains_any(x, [j]) and not has_binder(x) and not anyite(x): atoms[x.get_id()] = x
            else: st.extend(x.children())
        sub = []
        s = None
        for x in atoms.values():
            if s is None: s = z3.Solver(); s.set('timeout', 50); s.add(j >= 0); s.add(*([j < n] if n is not None else [])); s.add(*([extra] if extra is not None and not has_binder(extra) else []))
            for val in (True, False):
                s.push(); s.add(z3.Not(x) if val else x); r = s.check(); s.pop()
                if r == z3.unsat: sub.append((x, z3.BoolVal(val))); break
        if not sub: return e
        e = renorm(z3.substitute(e, *sub))
    return e
def anyite(t): return z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or any(anyite(c) for c in t.children()))
_dp = {}
def deep(t):
    """renormalise below binders (after a substitution)"""
    h = _dp.get(t.get_id())
    if h is not None and h[0].eq(t): return h[1]
    if not has_binder(t): r = t
    elif z3.is_quantifier(t):
        if not t.is_lambda() or t.num_vars() != 1: r = t
        else:
            j = fresh('dj', t.var_sort(0)); b0 = z3.substitute_vars(t.body(), j); b = deep(renorm(b0)); r = t if b.eq(b0) else z3.Lambda([j], b)
    else:
        ch = t.children(); nch = [deep(c) for c in ch]
        if all(a.eq(b) for a, b in zip(ch, nch)): r = t
        elif t.decl().eq(FSUM) and is_lam(nch[0]): r = fsum(lambda q: sel(nch[0], q), nch[1])
        else: r = renorm(t.decl()(*nch))
    if len(_dp) > 100000: _dp.clear()
    _dp[t.get_id()] = (t, r); return r
def fsum(body, n):
    """sum_{0<=j<n} body(j), split into canonical monomial sums"""
    j = fresh('j', I)
    e = inrange(renorm(body(j)), j, n)
    out = []
    def split(e, g):
        if has_ite(e):
            c, a, b = e.arg(0), e.arg(1), e.arg(2)
            split(a, g + [c]); split(b, g + [z3.Not(c)]); return
        p = poly(e)
        for k, (co, at) in p.items():
            ites = [x for x in at if has_ite(x)]
            if ites:
                x = ites[0]; rest = list(at); rest.remove(x) if False else None
                rest = []; done = False
                for y in at:
                    if not done and y.eq(x): done = True; continue
                    rest.append(y)
                m = unpoly({tuple(y.get_id() for y in rest): (co, tuple(rest))})
                split(z3.If(x.arg(0), fmul(x.arg(1), m), fmul(x.arg(2), m)), g); continue
            inn = [x for x in at if contains_any(x, [j])]; outr = [x for x in at if not contains_any(x, [j])]
            def nest(l):
                if not l: return z3.RealVal(1)
                m = l[-1]
                for x in reversed(l[:-1]): m = FM(x, m)
                return m
            gj = [c for c in g if contains_any(c, [j])]; go = [c for c in g if not contains_any(c, [j])]
            b = nest(inn)
            if gj: b = z3.If(z3.And(*gj) if len(gj) > 1 else gj[0], b, z3.RealVal(0))
            s = FSUM(z3.Lambda([j], b), n)
            if outr: s = fmul(nest(outr), s)
            if co != 1: s = z3.RealVal(co) * s
            if go: s = z3.If(z3.And(*go) if len(go) > 1 else go[0], s, z3.RealVal(0))
            out.append(s)
    split(e, [])
    if not out: return z3.RealVal(0)
    return out[0] if len(out) == 1 else z3.Sum(*out)

def isum(body, n):
    j = fresh('j', I); e = body(j); g = []
    while has_ite(e) and not contains_any(e.arg(0), [j]):
        c, a, b = e.arg(0), e.arg(1), e.arg(2)
        if z3.is_int_value(b) and b.as_long() == 0: g.append(c); e = a
        elif z3.is_int_value(a) and a.as_long() == 0: g.append(z3.Not(c)); e = b
        else: break
    s = ISUM(z3.Lambda([j], e), n)
    for c in reversed(g): s = z3.If(c, s, iv(0))
    return s

_MK = {}
def marks(t):
    """bit 1: contains (outside binders) a function the lemma generators look at; bit 2: a product of two non-constant integers"""
    stack = [t]
    while stack:
        x = stack[-1]; k = x.get_id(); h = _MK.get(k)
        if h is not None and h[0].eq(x): stack.pop(); continue
        if not z3.is_app(x): _MK[k] = (x, 0); stack.pop(); continue
        ch = x.children(); todo = [c for c in ch if not ((h := _MK.get(c.get_id())) is not None and h[0].eq(c))]
        if todo: stack += todo; continue
        m = 0
        for c in ch: m |= _MK[c.get_id()][1]
        if ch:
            d = x.decl(); kd = d.kind()
            if kd == z3.Z3_OP_UNINTERPRETED and (is_arruf(x) or d.name() in SPECIAL): m |= 1
            elif kd == z3.Z3_OP_DT_ACCESSOR and x.sort() == I and d.name().startswith('lenSeq'): m |= 1
            elif kd == z3.Z3_OP_MUL and x.sort() == I and sum(not z3.is_int_value(c) for c in ch) > 1: m |= 2
        _MK[k] = (x, m); stack.pop()
    return _MK[t.get_id()][1]
SPECIAL = {f.name() for f in (FM, ENC, PRGB, REP, TOF)}
def collect(ts, pred, bit=1):
    """subterms (outside binders) that satisfy pred; bit: the mark such terms carry (0: look everywhere)"""
    seen = {}; out = []
    if len(_MK) > 400000: _MK.clear()
    st = [t for t in ts if not bit or marks(t) & bit]
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen[t.get_id()] = t
        if z3.is_quantifier(t): continue
        if pred(t): out.append(t)
        st.extend(c for c in t.children() if not bit or marks(c) & bit)
    return out
def nnorm(n): return z3.simplify(n)

FOLDED = [False]
def expand(asserts, rounds=3):
    """adds fold/extensionality lemmas, then abstracts array-argument functions by constants"""
    known = {}; lem = []; todo = list(asserts); pairs = set()
    for rd in range(rounds):
        ts = [t for t in collect(todo, is_arruf) if t.get_id() not in known]
        ts.sort(key=lambda t: t.get_id())
        new = []
        for t in ts: known[t.get_id()] = (t, rd)
        for t in ts:
            nm = t.decl().name()
            if nm in FOLDS and rd < 2:
                f, unit, step = FOLDS[nm]; a, n = t.arg(0), t.arg(1); n1 = nnorm(n - 1)
                if z3.is_int_value(n) and n.as_long() <= 0: new.append(t == unit(a)); continue
                prev = f(a, n1)
                new.append(z3.If(n <= 0, t == unit(a), t == renorm(step(prev, a, n1))))
        allk = [v[0] for v in known.values()]
        if rd < 2:
            for x in range(len(allk)):
                for y in range(x + 1, len(allk)):
                    a, b = allk[x], allk[y]
                    if not a.decl().eq(b.decl()): continue
                    pk = (a.get_id(), b.get_id())
                    if pk in pairs: continue
                    if len(pairs) > 150: break
                    pairs.add(pk)
                    if a.decl().name() in FOLDS: n_, aa = 1, [0]
                    else: _, n_, aa = EXTFNS[a.decl().name()]
                    n1, n2 = a.arg(n_), b.arg(n_)
                    d = nnorm(n1 - n2)
                    if z3.is_int_value(d) and d.as_long() != 0: continue
                    sk = fresh('sk', I)
                    dis = [n1 != n2]
                    dif = []
                    for i in range(a.num_args()):
                        if i in aa:
                            if not a.arg(i).eq(b.arg(i)):
                                dif.append(renorm(sel(a.arg(i), sk)) != renorm(sel(b.arg(i), sk)))
                        elif i != n_ and not a.arg(i).eq(b.arg(i)): dis.append(a.arg(i) != b.arg(i))
                    if dif: dis.append(z3.And(0 <= sk, sk < n1, z3.Or(*dif)))
                    new.append(z3.Or(a == b, *dis))
        lem += new; todo = new
        if not new: break
    allt = list(asserts) + lem
    # hooks (problem specific ground lemmas)
    for h in HOOKS:
        extra = h(allt)
        if extra: allt += extra
    fin = collect(allt, is_arruf); FOLDED[0] = bool(fin)
    sub = [(t, fresh('uf', t.sort())) for t in fin]
    if sub: allt = [z3.substitute(t, *sub) for t in allt]
    return allt

def fm_comm(ts):
    """commutativity instances for products"""
    out = []; seen = set()
    fms = collect(ts, lambda t: z3.is_app(t) and t.decl().eq(FM))
    for t in fms[:80]:
        a, b = t.arg(0), t.arg(1)
        if not a.eq(b): out.append(t == FM(b, a))
    return out
def enc_axioms(ts):
    """decode(encode(x)) = x on the ground DEC/ENC terms present; byte ranges"""
    out = []
    es = collect(ts, lambda t: z3.is_app(t) and t.decl().eq(ENC)); xs = {}
    for t in es:
        out.append(z3.And(t >= 0, t <= 255)); xs[t.arg(0).get_id()] = t.arg(0)
    for x in list(xs.values())[:20]: out.append(DEC(*[ENC(x, iv(i)) for i in range(8)]) == x)
    for t in collect(ts, lambda t: z3.is_app(t) and t.decl().eq(PRGB)): out.append(z3.And(t >= 0, t <= 255))
    for t in collect(ts, lambda t: z3.is_app(t) and t.decl().eq(REP)):
        out.append(z3.And(t >= 0, t < 2**61 - 1)); out.append(TOF(t) == t.arg(0))
    for t in collect(ts, lambda t: z3.is_app(t) and t.decl().eq(TOF)): 
        out.append(z3.Implies(z3.And(0 <= t.arg(0), t.arg(0) < 2**61 - 1), REP(t) == t.arg(0)))
    out += [TOF(iv(0)) == 0, TOF(iv(1)) == 1] if any(z3.is_app(t) for t in collect(ts, lambda t: z3.is_app(t) and t.decl().eq(TOF))) else []
    return out
HOOKS += [fm_comm, enc_axioms]

def len_axioms(ts):
    """lengths are never negative"""
    fs = collect(ts, lambda t: z3.is_app(t) and t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_DT_ACCESSOR and t.sort() == I and t.decl().name().startswith('lenSeq'))
    return [t >= 0 for t in fs[:60]]
HOOKS.append(len_axioms)
def is_q(t):
    return has_binder(t)

def quick(facts, cond=None, ms=150):
    """sat check of QF facts (+cond) with folds abstracted; returns z3.sat/unsat/unknown"""
    s = z3.Solver(); s.set('rlimit', ms * 4000); s.set('timeout', ms * 20)
    ts = [f for f in facts if not has_forall(f)]
    if cond is not None: ts.append(cond)
    fin = collect(ts, is_arruf)
    if fin:
        sub = [(t, z3.Const('qf!%d' % t.get_id(), t.sort())) for t in fin]; ts = [z3.substitute(t, *sub) for t in ts]
    ts = [t for t in ts if not has_binder(t)]
    s.add(*ts)
    t0 = time.time(); r = s.check(); STATS['time'] += time.time() - t0
    return r
_hf = {}
def has_forall(t):
    k = t.get_id(); h = _hf.get(k)
    if h is not None and h[0].eq(t): return h[1]
    r = (z3.is_quantifier(t) and not t.is_lambda()) or any(has_forall(c) for c in t.children())
    if len(_hf) > 100000: _hf.clear()
    _hf[k] = (t, r); return r

def relevant(facts, goal):
    return facts

def smt2(ts):
    s = z3.Solver(); s.add(*ts); return s.to_smt2()
def run_ext(cmd, text, tmo):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(text); p = f.name
    try:
        r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=tmo + 2)
        return r.stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired: return 'timeout'
    finally: os.unlink(p)

def skolem(goal):
    """strip top-level foralls / implications of a goal: returns (extra facts, goal)"""
    ex = []
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [fresh('sk_' + goal.var_name(i), goal.var_sort(i)) for i in range(goal.num_vars())]
            goal = renorm(z3.substitute_vars(goal.body(), *reversed(vs)))
        elif z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
            ex.append(goal.arg(0)); goal = goal.arg(1)
        else: return ex, goal

SCALE = [1.0]
def solver(tmo):
    s = z3.Solver(); s.set('rlimit', int(tmo * SCALE[0] * RL)); s.set('timeout', int(tmo * SCALE[0] * 8000)); return s
RL = 2500000
IMUL = z3.Function('imulu', I, I, I)
def nlabs(ts):
    """integer products of two non-constants replaced by an uninterpreted function (weaker, so a proof stays a proof)"""
    subs = {}; seen = set(); st = [t for t in ts if marks(t) & 2]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and x.sort() == I:
            v = [c for c in x.children() if not z3.is_int_value(c)]
            if len(v) > 1:
                v.sort(key=lambda c: c.get_id()); co = 1
                for c in x.children():
                    if z3.is_int_value(c): co *= c.as_long()
                r = v[0]
                for c in v[1:]: r = IMUL(r, c)
                subs[x.get_id()] = (x, r if co == 1 else co * r)
        st.extend(c for c in x.children() if marks(c) & 2)
    if not subs: return None
    # innermost first: substitute repeatedly, largest terms first
    out = list(ts)
    for _ in range(3):
        out = [z3.substitute(t, *subs.values()) for t in out]
    return out
_CG = {}
def bvcongr(a, b, out):
    """differing argument pairs below equal functions; False when there is no common structure"""
    if a.eq(b): return True
    if not (z3.is_app(a) and z3.is_app(b)) or a.num_args() == 0 or not a.decl().eq(b.decl()) or a.decl().kind() == z3.Z3_OP_ITE or is_arruf(a): out.append((a, b)); return False
    for x, y in zip(a.children(), b.children()): bvcongr(x, y, out)
    return True
def prove(facts, goal, tmo=6.0, fallback=True):
    """-> (status, info) status in proved/failed"""
    t0 = time.time()
    if z3.is_eq(goal) and z3.is_bv(goal.arg(0)) and z3.is_app(goal.arg(0)):
        ps = []; k = tuple(f.get_id() for f in facts)
        if bvcongr(goal.arg(0), goal.arg(1), ps) and len(ps) <= 40:
            for x, y in ps:
                kk = (k, x.get_id(), y.get_id())
                if kk not in _CG:
                    if len(_CG) > 20000: _CG.clear()
                    _CG[kk] = (prove(facts, x == y, tmo, False)[0], facts, x, y)
                if _CG[kk][0] != 'proved': break
            else: return 'proved', 'z3 (congruence) %.2fs' % (time.time() - t0)
    ex, g = skolem(goal)
    g = renorm(g)
    if z3.is_and(g) and g.num_args() <= 12 and not has_forall(g):
        pass
    gs = z3.simplify(g) if not has_binder(g) else g
    if z3.is_true(gs): STATS['trivial'] += 1; return 'proved', 'trivial'
    if g.sort() == B and z3.is_eq(g) and g.arg(0).sort() == R:
        if fnorm(g.arg(0)).eq(fnorm(g.arg(1))): STATS['trivial'] += 1; return 'proved', 'trivial'
    allf = [renorm(f) if not has_forall(f) else f for f in list(facts) + ex] + [z3.Not(g)]
    ts = expand(allf); folded = FOLDED[0]
    na = nlabs(ts)
    qf = [t for t in ts if not has_forall(t)]
    stages = []
    if na is not None: stages += [(0.3, [t for t in na if not has_forall(t)], 'products uninterpreted')]
    if na is not None and len(qf) < len(ts): stages += [(0.5, na, 'products uninterpreted')]
    if len(qf) < len(ts): stages += [(0.3, qf, 'quantifier-free')]
    for frac, fs, nm in stages:
        s = solver(tmo * frac); s.add(*fs); r = s.check()
        if r == z3.unsat: dt = time.time() - t0; STATS['time'] += dt; STATS['z3'] += 1; return 'proved', 'z3 (%s) %.2fs' % (nm, dt)
    s = solver(tmo); s.add(*ts)
    r = s.check()
    dt = time.time() - t0; STATS['time'] += dt
    if r == z3.unsat: STATS['z3'] += 1; return 'proved', 'z3 %.2fs' % dt
    info = 'z3: %s' % r
    model = None; exact = False
    if r == z3.sat:
        try: model = str(s.model())[:3000]
        except Exception: pass
        exact = not folded and not collect(ts, lambda t: z3.is_quantifier(t) or (z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED), 0) and not any(has_binder(t) or has_forall(t) for t in ts)
    if r == z3.unknown and fallback:
        t0 = time.time(); txt = smt2(ts)
        out = run_ext(['cvc5', '--tlimit=%d' % int(tmo * 1500), '--full-saturate-quant'], '(set-logic ALL)\n' + txt, tmo * 2)
        STATS['time'] += time.time() - t0
        if out == 'unsat': STATS['cvc5'] += 1; return 'proved', 'cvc5'
        info += '; cvc5: ' + out
        t0 = time.time(); out = run_ext(['z3', '-T:%d' % int(tmo * 1.5)], txt, tmo * 2); STATS['time'] += time.time() - t0
        if out == 'unsat': STATS['z3-4.8'] += 1; return 'proved', 'z3-4.8'
        info += '; z3-4.8: ' + out
    STATS['failed'] += 1
    return 'failed', {'result': info, 'exact': exact, 'model': model, 'goal': str(g)[:3000]}
