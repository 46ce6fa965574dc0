"""Contracts: functional specifications, registry, and the function-by-function verifier."""
import z3, time, re, os, traceback
from vals import *
import vals, solve, core
from core import Exec, State, Oblig, sv, And, EXC_BASES, ranged
from loops import leaves, eq_goals
import loops

class Spec:
    """What a contract says about one call. All values are read in the pre-state."""
    def __init__(self, X, st, obj, lvs, fn, mode):
        self.X = X; self.st = st; self.obj = obj; self.lvs = lvs; self.fn = fn; self.mode = mode; self.ty = None
        self.reqs = []; self.thr = []; self.throwset = []; self.assumes = []; self.sets = []; self.log = []; self.ret = None
        self.enss = []; self.hasret = False; self.mayt = []; self.onthr = []; self.lemmas = []
    def arg(self, i):
        v = self.X.read(self.st, self.lvs[i])
        if isinstance(v, Ref): v = self.X.read(self.st, v.lv)
        return v
    def vec(self, i): 
        from std import tovec
        return tovec(self.arg(i))
    def this(self): 
        v = self.X.read(self.st, self.obj)
        return v
    def fld(self, name): return self.X.read(self.st, self.obj.f(name))
    def require(self, c, name='precondition'): self.reqs.append((cs(c), name))
    def throws(self, exc, c=None): self.thr.append((exc, TRUE if c is None else cs(c)))
    def assume(self, f): self.assumes.append(f)
    def lemma(self, f, name='arithmetic lemma'):
        """a closed fact: proved on its own and then available"""
        self.lemmas.append((f, name)); self.assumes.append(f)
    def inst(self, f, *terms, name='arithmetic lemma'):
        """a valid fact about any values: proved for arbitrary ones on its own, then available for the given terms"""
        self.lemmas.append((f(*[fresh('l', t.sort()) for t in terms]), name)); self.assumes.append(f(*terms))
    def valid(self, f, n, name='arithmetic lemma'):
        """f holds for all integers: proved on its own (what it justifies is assumed separately)"""
        self.lemmas.append((f(*[fresh('l', I) for _ in range(n)]), name))
    def set(self, lv, v): self.sets.append((lv, v))
    def setthis(self, v): self.sets.append((self.obj, v))
    def returns(self, v): self.ret = v; self.hasret = True
    def may(self, exc, c=None):
        """the exception may be thrown (under c); nothing is required of c on normal return"""
        self.mayt.append((exc, TRUE if c is None else cs(c)))
    def onthrow(self, fn, name):
        """fn(read) -> condition on the state in which an exception leaves the function"""
        self.onthr.append((fn, name))
    def havoc(self, lv, sort):
        """the post-state value of lv is unspecified"""
        self.sets.append((lv, UNINIT if self.mode == 'verify' else fresh('post', sort) if sort is not None else self.X.havocked(self.st, lv)))
    def ensures(self, fn, name='postcondition'):
        """fn(ret, read) -> condition on the result / post-state; read(lv) reads the post-state"""
        self.enss.append((fn, name))

class Contract:
    def __init__(self, name, qn, fn, when=None, prop=None, ctor=False, short=None, verify=True, cfg=None, note='', alias=True, setup=None, tmo=6.0, budget=150, invs=None, vaccheck=False):
        self.name = name; self.qn = qn; self.fn = fn; self.when = when; self.prop = prop; self.ctor = ctor; self.short = short or qn.split('::')[-1]
        self.verify = verify; self.cfg = cfg or {}; self.note = note; self.alias = alias; self.setup = setup; self.tmo = tmo; self.budget = budget
        self.axiom = False; self.invs = invs or {}; self.vaccheck = vaccheck

class Registry:
    def __init__(self): self.by = {}; self.all = []; self.off = set()
    def add(self, c):
        self.by.setdefault(c.qn, []).append(c); self.all.append(c); return c
    def find(self, qn, info):
        for c in self.by.get(qn, []):
            if c.name in self.off: continue
            if c.when is None or c.when(info): return c
        return None
    def lookup(self, fn, e, key):
        qn = fn['qn'] if fn else e['qn']
        return self.find(qn, Info(fn, e))
    def lookup_ctor(self, t, e, fn):
        if t.n is None: return None
        return self.find(t.n + '::(ctor)', Info(fn, e, t))
class Info:
    """what a contract's applicability test may look at"""
    def __init__(self, fn, e, t=None):
        ps = (fn['ps'] if fn else e.get('ps')) or []
        self.ps = [p['t'] if isinstance(p, dict) else p for p in ps]
        self.np = len(self.ps); self.fn = fn
        self.cls = t.s if t is not None else (fn['cls'].s if fn and fn.get('cls') else (e or {}).get('qn', ''))
        self.sig = ','.join(p.s for p in self.ps)
REG = Registry()
def contract(qn, **kw):
    def d(f):
        n = kw.pop('name', None) or f.__name__
        return REG.add(Contract(n, qn, f, **kw))
    return d

def targets(P, c):
    """the functions of the current tree a contract governs"""
    old = (vals.cfg.absfield, vals.cfg.absprg, vals.cfg.abs)
    vals.cfg.absfield = c.cfg.get('absfield', True); vals.cfg.absprg = c.cfg.get('absprg', True); vals.cfg.abs = c.cfg.get('abs', ())
    try: return _targets(P, c)
    finally: vals.cfg.absfield, vals.cfg.absprg, vals.cfg.abs = old
def _targets(P, c):
    out = []
    for fn in P.byqn.get(c.qn, []):
        info = Info(fn, None, fn.get('cls') if fn.get('ctor') else None)
        if REG.find(c.qn, info) is c and (fn.get('body') is not None): out.append(fn)
    if c.qn.endswith('(ctor)'):
        for f in P.funcs.values():
            if f.get('ctor') and f.get('cls') is not None and f['cls'].n and f['cls'].n + '::(ctor)' == c.qn and f not in out:
                info = Info(f, None, f['cls'])
                if REG.find(c.qn, info) is c and f.get('body') is not None: out.append(f)
    return out

# ---------------- value comparison ----------------
TRIV = [0]; TRACE = float(os.environ.get('CVTRACE', '0'))
def vgoals(X, st, a, b, what=''):
    r = _vgoals(X, st, a, b, what)
    if not r and not (b is UNINIT or b is None or isinstance(b, Opaque)): TRIV[0] += 1
    return r
def _vgoals(X, st, a, b, what=''):
    """[(label, facts, goal)] for a == b (observable equality: only indices below the length count)"""
    if isinstance(a, Ref): a = X.read(st, a.lv)
    if isinstance(b, Ref): b = X.read(st, b.lv)
    if z3.is_expr(a) and z3.is_expr(b):
        if a.sort() == I and b.sort() == B: b = z3.If(b, iv(1), iv(0))
        if a.sort() == I and z3.is_bv(b): a = z3.BitVecVal(a.as_long(), b.size()) if z3.is_int_value(a) else core.I2B(a)
        if a.eq(b): return []
        return [(what, [], g) for g in [a == b]] if a.sort().kind() not in (z3.Z3_ARRAY_SORT,) else [(what, [], g) for g in eq_goals(a, b)]
    if isinstance(a, (Vec, Lst)) and isinstance(b, (Vec, Lst)):
        from std import tovec
        if isinstance(a, Lst) and isinstance(b, Lst) and len(a.xs) == len(b.xs):
            out = []
            for i, (x, y) in enumerate(zip(a.xs, b.xs)):
              if x is not y: out += vgoals(X, st, x, y, '%s[%d]' % (what, i))
            return out
        a, b = tovec(a), tovec(b); out = []
        if not a.n.eq(b.n): out.append((what + '.size', [], a.n == b.n))
        if not a.arr.eq(b.arr):
            j = fresh('ix', I); rng = [z3.And(0 <= j, j < b.n), z3.And(0 <= j, j < a.n)]
            for l, f, g in vgoals(X, st, unpack(sel(a.arr, j), a.et), unpack(sel(b.arr, j), b.et), what + '[i]'): out.append((l, rng + f, g))
        return out
    if isinstance(a, Rec) and isinstance(b, Rec):
        out = []
        for k in b.f:
            if k in a.f: out += vgoals(X, st, a.f[k], b.f[k], what + '.' + k)
        return out
    if isinstance(a, Opt) and isinstance(b, Opt):
        out = [(what + '.has', [], a.has == b.has)]
        if z3.is_expr(b.v) or isinstance(b.v, (Vec, Rec)):
            out += [(l, f + [b.has], g) for l, f, g in vgoals(X, st, a.v, b.v, what + '.value')]
        return out
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if not X.same(a.lv, b.lv): return [(what, [], FALSE)]
        if a.idx is None and b.idx is None: return []
        return [(what, [], (a.idx if a.idx is not None else iv(0)) == (b.idx if b.idx is not None else iv(0)))]
    if isinstance(a, Null) and isinstance(b, Null) or isinstance(b, Opaque): return []
    if isinstance(a, LV): return vgoals(X, st, X.read(st, a), b, what)
    if isinstance(b, LV): return vgoals(X, st, a, X.read(st, b), what)
    if b is UNINIT or b is None: return []
    return [(what + ' (structure %s/%s)' % (type(a).__name__, type(b).__name__), [], FALSE)]

class Result:
    def __init__(self, target): self.target = target; self.obls = []; self.failed = []; self.undecided = None; self.notes = []; self.used = []; self.inlined = []; self.time = 0; self.loops = 0; self.invs = 0; self.unsolved = 0; self.vac = None; self.paths = 0; self.triv = 0

def isexc(a, b):
    while a:
        if a == b: return True
        a = EXC_BASES.get(a)
    return False

def alias_variants(fn, self_t):
    """[(name, [(param index, 'this' | 'elem' | other index)])]"""
    out = [('', [])]
    ps = [p['t'] for p in fn['ps']]
    base = lambda t: t.strip().s.replace('const ', '')
    for i, p in enumerate(ps):
        if p.k != 'ref' or p.rv: continue
        if self_t is not None and not fn.get('ctor') and base(p) == self_t.s and not fn.get('cst'): out.append(('%s=*this' % fn['ps'][i]['n'], [(i, 'this')]))
        for j in range(i + 1, len(ps)):
            q = ps[j]
            if q.k != 'ref' or q.rv: continue
            mut = not (p.t.c and q.t.c)
            if base(p) == base(q) and mut: out.append(('%s=%s' % (fn['ps'][j]['n'], fn['ps'][i]['n']), [(j, i)]))
            if mut and not p.t.c and is_vecty(p.strip()) and base(elemty(p.strip()) if p.strip().k != 'arr' else p) == base(q):
                out.append(('%s in %s' % (fn['ps'][j]['n'], fn['ps'][i]['n']), [(j, ('elem', i))]))
    return out

def verify_fn(P, fn, c, budget=None, only=None):
    """verify one function against its contract; returns Result"""
    import vals
    res = Result('%s [%s]' % (fn['qn'], c.name)); t0 = time.time(); tr0 = TRIV[0]
    old = (vals.cfg.absfield, vals.cfg.absprg, vals.cfg.abs)
    vals.cfg.absfield = c.cfg.get('absfield', True); vals.cfg.absprg = c.cfg.get('absprg', True); vals.cfg.abs = c.cfg.get('abs', ())
    deadline = t0 + (budget or c.budget)
    try:
        self_t = fn['cls'] if fn.get('cls') is not None and not fn.get('static') else None
        variants = alias_variants(fn, self_t) if c.alias else [('', [])]
        for vn, al in variants:
            try:
                if c.cfg.get('cases'):
                    for v in (c.cfg['cases'][1] if only is None else [only] if only != '?' else []): verify_variant(P, fn, c, self_t, (vn + ' ' if vn else '') + '%s=%d' % (c.cfg['cases'][0], v), al, res, deadline, (c.cfg['cases'][0], v))
                if only is None or only == '?': verify_variant(P, fn, c, self_t, vn, al, res, deadline, ('?',) + c.cfg['cases'] if c.cfg.get('cases') else None)
            except Unsup as ex:
                res.undecided = '%s%s: %s (line %s)' % (vn and vn + ': ', 'unsupported', ex, getattr(ex, 'line', '?')); res.tb = traceback.format_exc()
            except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, NotImplementedError) as ex:
                res.undecided = '%s%s: %s' % (vn and vn + ': ', type(ex).__name__, ex); res.tb = traceback.format_exc()
    finally:
        vals.cfg.absfield, vals.cfg.absprg, vals.cfg.abs = old
        REG.off.discard(c.name)
    res.time = time.time() - t0; res.triv = TRIV[0] - tr0
    return res

def verify_variant(P, fn, c, self_t, vn, al, res, deadline, case=None):
    X = Exec(P, Ctx(c, fn), fn); X.deadline = deadline; X.target = fn
    X.bv = c.cfg.get('bv', False); X.imul = c.cfg.get('imul', False); X.noclosed = c.cfg.get('noclosed', False); X.unroll = c.cfg.get('unroll', 0)
    st = State(); 
    obj = None
    isctor = bool(fn.get('ctor'))
    if self_t is not None:
        if isctor: obj = X.new(st, UNINIT, 'this')
        else:
            if c.setup: obj = c.setup(X, st, fn)
            if obj is None: obj = X.new(st, X.symval(st, self_t, 'this'), 'this')
            if case and case[0] != '?': X.write(st, obj.f(case[0]), iv(case[1]))
    lvs = []
    almap = dict(al)
    for i, p in enumerate(fn['ps']):
        t = p['t']; nm = p['n'] or 'a%d' % i
        if i in almap:
            a = almap[i]
            if a == 'this': lvs.append(obj)
            elif isinstance(a, tuple):
                v = X.read(st, lvs[a[1]]); e = fresh('ael', I); st.facts.append(z3.And(e >= 0, e < v.n)); lvs.append(lvs[a[1]].i(e))
            else: lvs.append(lvs[a])
            continue
        custom = c.cfg.get('param', {}).get(nm) or c.cfg.get('param', {}).get(i)
        if custom: v = custom(X, st, t)
        elif t.k == 'ptr' and t.t.k in ('int', 'void'):
            n = fresh(nm + '_len', I); st.facts.append(z3.And(n >= 0, n < core.MAXSZ))
            v = Ptr(X.new(st, Vec(n, fresh(nm, z3.ArraySort(I, I)), t.t if t.t.k == 'int' else P.types['unsigned char'], 'raw'), nm), iv(0))
        else: v = X.symval(st, t.strip() if t.k == 'ref' else t, nm)
        lvs.append(X.new(st, v, nm))
    if c.cfg.get('os'): c.cfg['os'](X, st)
    pre = st.copy()
    sp = Spec(X, pre, obj, lvs, fn, 'verify'); sp.ty = self_t
    c.fn(sp)
    X.spec = sp; X.invmap = invmap(P, fn, c)
    st.facts = list(pre.facts)
    st.cells = dict(pre.cells)
    for g, nm in sp.reqs:
        if not z3.is_true(g): st.facts.append(g)
    for g in sp.assumes: st.facts.append(g)
    # vacuity
    r = solve.quick(st.facts, None, 2000)
    if r == z3.unsat: res.failed.append(('contract precondition is unsatisfiable' + (vn and ' [' + vn + ']'), {'result': 'vacuous'}, 0)); return
    if case and case[0] == '?':       # the cases cover every value the precondition allows
        g = z3.Or(*[X.read(st, obj.f(case[1])) == v for v in case[2]]); r, info = solve.prove(st.all(), g, c.tmo); res.obls.append(('the cases are exhaustive', r, info if isinstance(info, str) else info['result']))
        if r != 'proved': res.failed.append(('the cases are exhaustive', info, None))
        return
    expect = st.copy()
    for lv, v in sp.sets: X.write(expect, lv, v)
    tag = vn and ' [%s]' % vn
    if isctor:
        outs = [('ctor', s, v) for s, v in X.construct(st, self_t, fn, lvs_args(fn, lvs), None)]
        outs = [(s, v) for _, s, v in outs]
    else:
        args = lvs_args(fn, lvs)
        outs = X.inline(st, fn, obj, args)
    res.loops += X.loops; res.invs += getattr(X, 'invs', 0); res.unsolved += X.unsolved; res.notes += X.notes; res.paths += len(outs) + len(X.sink)
    todo = [(nm + tag, [], f, None) for f, nm in sp.lemmas]
    todo += [(o.name + ' (line %s)' % o.line + tag, o.facts, o.goal, o.line) for o in X.obl]
    for k, (s, v) in enumerate(outs):
        ptag = tag + (' path %d' % k if len(outs) > 1 else '')
        fx = s.all()
        if solve.quick(fx, None, 300) == z3.unsat: continue
        for exc, g in sp.thr:
            if not z3.is_false(g): todo.append(('returns normally only if not (%s condition)%s' % (exc, ptag), fx, z3.Not(g), None))
        if isctor:
            want = [w for l, w in sp.sets if l is obj or (l.c == obj.c and not l.p)]
            if want: todo += [(w + ptag, fx + f, g, None) for w, f, g in vgoals(X, s, v, want[-1], 'constructed object')]
        elif sp.hasret and fn['ret'].k != 'void':
            rv = X.read(s, v) if isinstance(v, LV) else v
            if isinstance(sp.ret, LV):
                if isinstance(v, LV) and X.same(v, sp.ret): pass
                else: todo += [(w + ptag, fx + f, g, None) for w, f, g in vgoals(X, s, rv, X.read(expect, sp.ret), 'result')]
            else: todo += [(w + ptag, fx + f, g, None) for w, f, g in vgoals(X, s, rv, sp.ret, 'result')]
        for efn, nm in sp.enss:
            rv = X.read(s, v) if isinstance(v, LV) else v
            gs = efn(rv, lambda lv: X.read(s, lv))
            for g in (gs if isinstance(gs, list) else [gs]): todo.append((nm + ptag, fx, g, None))
        skip = {lvs[i].c for i, p in enumerate(fn['ps']) if p['t'].k == 'ref' and p['t'].rv} | ({lv.c for i, lv in enumerate(lvs) if fn['ps'][i]['t'].k != 'ref'})
        skip |= set(getattr(sp, 'skipcells', ()))
        for cell, ev in expect.cells.items():
            if cell in skip or cell.startswith('g:'): continue
            if isctor and cell == obj.c: continue
            av = s.cells.get(cell)
            if av is ev: continue
            todo += [(w + ptag, fx + f, g, None) for w, f, g in vgoals(X, s, av, ev, 'final value of ' + re.sub(r'\d+$', '', cell))]
        want = sp.log
        if (want or s.log) and getattr(sp, 'cmplog', None): todo += sp.cmplog(X, s, ptag)
        elif s.log and not want: todo.append(('no unspecified communication' + ptag, fx, FALSE, None))
        elif want: todo += cmp_log(X, s, s.log, want, fx, ptag)
    if (c.invs or c.vaccheck) and outs:
        live = False
        for s, v in outs[:4]:
            if solve.prove(s.all(), FALSE, 1.5, fallback=False)[0] != 'proved': live = True; break
        if not live: res.failed.append(('every return is unreachable under the precondition' + tag, {'result': 'vacuous'}, 0))
    for kd, s, exc, line in X.sink:
        fx = s.all()
        if solve.quick(fx, None, 300) == z3.unsat: continue
        cond = [g for e2, g in sp.thr + sp.mayt if isexc(exc, e2)]
        for efn, nm in sp.onthr:
            gs = efn(lambda lv: X.read(s, lv))
            for g in (gs if isinstance(gs, list) else [gs]): todo.append(('%s (line %s)%s' % (nm, line, tag), fx, g, line))
        todo.append(('%s thrown only under its condition (line %s)%s' % (exc, line, tag), fx, z3.Or(*cond) if cond else FALSE, line))
    for nm, fx, g, line in todo:
        if time.time() > deadline: raise Unsup('time budget exceeded with obligations pending')
        t1 = time.time(); r, info = solve.prove(fx, g, c.tmo)
        if TRACE and time.time() - t1 > TRACE: print('   %5.1fs %s %s' % (time.time() - t1, r, nm), info if isinstance(info, str) else info['result'], flush=True)
        res.obls.append((nm, r, info if isinstance(info, str) else info['result']))
        if r != 'proved': res.failed.append((nm, info, line))
    res.used += [u for u in X.used]; res.inlined += list(X.inlined)

def cmp_log(X, s, got, want, fx, ptag):
    if len(got) != len(want): return [('communication sequence (%d events, %d specified)%s' % (len(got), len(want), ptag), fx, FALSE, None)]
    out = []
    for i, (a, b) in enumerate(zip(got, want)):
        if a[0] != b[0]: out.append(('communication event %d is %s' % (i, b[0]) + ptag, fx, FALSE, None)); continue
        for x, y in zip(a[1:], b[1:]): out += [(w + ptag, fx + f, g, None) for w, f, g in vgoals(X, s, x, y, 'communication event %d' % i)]
    return out

def lvs_args(fn, lvs): return list(lvs)

def loops_of(body):
    """bodies of the loops of a function, in source order"""
    out = []
    def go(n):
        if isinstance(n, dict):
            if n.get('s') in ('for', 'while', 'do', 'rfor'): out.append(n['b'])
            for k, v in n.items():
                if isinstance(v, (dict, list)): go(v)
        elif isinstance(n, list):
            for x in n: go(x)
    go(body); return out
def invmap(P, fn, c):
    """loop body -> supplied invariant; keys of c.invs: ordinal in the verified function, or (callee, ordinal)"""
    m = {}
    for k, f in c.invs.items():
        if k == '*': m['*'] = f; continue       # every loop without an invariant of its own
        fns = [fn] if isinstance(k, int) else P.byqn.get(k[0], []); o = k if isinstance(k, int) else k[1]
        for g in fns:
            ls = loops_of(g.get('body'))
            if o < len(ls): m[id(ls[o])] = f
    return m
class Ctx:
    """lookup used while verifying fn: the contract of fn itself is not used for its own body except for recursion"""
    def __init__(self, c, fn): self.c = c; self.key = fn['k']; self.first = True
    def lookup(self, fn, e, key):
        r = REG.lookup(fn, e, key)
        return r
    def lookup_ctor(self, t, e, fn): return REG.lookup_ctor(t, e, fn)
