"""The index structure of replicated sharing: binomials, lexicographic enumeration of subsets, tables of a replicator (C09).
The combinatorial facts assumed here (comb_facts, choose_facts) are the theorems of lean/Comb.lean, checked by Lean in every run."""
from contract import *
from specs_field import *
import itertools, specs_field, vals, solve
SS = 'frn::lib::secret_sharing::'; RP = SS + 'Replicator::'
def MP(*ts):
    keep = list(ts); return z3.MultiPattern(*keep)     # z3.MultiPattern does not keep its arguments alive
def patok(t):
    if z3.is_quantifier(t): return False
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT): return False
    return all(patok(c) for c in t.children())
def FA(vs, body, patterns=()):
    ps = [p for p in patterns if isinstance(p, z3.PatternRef) or z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and patok(p) or z3.is_app(p) and p.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR) and patok(p)]
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
CHOOSE = z3.Function('choose', I, I, I)
GID = z3.Function('enumof', I, I, I)               # the enumeration of k-subsets of m parties
COMB = z3.Function('comb', I, I, I, I)             # (enumeration, e, i): i-th member of the e-th subset
PIV = z3.Function('pivot', I, I, I)                # (enumeration, e): last position that can be increased, -1 for the last subset
MEM = z3.Function('member', I, I, I, B)            # (enumeration, e, p)
RNK = z3.Function('memrank', I, I, I, I)           # (enumeration, e, p): members of the e-th subset below p
CNT = z3.Function('memcount', I, I, I, I)          # (enumeration, p, e): subsets before e with member p
ISIDX = z3.Function('isindex', I, I, B); CALLS = itertools.count()       # trigger only
DIFF = z3.Function('differ', I, I, I, I)           # (enumeration, e, f): a position where the e-th and f-th subset differ
def item(v, k): return unpack(sel(v.arr, k), v.et)
def isrep(i): return vals.cfg.absfield and 'Mp61' in i.cls
def rd_(X, st, v): return X.read(st, v.lv) if isinstance(v, Ref) else v
def choose_facts(M):
    """Comb.lean: choose_step, choose_mono (with M fixed)"""
    i, e = fresh('i', I), fresh('e', I)
    return [FA([i], z3.Implies(i >= 0, CHOOSE(M, 0) == 1)), FA([i], z3.Implies(z3.And(M >= 0, i >= 1), CHOOSE(M + i, i) * i == CHOOSE(sv(M + i - 1), i - 1) * (M + i)), patterns=[CHOOSE(M + i, i)])]
def comb_facts(m, k):
    """Comb.lean, for 0 <= k <= m: Enum (definition of COMB), enum_pivot, enum_increasing, enum_bound, enum_injective, enum_count, rank_*"""
    g = GID(m, k); A = CHOOSE(m, k); e, f, i, j, p = (fresh(x, I) for x in 'efijp'); C = lambda e, i: COMB(g, e, i)
    ine, ini = z3.And(0 <= e, e < A), z3.And(0 <= i, i < k); P = PIV(g, e)
    return [FA([i], z3.Implies(ini, C(iv(0), i) == i), patterns=[C(iv(0), i)]),
            FA([e], z3.Implies(ine, z3.And(P >= -1, P < k, (P >= 0) == (e + 1 < A), z3.Implies(P >= 0, C(e, P) < m - k + P))), patterns=[P]),
            FA([e, j], z3.Implies(z3.And(ine, P < j, j < k), C(e, j) >= m - k + j), patterns=[MP(P, C(e, j))]),
            FA([e, f, j], z3.Implies(z3.And(ine, f == e + 1, f < A, 0 <= j, j < k), C(f, j) == z3.If(j < P, C(e, j), C(e, P) + 1 + (j - P))), patterns=[MP(P, C(f, j))]),
            FA([e, i], z3.Implies(z3.And(ine, ini), z3.And(C(e, i) >= 0, C(e, i) < m, C(e, i) <= m - k + i)), patterns=[C(e, i)]),
            FA([e, i, j], z3.Implies(z3.And(ine, 0 <= i, i < j, j < k), C(e, i) < C(e, j)), patterns=[MP(C(e, i), C(e, j))]),
            FA([e, f], z3.Implies(z3.And(ine, 0 <= f, f < A, e != f), z3.And(DIFF(g, e, f) >= 0, DIFF(g, e, f) < k, C(e, DIFF(g, e, f)) != C(f, DIFF(g, e, f)))), patterns=[DIFF(g, e, f)]),
            FA([e, i], z3.Implies(z3.And(ine, ini), z3.And(MEM(g, e, C(e, i)), RNK(g, e, C(e, i)) == i)), patterns=[C(e, i)]),
            FA([e, p], z3.Implies(z3.And(ine, 0 <= p, p < m, MEM(g, e, p)), z3.And(RNK(g, e, p) >= 0, RNK(g, e, p) < k, C(e, RNK(g, e, p)) == p)), patterns=[MEM(g, e, p)]),
            FA([e], RNK(g, e, 0) == 0, patterns=[RNK(g, e, 0)]),
            FA([e, p], z3.Implies(z3.And(ine, 0 <= p, p < m), RNK(g, e, p + 1) == RNK(g, e, p) + z3.If(MEM(g, e, p), 1, 0)), patterns=[MEM(g, e, p)]),
            FA([e, p], z3.Implies(z3.And(ine, 0 <= p, p <= m), z3.And(RNK(g, e, p) >= 0, RNK(g, e, p) <= k)), patterns=[RNK(g, e, p)]),
            FA([e], z3.Implies(ine, RNK(g, e, m) == k), patterns=[RNK(g, e, m)]),
            FA([p], CNT(g, p, 0) == 0, patterns=[CNT(g, p, 0)]),
            FA([p, e, f], z3.Implies(z3.And(e >= 0, f == e + 1), CNT(g, p, f) == CNT(g, p, e) + z3.If(MEM(g, e, p), 1, 0)), patterns=[MP(CNT(g, p, e), CNT(g, p, f)), MP(MEM(g, e, p), CNT(g, p, f))]),
            FA([p, e], z3.Implies(e >= 0, z3.And(CNT(g, p, e) >= 0, CNT(g, p, e) <= e)), patterns=[CNT(g, p, e)]),
            FA([p, e, f], z3.Implies(z3.And(0 <= e, e <= f), CNT(g, p, e) <= CNT(g, p, f)), patterns=[MP(CNT(g, p, e), CNT(g, p, f))]),
            FA([p], z3.Implies(z3.And(0 <= p, p < m), CNT(g, p, A) == CHOOSE(sv(m - 1), sv(k - 1))), patterns=[CNT(g, p, A)])]
TRG = {so: z3.Function('trigger_%s' % so, so, B) for so in (I, B)}
def hint(L, *ts):
    """mentions terms the solver should instantiate facts at"""
    for x in ts: L.st.facts.append(TRG[x.sort()](x))
def pivhint(s, L, g, comb):
    hint(L, PIV(g, L.k), COMB(g, L.k, PIV(g, L.k)))
    if L.head is not None:
        q = sv(L.k - 1); P = PIV(g, q); hint(L, P, COMB(g, q, P), sel(comb(L.head).arr, P))
# ---------- binomials ----------
def binom_inv(s, L):
    m, k = s.arg(0), s.arg(1); e = z3.If(k > m - k, sv(m - k), k); M = sv(m - e); q = L.k
    r = L.get('result'); i = L.get('i')
    for t in (q, sv(q + 1)): L.st.facts += [z3.Implies(t >= 1, CHOOSE(M + t, t) * t == CHOOSE(M + t - 1, t - 1) * (M + t)), z3.Implies(z3.And(0 <= t, t <= e), CHOOSE(M + t, t) <= CHOOSE(M + e, e))]
    L.st.facts += [CHOOSE(M, 0) == 1, CHOOSE(M, iv(0)) == 1]
    L.lemma(lambda x, y, z, w: z3.Implies(z3.And(y > 0, x * y == z * w), (z * w) / y == x), CHOOSE(M + q, q), q, CHOOSE(M + q - 1, q - 1), M + q)
    L.lemma(lambda x, y: z3.Implies(z3.And(0 <= x, x < 2 ** 31, 0 <= y, y < 2 ** 31), z3.And(x * y >= 0, x * y < 2 ** 62)), CHOOSE(M + q, q), M + q + 1)
    L.lemma(lambda x, y: z3.Implies(z3.And(0 <= x, x < 2 ** 31, 0 <= y, y < 2 ** 31), z3.And(x * y >= 0, x * y < 2 ** 62)), CHOOSE(M + q - 1, q - 1), M + q)
    return [('counter', i == q + 1), ('partial binomial', z3.And(r == CHOOSE(M + q, q), r >= 0, q <= e))]
@contract(SS + 'Binom', prop='C09', invs={0: binom_inv}, tmo=20.0)
def binom(s):
    m, k = s.arg(0), s.arg(1); e = z3.If(k > m - k, sv(m - k), k)
    s.require(z3.And(k <= m, m < 2 ** 31), 'k at most m'); s.require(CHOOSE(m, k) < 2 ** 31, 'the binomial coefficient is below 2^31')
    s.assume(CHOOSE(m, sv(m - k)) == CHOOSE(m, k)); s.assume(CHOOSE(m, k) >= 0)     # Comb.lean: choose_symmetric
    s.returns(CHOOSE(m, k))
# ---------- enumeration ----------
def next_outer(s, L):
    m, k = s.arg(1), s.arg(2); c0 = s.vec(0); c = rd_(s.X, L.st, s.X.read(L.st, s.lvs[0])); i = L.get('i'); j = fresh('j', I)
    return [('position', i == k - 1 - L.k), ('unchanged', z3.And(c.n == c0.n, FA([j], sel(c.arr, j) == sel(c0.arr, j)))),
            ('no later position can be increased', FA([j], z3.Implies(z3.And(i < j, j < k), sel(c0.arr, j) >= m - k + j)))]
@contract(SS + 'NextCombination', prop='C09', invs={0: next_outer}, tmo=15.0)
def next_comb(s):
    c, m, k = s.vec(0), s.arg(1), s.arg(2); p = fresh('piv', I); j = fresh('j', I); a = lambda j: sel(c.arr, j)
    s.require(z3.And(1 <= k, k <= m, k <= c.n), 'k members of m'); s.require(FA([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(a(j) >= 0, a(j) <= m - k + j))), 'members in range')
    s.assume(z3.And(p >= -1, p < k)); s.assume(z3.Implies(p >= 0, a(p) < m - k + p)); s.assume(FA([j], z3.Implies(z3.And(p < j, j < k), a(j) >= m - k + j)))    # p is defined by this
    s.returns(p >= 0); s.set(s.lvs[0], Vec(c.n, lam(lambda j: z3.If(z3.And(p >= 0, p <= j, j < k), a(p) + 1 + (j - p), a(j))), c.et, c.kind))
def nth_inv(s, L):
    n0, m = s.arg(1), s.arg(2); k = s.vec(0).n; c = rd_(s.X, L.st, s.X.read(L.st, s.lvs[0])); n = L.get('n'); j = fresh('j', I); g = GID(m, k)
    pivhint(s, L, g, lambda M: rd_(s.X, M.st, s.X.read(M.st, s.lvs[0])))
    return [('counter', z3.And(n == n0 - L.k, L.k <= n0)), ('length', c.n == k), ('combination', FA([j], z3.Implies(z3.And(0 <= j, j < k), sel(c.arr, j) == COMB(g, L.k, j)), patterns=[sel(c.arr, j), COMB(g, L.k, j)]))]
@contract(SS + 'NthCombination', prop='C09', invs={1: nth_inv}, tmo=15.0)
def nth_comb(s):
    c, n, m = s.vec(0), s.arg(1), s.arg(2); k = c.n
    s.require(z3.And(1 <= k, k <= m, m < 2 ** 31), 'k members of m'); s.require(z3.And(0 <= n, n < CHOOSE(m, k), CHOOSE(m, k) < 2 ** 31), 'index of a combination')
    for f in comb_facts(m, k): s.assume(f)
    s.set(s.lvs[0], Vec(k, lam(lambda j: z3.If(z3.And(0 <= j, j < k), COMB(GID(m, k), n, j), sel(c.arr, j))), c.et, c.kind))
# ---------- tables ----------
def enum_of(r): n, t = r.f['mSize'], r.f['mThreshold']; return n, sv(n - t), GID(n, sv(n - t))
def lk(r, p, j): return sel(item(r.f['mLookup'], p).arr, j)
def filled(r, e, lens=None):
    """the first e combinations are in every table"""
    n, k, g = enum_of(r); f, i, p, j = (fresh(x, I) for x in 'fipj'); cs_, look, ks, vs = r.f['mCombinations'], r.f['mLookup'], r.f['mRevComb'].f['$keys'], r.f['mRevComb'].f['$vals']
    out = table_facts(r, e)
    out += [('reverse map size', z3.And(ks.n == e, vs.n == e)),
            ('reverse map keys', FA([f, i], z3.Implies(z3.And(0 <= f, f < e, 0 <= i, i < k), sel(item(ks, f).arr, i) == COMB(g, f, i)), patterns=[sel(item(ks, f).arr, i)])),
            ('reverse map key sizes', FA([f], z3.Implies(z3.And(0 <= f, f < e), z3.And(item(ks, f).n == k, sel(vs.arr, f) == f)), patterns=[item(ks, f).n]))]
    out += [('index set sizes', FA([p], z3.Implies(z3.And(0 <= p, p < n), item(look, p).n == CNT(g, p, e)), patterns=[item(look, p).n])), ('one index set per party', look.n == n)]
    return out + members(r, e)
def table_facts(r, e):
    n, k, g = enum_of(r); f, i = fresh('f', I), fresh('i', I); cs_ = r.f['mCombinations']
    return [('combination table size', z3.And(cs_.n == r.f['mAdditiveShareSize'])),
            ('combination sizes', FA([f], z3.Implies(z3.And(0 <= f, f < e), item(cs_, f).n == k), patterns=[item(cs_, f).n])),
            ('combinations', FA([f, i], z3.Implies(z3.And(0 <= f, f < e, 0 <= i, i < k), sel(item(cs_, f).arr, i) == COMB(g, f, i)), patterns=[sel(item(cs_, f).arr, i)]))]
def members(r, e):
    n, k, g = enum_of(r); p, j, f = (fresh(x, I) for x in 'pjf'); inp = z3.And(0 <= p, p < n)
    return [('index sets: positions', FA([p, j], z3.Implies(z3.And(inp, 0 <= j, j < CNT(g, p, e)), z3.And(lk(r, p, j) >= 0, lk(r, p, j) < e, MEM(g, lk(r, p, j), p), CNT(g, p, lk(r, p, j)) == j)), patterns=[lk(r, p, j)])),
            ('index sets: members', FA([p, f], z3.Implies(z3.And(inp, 0 <= f, f < e, MEM(g, f, p)), z3.And(CNT(g, p, f) < CNT(g, p, e), lk(r, p, CNT(g, p, f)) == f)), patterns=[MEM(g, f, p)]))]
def init_outer(s, L):
    r = s.X.read(L.st, s.obj); n, k, g = enum_of(r); e = sv(L.k + 1); c = L.get('combination'); j = fresh('j', I); t = L.get('share_idx')
    pivhint(s, L, g, lambda M: M.get('combination'))
    r0 = s.X.read(L.base, s.obj); same = [('sizes', z3.And(*[r.f[x] == r0.f[x] for x in ('mSize', 'mThreshold', 'mShareSize', 'mAdditiveShareSize')]))]
    return [('index', z3.And(t == e, e <= CHOOSE(n, k), c.n == k)), ('combination', FA([j], z3.Implies(z3.And(0 <= j, j < k), sel(c.arr, j) == COMB(g, L.k, j)), patterns=[sel(c.arr, j), COMB(g, L.k, j)]))] + filled(r, e)
def init_inner(s, L):
    r, r0 = s.X.read(L.st, s.obj), s.X.read(L.base, s.obj); n, k, g = enum_of(r); e = L.get('share_idx'); p, j = fresh('p', I), fresh('j', I); look, l0 = r.f['mLookup'], r0.f['mLookup']; q = L.k
    inp = z3.And(0 <= p, p < n); new = z3.And(MEM(g, e, p), RNK(g, e, p) < q)
    hint(L, COMB(g, e, q))
    if L.head is not None: hint(L, COMB(g, e, sv(q - 1)))
    c = L.get('combination')
    return [('the combination', FA([j], z3.Implies(z3.And(0 <= j, j < k), sel(c.arr, j) == COMB(g, e, j)), patterns=[sel(c.arr, j), COMB(g, e, j)])), ('one index set per party', look.n == n), ('index set sizes', FA([p], z3.Implies(inp, item(look, p).n == item(l0, p).n + z3.If(new, 1, 0)), patterns=[item(look, p).n])),
            ('earlier indices', FA([p, j], z3.Implies(z3.And(inp, 0 <= j, j < item(l0, p).n), lk(r, p, j) == lk(r0, p, j)), patterns=[lk(r, p, j)])),
            ('the new index', FA([p], z3.Implies(z3.And(inp, new), lk(r, p, item(l0, p).n) == e), patterns=[MEM(g, e, p)]))]
def two_pointers(s, L):
    a, b, c, d = (L.get(x) for x in ('first1', 'last1', 'first2', 'last2')); n1, n2 = s.X.read(L.st, a.lv).n, s.X.read(L.st, c.lv).n
    return [('positions', z3.And(a.idx >= 0, a.idx <= n1, b.idx == n1, c.idx >= 0, c.idx <= n2, d.idx == n2, L.get('i') == a.idx))]
diff_inv = two_pointers
def structure(r):
    """what a constructed replicator satisfies"""
    n, k, g = enum_of(r); A, S, t = r.f['mAdditiveShareSize'], r.f['mShareSize'], r.f['mThreshold']
    return [('sizes', z3.And(t >= 1, t < n, A == CHOOSE(n, t), A == CHOOSE(n, k), S == CHOOSE(sv(n - 1), t), S == CHOOSE(sv(n - 1), sv(k - 1))))] + filled(r, A)
def increasing(r):
    n, k, g = enum_of(r); S = r.f['mShareSize']; p, i, j = (fresh(x, I) for x in 'pij')
    return [('index sets are increasing', FA([p, i, j], z3.Implies(z3.And(0 <= p, p < n, 0 <= i, i < j, j < S), lk(r, p, i) < lk(r, p, j)), patterns=[MP(lk(r, p, i), lk(r, p, j))]))]
def sizes_pre(s, n, t):
    k = sv(n - t); v = z3.And(t >= 1, t < n)
    s.require(z3.Implies(v, z3.And(n < 2 ** 31, CHOOSE(n, t) < 2 ** 31)), 'fewer than 2^31 additive shares')
    s.assume(z3.Implies(v, z3.And(CHOOSE(n, k) == CHOOSE(n, t), CHOOSE(sv(n - 1), sv(k - 1)) == CHOOSE(sv(n - 1), t), CHOOSE(sv(n - 1), t) <= CHOOSE(n, t), CHOOSE(sv(n - 1), t) >= 1)))    # Comb.lean: choose_symmetric, choose_sub
@contract(RP + 'Init', prop='C09', when=isrep, invs={1: init_outer, 2: init_inner, (SS + 'Difference', 0): diff_inv, (SS + 'Difference', 1): diff_inv}, tmo=20.0, budget=300)
def rep_init(s):
    r = s.this(); n, k, g = enum_of(r); t = r.f['mThreshold']; A, S = r.f['mAdditiveShareSize'], r.f['mShareSize']
    s.require(z3.And(t >= 1, t < n), 'threshold below the number of parties'); sizes_pre(s, n, t)
    s.require(z3.And(A == CHOOSE(n, t), S == CHOOSE(sv(n - 1), t)), 'sizes are set'); s.require(z3.And(*[x.n == 0 for x in (r.f['mCombinations'], r.f['mLookup'], r.f['mRevComb'].f['$keys'], r.f['mRevComb'].f['$vals'])]), 'tables are empty')
    for f in comb_facts(n, k): s.assume(f)
    post(s, r)
def post(s, r):
    for x in ('mCombinations', 'mLookup', 'mRevComb', 'mDifferenceSize'): s.havoc(s.obj.f(x), None)
    names = [x for x, _ in structure(r)]
    for i, nm in enumerate(names): s.ensures(lambda v, read, i=i: structure(read(s.obj))[i][1], nm)
@contract(RP + '(ctor)', prop='C09', when=lambda i: isrep(i) and i.np == 2, tmo=20.0, vaccheck=True)
def rep_ctor(s):
    n, t = s.arg(0), s.arg(1); sizes_pre(s, n, t); s.throws('std::invalid_argument', z3.Or(t == 0, t >= n))
    ty = s.fn['cls'] if s.fn.get('cls') is not None else s.ty; s.setthis(UNINIT if s.mode == 'verify' else s.X.symval(s.st, ty, 'replicator'))
    def obs(v, read):
        r = v if isinstance(v, Rec) else read(s.obj); return [('arguments', z3.And(r.f['mSize'] == n, r.f['mThreshold'] == t))] + structure(r) + specs_rep.wf_facts(r) + specs_rep.holder_facts(r) + increasing(r)
    import specs_rep
    if s.mode == 'verify':
        for f in comb_facts(n, sv(n - t)): s.assume(z3.Implies(z3.And(t >= 1, t < n), f))
    for i, nm in enumerate([x for x, _ in obs(s.X.symval(s.st, ty, 'replicator'), None)]): s.ensures(lambda v, read, i=i: obs(v, read)[i][1], nm)
def getter(name, f, when=None): REG.add(Contract('rep_' + name, RP + name, f, prop='C09', when=lambda i: isrep(i)))
for nm, fld in (('Size', 'mSize'), ('Threshold', 'mThreshold'), ('AdditiveShareSize', 'mAdditiveShareSize'), ('ShareSize', 'mShareSize')): getter(nm, lambda s, fld=fld: s.returns(s.fld(fld)))
def g_comb(s):
    e = s.arg(0); c = s.fld('mCombinations'); s.require(z3.And(e >= 0, e < c.n), 'index of an additive share'); s.returns(item(c, e))
getter('Combination', g_comb)
def g_set(s):
    p = s.arg(0); c = s.fld('mLookup'); s.require(z3.And(p >= 0, p < c.n), 'party'); s.returns(item(c, p))
getter('IndexSetFor', g_set)
def g_rev(s):
    """the index of the given combination; out_of_range for anything else"""
    r = s.this(); v = s.vec(0); n, k, g = enum_of(r); A = r.f['mAdditiveShareSize']; s.require(z3.And(1 <= k, k < n, A == CHOOSE(n, k), A < 2 ** 31), 'sizes')
    for nm, f in filled(r, A): s.require(f, nm)
    for f in comb_facts(n, k): s.assume(f)
    e, i = fresh('e', I), fresh('i', I); w = fresh('idx', I); same = lambda e: z3.And(v.n == k, FA([i], z3.Implies(z3.And(0 <= i, i < k), sel(v.arr, i) == COMB(g, e, i)), patterns=[COMB(g, e, i)]))
    # w is defined by this: the index of v if it is a combination, -1 otherwise
    s.assume(z3.And(w >= -1, w < A)); s.assume(z3.Implies(w >= 0, same(w))); s.assume(z3.Implies(w < 0, FA([e], z3.Implies(z3.And(0 <= e, e < A), z3.Not(z3.And(v.n == k, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), sel(v.arr, i) == COMB(g, e, i)))))))))
    vs = r.f['mRevComb'].f['$vals']; D = DIFF(g, e, w)
    s.assume(FA([e], z3.Implies(z3.And(0 <= e, e < A, w >= 0, e != w), z3.And(D >= 0, D < k, COMB(g, e, D) != COMB(g, w, D))), patterns=[sel(vs.arr, e)]))    # enum_injective at the key that is found
    if s.mode != 'verify':
        # the same with the position of a difference named (every combination other than w differs from v somewhere)
        d = z3.Function('differs!%d' % next(CALLS), I, I); s.assume(FA([e], z3.Implies(z3.And(0 <= e, e < A), z3.Or(e == w, v.n != k, z3.And(d(e) >= 0, d(e) < k, sel(v.arr, d(e)) != COMB(g, e, d(e))))), patterns=[ISIDX(g, e)]))
    s.throws('std::out_of_range', w < 0); s.returns(w)
getter('RevComb', g_rev)
