"""The index tables of the share manipulator: local multiplication (C12) and reconstruction (C13)."""
from contract import *
from specs_field import *
from specs_comb import CHOOSE, COMB, MEM, RNK, CNT, DIFF, ISIDX, FA, MP, hint, enum_of, lk, item, structure, increasing, comb_facts, isrep
import specs_comb, specs_rep, solve, vals
def isabs(i): return vals.cfg.absfield
SM = 'frn::ShrManipulator::'; SS = specs_comb.SS
CMN = z3.Function('common', I, I, I, I, I)              # (enumeration, e, f, r): members of the e-th subset, among its first r, that the f-th subset has too
CM = z3.Function('commonmember', I, I, I, I, I)         # (enumeration, e, f, q): the q-th common member
CW = z3.Function('commonwitness', I, I, I, I, I, I)
TGT = z3.Function('target', I, I, I, I, I)              # (enumeration, double enumeration, e, f): the subset made of the first n-2d common members
KEEP = z3.Function('ownpair', I, I, I, I, I, B)         # (enumerations, party, a, b): the party holds the target of its a-th and b-th shares
TG = z3.Function('pairtarget', I, I, I, I, I, I)
TMI = z3.Function('pairsbefore', I, I, I, I, I, I)      # pairs before (a, b) that are kept
TMO = z3.Function('pairsbeforerow', I, I, I, I, I)
def common_facts(r1, r2):
    """Comb.lean: cnt_zero, cnt_step, cnt_le, cnt_const, common_many, common_target"""
    n, k, g = enum_of(r1); _, k2, g2 = enum_of(r2); A, A2 = r1.f['mAdditiveShareSize'], r2.f['mAdditiveShareSize']
    e, f, r, u, q, p = (fresh(x, I) for x in 'efruqp'); ef = z3.And(0 <= e, e < A, 0 <= f, f < A); M = lambda e, f, r: MEM(g, f, COMB(g, e, r)); T = TGT(g, g2, e, f); W = CW(g, e, f, r, u)
    return [FA([e, f], z3.Implies(ef, z3.And(CMN(g, e, f, 0) == 0, CMN(g, e, f, k) >= k2)), patterns=[CMN(g, e, f, k), CMN(g, e, f, 0)]),
            FA([e, f, r, u], z3.Implies(z3.And(ef, 0 <= r, u == r + 1, u <= k), CMN(g, e, f, u) == CMN(g, e, f, r) + z3.If(M(e, f, r), 1, 0)), patterns=[MP(CMN(g, e, f, r), CMN(g, e, f, u))]),
            FA([e, f, r], z3.Implies(z3.And(ef, 0 <= r, r <= k), z3.And(CMN(g, e, f, r) >= 0, CMN(g, e, f, r) <= r)), patterns=[CMN(g, e, f, r)]),
            FA([e, f, r, u], z3.Implies(z3.And(ef, 0 <= r, r <= u, u <= k, CMN(g, e, f, r) != CMN(g, e, f, u)), z3.And(r <= W, W < u, M(e, f, W))), patterns=[MP(CMN(g, e, f, r), CMN(g, e, f, u))]),
            FA([e, f, r], z3.Implies(z3.And(ef, 0 <= r, r < k, M(e, f, r)), CM(g, e, f, CMN(g, e, f, r)) == COMB(g, e, r)), patterns=[CMN(g, e, f, r)]),
            FA([e, f], z3.Implies(ef, z3.And(0 <= T, T < A2)), patterns=[T]),
            FA([e, f, q], z3.Implies(z3.And(ef, 0 <= q, q < k2), COMB(g2, T, q) == CM(g, e, f, q)), patterns=[COMB(g2, T, q), MP(T, CM(g, e, f, q))])]
def parts(o): return o.f['mReplicator'], o.f['mDoubleReplicator'], o.f['mPartyId']
def pair_facts(r1, r2, me):
    """definitions of KEEP, TG, TMI, TMO"""
    g, g2 = enum_of(r1)[2], enum_of(r2)[2]; a, b, c = (fresh(x, I) for x in 'abc'); S = r1.f['mShareSize']; X = lambda F, *a: F(g, g2, me, *a)
    ina, inb = z3.And(0 <= a, a < S), z3.And(0 <= b, b < S)
    return [FA([a, b], z3.Implies(z3.And(ina, inb), z3.And(X(TG, a, b) == TGT(g, g2, lk(r1, me, a), lk(r1, me, b)), X(KEEP, a, b) == MEM(g2, X(TG, a, b), me))), patterns=[X(KEEP, a, b), X(TG, a, b)]),
            X(TMO, 0) == 0, FA([a], X(TMI, a, 0) == X(TMO, a), patterns=[X(TMI, a, 0), X(TMO, a)]),
            FA([a, b, c], z3.Implies(z3.And(ina, inb, c == b + 1), X(TMI, a, c) == X(TMI, a, b) + z3.If(X(KEEP, a, b), 1, 0)), patterns=[MP(X(TMI, a, b), X(TMI, a, c))]),
            FA([a, c], z3.Implies(z3.And(ina, c == a + 1), X(TMO, c) == X(TMI, a, S)), patterns=[MP(X(TMO, a), X(TMO, c))])]
def entry(t, q): return item(t, q).f
def mult_table(o, a0, b0, t=None):
    """the table holds exactly the kept pairs before (a0, b0)"""
    r1, r2, me = parts(o); n, k, g = enum_of(r1); _, k2, g2 = enum_of(r2); S = r1.f['mShareSize']; t = o.f['mTableMult']; a, b, q = (fresh(x, I) for x in 'abq'); X = lambda F, *a: F(g, g2, me, *a)
    before = z3.Or(z3.And(0 <= a, a < a0), z3.And(a == a0, b < b0)) if b0 is not None else z3.And(0 <= a, a < a0)
    E = entry(t, X(TMI, a, b)); G = X(TG, a, b); Q = entry(t, q); qa, qb = Q['src_a'], Q['src_b']; N = X(TMI, a0, b0) if b0 is not None else X(TMO, a0)
    return [('multiplication table: length', t.n == N),
            ('multiplication table: every pair this party is responsible for', FA([a, b], z3.Implies(z3.And(before, a < S, 0 <= b, b < S, X(KEEP, a, b)), z3.And(X(TMI, a, b) >= 0, X(TMI, a, b) < N, E['src_a'] == a, E['src_b'] == b, E['dest_c'] == CNT(g2, me, G), E['first_party'] == COMB(g2, G, iv(0)))), patterns=[X(KEEP, a, b)])),
            ('multiplication table: nothing else', FA([q], z3.Implies(z3.And(0 <= q, q < N), z3.And(qa >= 0, qa < S, qb >= 0, qb < S, X(KEEP, qa, qb), X(TMI, qa, qb) == q, z3.Or(qa < a0, z3.And(qa == a0, qb < b0)) if b0 is not None else qa < a0)), patterns=[qa])),
            ('multiplication table: destinations in range, first party at most 2d', FA([q], z3.Implies(z3.And(0 <= q, q < N), z3.And(Q['dest_c'] >= 0, Q['dest_c'] < r2.f['mShareSize'], Q['first_party'] >= 0, Q['first_party'] <= r2.f['mThreshold'])), patterns=[Q['dest_c']]))]
def rec_entry(o, ps, val, e):
    r1, r2, me = parts(o); n, k2, g2 = enum_of(r2)
    return missing(g2, e, ps, n) + [('value sent by the lowest holder', (val == 0) == (me == COMB(g2, e, iv(0))))]
def missing(g2, e, ps, P):
    """ps lists in increasing order the parties below P that are not members of the e-th subset"""
    p, j = fresh('p', I), fresh('j', I); x = sel(ps.arr, j)
    return [('receivers: number', ps.n == P - RNK(g2, e, P)), ('receivers: every party lacking the share', FA([p], z3.Implies(z3.And(0 <= p, p < P, z3.Not(MEM(g2, e, p))), z3.And(p - RNK(g2, e, p) >= 0, p - RNK(g2, e, p) < ps.n, sel(ps.arr, p - RNK(g2, e, p)) == p)), patterns=[MEM(g2, e, p)])),
            ('receivers: nobody else, in order', FA([j], z3.Implies(z3.And(0 <= j, j < ps.n), z3.And(x >= 0, x < P, z3.Not(MEM(g2, e, x)), x - RNK(g2, e, x) == j)), patterns=[x]))]
def rec_table(o, m):
    r1, r2, me = parts(o); n, k2, g2 = enum_of(r2); t = o.f['mTableRec']; i = fresh('i', I); out = [('reconstruction table: one entry per share', t.n == m)]
    for j in range(4):
        f = lambda i, j=j: rec_entry(o, entry(t, i)['party_set'], entry(t, i)['value_or_hash'], lk(r2, me, i))[j]
        out.append(('reconstruction table: ' + f(i)[0], FA([i], z3.Implies(z3.And(0 <= i, i < m), f(i)[1]), patterns=[sel(t.arr, i)])))
    return out
def valid(o):
    """what the constructor establishes before Init"""
    r1, r2, me = parts(o); n, d = r1.f['mSize'], r1.f['mThreshold']
    return [('parameters', z3.And(o.f['mParties'] == n, o.f['mThreshold'] == d, r2.f['mSize'] == n, r2.f['mThreshold'] == 2 * d, me >= 0, me < n))] + [(h + nm, f) for h, r in (('shares: ', r1), ('double shares: ', r2)) for nm, f in structure(r) + specs_rep.wf_facts(r) + increasing(r)]
def this_(s, L): return s.X.read(L.st, s.obj)
def modvec(s, L):
    """the list the loop appends to (names do not matter)"""
    for c, p in L.mods:
        v = s.X.read(L.st, LV(c, ()))
        if c == s.obj.c: continue
        for x in [v] + (list(v.f.values()) if isinstance(v, Rec) else []):
            if isinstance(x, Vec): return x
    raise Unsup('no list')
def t_outer(s, L):
    o = this_(s, L); r1, r2, me = parts(o); g, g2 = enum_of(r1)[2], enum_of(r2)[2]
    hint(L, TMO(g, g2, me, L.k), TMI(g, g2, me, L.k, iv(0)), TMO(g, g2, me, sv(L.k + 1)))
    if L.head is not None: hint(L, TMO(g, g2, me, sv(L.k - 1)))
    return mult_table(o, L.k, None)
def t_inner(s, L):
    o = this_(s, L); r1, r2, me = parts(o); g, g2 = enum_of(r1)[2], enum_of(r2)[2]; a = L.outer[-1]
    hint(L, TMI(g, g2, me, a, L.k), TMI(g, g2, me, a, r1.f['mShareSize']), TMO(g, g2, me, a), TMO(g, g2, me, sv(a + 1)), KEEP(g, g2, me, a, L.k))
    for b in [L.k] + ([sv(L.k - 1)] if L.head is not None else []):
        G = TG(g, g2, me, a, b); hint(L, TMI(g, g2, me, a, b), KEEP(g, g2, me, a, b), G, TGT(g, g2, lk(r1, me, a), lk(r1, me, b)), ISIDX(g2, G), ISIDX(g2, TGT(g, g2, lk(r1, me, a), lk(r1, me, b))), MEM(g2, G, me), CNT(g2, me, G))
    return mult_table(o, a, L.k)
def inter(s, L, a=None, b=None):
    o = this_(s, L); r1, r2, me = parts(o); n, k, g = enum_of(r1); fa, la, fb, lb = (L.get(x) for x in ('first1', 'last1', 'first2', 'last2')); e, f = lk(r1, me, L.outer[-2] if a is None else a), lk(r1, me, L.outer[-1] if b is None else b); v = modvec(s, L); i, j = fa.idx, fb.idx; q = fresh('q', I)
    hit = z3.And(i < k, j > 0, COMB(g, f, j - 1) == COMB(g, e, i)); c = sv(CMN(g, e, f, i) + z3.If(hit, 1, 0))
    hint(L, CMN(g, e, f, i), CMN(g, e, f, sv(i + 1)), COMB(g, e, i), COMB(g, f, j), COMB(g, f, sv(j - 1)), CMN(g, e, f, k), CMN(g, e, f, iv(0)))
    return [('positions', z3.And(i >= 0, i <= k, la.idx == k, j >= 0, j <= k, lb.idx == k, L.get('i') == i)),
            ('everything passed in the second is at most the current of the first', FA([q], z3.Implies(z3.And(0 <= q, q < j, i < k), COMB(g, f, q) <= COMB(g, e, i)), patterns=[COMB(g, f, q)])),
            ('everything passed in the first is below the current of the second', FA([q], z3.Implies(z3.And(0 <= q, q < i, j < k), COMB(g, e, q) < COMB(g, f, j)), patterns=[COMB(g, e, q)])),
            ('common members so far', v.n == c), ('they are the common members', FA([q], z3.Implies(z3.And(0 <= q, q < v.n), sel(v.arr, q) == CM(g, e, f, q)), patterns=[sel(v.arr, q)]))]
def rec_outer(s, L): return rec_table(this_(s, L), L.k)
def rec_inner(s, L):
    o = this_(s, L); r1, r2, me = parts(o); n, k2, g2 = enum_of(r2); e = lk(r2, me, L.outer[-1]); p = L.k; x = sel(item(r2.f['mCombinations'], e).arr, RNK(g2, e, p)); hint(L, RNK(g2, e, p), MEM(g2, e, p), RNK(g2, e, sv(p + 1)), x)
    if L.head is not None: q = sv(p - 1); hint(L, RNK(g2, e, q), MEM(g2, e, q), sel(item(r2.f['mCombinations'], e).arr, RNK(g2, e, q)))
    return missing(g2, e, modvec(s, L), p)
def tables_post(s):
    for x in ('mTableMult', 'mTableRec'): s.havoc(s.obj.f(x), None)
def post(o): return mult_table(o, parts(o)[0].f['mShareSize'], None) + rec_table(o, parts(o)[1].f['mShareSize'])
@contract(SM + 'Init', prop=('C12', 'C13'), invs={0: t_outer, 1: t_inner, 2: rec_outer, 3: rec_inner, (SS + 'Intersection', 0): inter}, tmo=20.0, budget=400)
def shr_init(s):
    o = s.this(); r1, r2, me = parts(o); n, k, g = enum_of(r1); _, k2, g2 = enum_of(r2)
    for nm, f in valid(o): s.require(f, nm)
    s.require(z3.And(o.f['mTableMult'].n == 0, o.f['mTableRec'].n == 0), 'tables are empty')
    for f in comb_facts(n, k) + comb_facts(n, k2) + common_facts(r1, r2) + pair_facts(r1, r2, me): s.assume(f)
    tables_post(s)
    for i, nm in enumerate([x for x, _ in post(o)]): s.ensures(lambda v, read, i=i: post(read(s.obj))[i][1], nm)
def fields_post(o, id_, d, n): return [('identity', z3.And(o.f['mPartyId'] == id_, o.f['mParties'] == n, o.f['mThreshold'] == d)), ('constants are added to additive share 0', o.f['mIndexForConstantOps'] == z3.If(id_ < n - d, iv(0), iv(-1)))] + valid(o) + post(o)
@contract(SM + '(ctor)', prop=('C12', 'C13'), when=lambda i: isabs(i) and i.np == 3, tmo=20.0, vaccheck=True)
def shr_ctor(s):
    id_, d, n = s.arg(0), s.arg(1), s.arg(2); d2 = sv(2 * d)
    s.require(z3.And(0 <= id_, id_ < n, n < 2 ** 31, d < 2 ** 31), 'party below the number of parties')
    for t in (d, d2): specs_comb.sizes_pre(s, n, t)
    s.throws('std::invalid_argument', z3.Or(d == 0, d >= n, d2 >= n))
    if s.mode == 'verify':
        k = sv(n - d); g = specs_comb.GID(n, k)
        for f in comb_facts(n, k): s.assume(z3.Implies(z3.And(d >= 1, d < n), f))
        for x in (COMB(g, iv(0), id_), MEM(g, iv(0), id_), CNT(g, id_, iv(0))): s.assume(specs_comb.TRG[x.sort()](x))
    ty = s.fn['cls'] if s.fn.get('cls') is not None else s.ty; s.setthis(UNINIT if s.mode == 'verify' else s.X.symval(s.st, ty, 'manip'))
    obs = lambda v, read: fields_post(v if isinstance(v, Rec) else read(s.obj), id_, d, n)
    for i, nm in enumerate([x for x, _ in obs(s.X.symval(s.st, ty, 'manip'), None)]): s.ensures(lambda v, read, i=i: obs(v, read)[i][1], nm)
@contract(SM + 'ComputeIndexForDoubleMultiplication', prop='C12', invs={(SS + 'Intersection', 0): lambda s, L: inter(s, L, s.arg(0), s.arg(1))}, tmo=20.0)
def shr_index(s):
    """the position of the pair's target in this party's double-degree share, -1 if it has none"""
    o = s.this(); r1, r2, me = parts(o); n, k, g = enum_of(r1); _, k2, g2 = enum_of(r2); a, b = s.arg(0), s.arg(1); S = r1.f['mShareSize']
    for nm, f in valid(o): s.require(f, nm)
    s.require(z3.And(0 <= a, a < S, 0 <= b, b < S), 'indices of shares')
    for f in comb_facts(n, k) + comb_facts(n, k2) + common_facts(r1, r2): s.assume(f)
    G = TGT(g, g2, lk(r1, me, a), lk(r1, me, b))
    for x in (ISIDX(g2, G), MEM(g2, G, me)): s.assume(specs_comb.TRG[x.sort()](x))
    s.assume(specs_comb.TRG[I](CNT(g2, me, G)))
    s.returns(z3.If(MEM(g2, G, me), CNT(g2, me, G), iv(-1)))
