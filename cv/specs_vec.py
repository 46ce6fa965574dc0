from contract import *
from specs_field import *
V = 'frn::lib::math::vector::'
LE = 'std::logic_error'
def elemwise(a, b, f): return lam(lambda j: f(sel(a.arr, j), sel(b.arr, j)))
def cp(v, arr): return Vec(v.n, arr, v.et, v.kind)
OPS = {'Add': lambda x, y: fnorm(x + y), 'Subtract': lambda x, y: fnorm(x - y), 'Multiply': fmul}
for nm, f in OPS.items():
    def pure(s, f=f):
        a, b = s.vec(0), s.vec(1); s.throws(LE, a.n != b.n); s.returns(cp(a, elemwise(a, b, f)))
    REG.add(Contract('vec_' + nm.lower(), V + nm, pure, prop='C04'))
    def into(s, f=f):
        a, b = s.vec(0), s.vec(1); s.throws(LE, a.n != b.n); s.set(s.lvs[0], cp(a, elemwise(a, b, f))); s.returns(s.lvs[0])
    REG.add(Contract('vec_%s_into' % nm.lower(), V + nm + 'Into', into, prop='C04'))
@contract(V + 'Scale', prop='C04')
def vec_scale(s): a, k = s.vec(0), s.arg(1); s.returns(cp(a, lam(lambda j: fmul(sel(a.arr, j), k))))
@contract(V + 'ScaleBy', prop='C04')
def vec_scaleby(s): a, k = s.vec(0), s.arg(1); s.set(s.lvs[0], cp(a, lam(lambda j: fmul(sel(a.arr, j), k)))); s.returns(s.lvs[0])
@contract(V + 'Dot', prop='C04')
def vec_dot(s):
    a, b = s.vec(0), s.vec(1); s.throws(LE, a.n != b.n)
    s.returns(solve.fsum(lambda j: fmul(sel(a.arr, j), sel(b.arr, j)), a.n))
@contract(V + 'Sum', prop='C04')
def vec_sum(s): a = s.vec(0); s.returns(solve.fsum(lambda j: sel(a.arr, j), a.n))
