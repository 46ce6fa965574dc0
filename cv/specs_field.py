"""Field elements seen from above: abstract contracts over the prime field (discharged for the implementation in specs_prime)."""
from contract import *
import solve
F61 = lambda i: 'Mp61' in i.cls
FE = 'frn::lib::math::FpElement::'
ABS = dict(verify=False)
def abst(i): return vals.cfg.absfield and F61(i)

@contract(FE + 'operator+=', when=abst, **ABS)
def fe_add(s): s.setthis(fnorm(s.this() + s.arg(0))); s.returns(s.obj)
@contract(FE + 'operator-=', when=abst, **ABS)
def fe_sub(s): s.setthis(fnorm(s.this() - s.arg(0))); s.returns(s.obj)
@contract(FE + 'operator*=', when=abst, **ABS)
def fe_mul(s): s.setthis(fmul(s.this(), s.arg(0))); s.returns(s.obj)
@contract(FE + 'operator/=', when=abst, **ABS)
def fe_div(s):
    s.throws('std::logic_error', s.arg(0) == 0); s.setthis(fmul(s.this(), FINV(s.arg(0)))); s.returns(s.obj)
@contract(FE + 'operator=', when=abst, **ABS)
def fe_asg(s): s.setthis(s.arg(0)); s.returns(s.obj)
@contract(FE + 'Negate', when=abst, **ABS)
def fe_neg(s): s.setthis(fnorm(-s.this())); s.returns(s.obj)
@contract(FE + 'Invert', when=abst, **ABS)
def fe_inv(s): s.throws('std::logic_error', s.this() == 0); s.setthis(FINV(s.this())); s.returns(s.obj)
@contract(FE + 'Inverse', when=abst, **ABS)
def fe_inverse(s): s.throws('std::logic_error', s.this() == 0); s.returns(FINV(s.this()))
@contract(FE + 'Equal', when=abst, **ABS)
def fe_eq(s): s.returns(s.this() == s.arg(0))
@contract(FE + 'NotEqual', when=abst, **ABS)
def fe_ne(s): s.returns(s.this() != s.arg(0))
@contract(FE + 'ByteSize', when=abst, **ABS)
def fe_bytesize(s): s.returns(iv(8))
@contract(FE + 'BitSize', when=abst, **ABS)
def fe_bitsize(s): s.returns(iv(64))
def tof(v):
    v = z3.simplify(v) if not has_binder(v) else v
    if z3.is_int_value(v) and abs(v.as_long()) < 2**31: return z3.RealVal(v.as_long())
    return TOF(v)
@contract(FE + '(ctor)', when=lambda i: abst(i) and i.np == 0, **ABS)
def fe_ctor0(s): s.setthis(z3.RealVal(0))
@contract(FE + '(ctor)', when=lambda i: abst(i) and i.np == 1 and 'unsigned long' in i.sig, **ABS)
def fe_ctor1(s): s.setthis(tof(s.arg(0)))
@contract(FE + 'FromBytes', when=abst, **ABS)
def fe_frombytes(s):
    p = s.arg(0)
    c = s.X.read(s.st, p.lv)
    from std import tovec
    c = tovec(c); s.require(z3.And(p.idx >= 0, p.idx + 8 <= c.n), '8 readable bytes')
    bs = [sel(c.arr, sv(p.idx + i)) for i in range(8)]
    s.returns(decode(bs))
def decode(bs):
    b0 = bs[0]
    if z3.is_app(b0) and b0.decl().eq(ENC) and all(b.decl().eq(ENC) and b.arg(0).eq(b0.arg(0)) and z3.is_int_value(b.arg(1)) and b.arg(1).as_long() == i for i, b in enumerate(bs)): return b0.arg(0)
    if all(z3.is_app(b) and b.decl().eq(PRGB) and b.arg(0).eq(bs[0].arg(0)) for b in bs) and all(eqc(b.arg(1), bs[0].arg(1) + i) is True for i, b in enumerate(bs)): return FEL(bs[0].arg(0), bs[0].arg(1))
    return DEC(*bs)
@contract(FE + 'ToBytes', when=abst, **ABS)
def fe_tobytes(s):
    p = s.arg(0); c = s.X.read(s.st, p.lv)
    from std import tovec
    c = tovec(c); s.require(z3.And(p.idx >= 0, p.idx + 8 <= c.n), '8 writable bytes')
    a = c.arr
    for i in range(8): a = store(a, sv(p.idx + i), ENC(s.this(), iv(i)))
    s.set(p.lv, Vec(c.n, a, c.et, c.kind))
