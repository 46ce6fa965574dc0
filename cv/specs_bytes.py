"""Byte layouts of vectors and shares."""
from contract import *
from specs_field import *
from specs_rep import *
from std import tovec
import solve
def buf(s, i):
    p = s.arg(i); return p, tovec(s.X.read(s.st, p.lv))
def laid(c, off, n, byte): return Vec(c.n, lam(lambda j: z3.If(z3.And(off <= j, j < off + n), byte(sv(j - off)), sel(c.arr, j))), c.et, c.kind)
def vbytes(v): return lambda m: ENC(sel(v.arr, sv(m / 8)), sv(m % 8))
def elem_at(c, off, i): return decode([sel(c.arr, sv(off + 8 * i + b)) for b in range(8)])
MB = 2 ** 52
isfv = lambda i: vals.cfg.absfield
@contract('frn::lib::math::vector::ToBytes', prop='C22', when=lambda i: vals.cfg.absfield and is_vecty(i.ps[1].strip()) and is_field(elemty(i.ps[1].strip()).strip()))
def vec_tobytes(s):
    (p, c), v = buf(s, 0), s.vec(1); s.require(z3.And(v.n < MB, p.idx >= 0, p.idx + 8 * v.n <= c.n), 'buffer holds the encoding'); s.set(p.lv, laid(c, p.idx, sv(8 * v.n), vbytes(v)))
@contract('frn::lib::math::vector::FromBytes', prop='C22', when=lambda i: vals.cfg.absfield and i.np == 2 and 'Mp61' in str(i.fn['ret'].s if i.fn else ''))
def vec_frombytes(s):
    (p, c), n = buf(s, 0), s.arg(1); s.require(z3.And(n < MB, p.idx >= 0, p.idx + 8 * n <= c.n), 'buffer holds the encoding'); s.returns(Vec(n, lam(lambda i: elem_at(c, p.idx, i)), elemty(rett(s))))
@contract(RP + 'ShareToBytes', prop='C22', when=isrep)
def share_tobytes(s):
    (p, c), v = buf(s, 1), s.vec(0); s.require(z3.And(v.n < MB, p.idx >= 0, p.idx + 8 * v.n <= c.n), 'buffer holds the share'); s.set(p.lv, laid(c, p.idx, sv(8 * v.n), vbytes(v)))
@contract(RP + 'ShareFromBytes', prop='C22', when=isrep)
def share_frombytes(s):
    (p, c), n = buf(s, 0), s.fld('mShareSize'); s.require(z3.And(n < 2 ** 31, p.idx >= 0, p.idx + 8 * n <= c.n), 'buffer holds the share'); s.returns(Vec(n, lam(lambda i: elem_at(c, p.idx, i)), elemty(rett(s))))
@contract(RP + 'SharesFromBytes', prop='C22', when=isrep)
def shares_frombytes(s):
    (p, c), m, n = buf(s, 0), s.arg(1), s.fld('mShareSize'); st = elemty(rett(s)); s.require(z3.And(n < 2 ** 20, m < 2 ** 28, p.idx >= 0, p.idx + 8 * n * m <= c.n), 'buffer holds the shares')
    s.returns(Vec(m, lam(lambda k: seq(st, n, lambda i: elem_at(c, sv(p.idx + 8 * n * k), i))), st))
