"""Building networks (C19): every configuration is validated, and a built network has the endpoints its parameters determine."""
from contract import *
from core import sv
from specs_net import CF, CHN, OS, os_cell, osof, AI, isabsch
import vals, solve, specs_net
BD = 'frn::lib::net::Network::Builder::'; CBS = dict(absfield=True, absprg=True)
def has(b, f): return b.f[f].has
def val(b, f): return b.f[f].v
def okbuilder(b):
    """class invariant of a builder: what was accepted so far is consistent"""
    i, n, p = (lambda f: val(b, f)), val(b, 'mSize'), val(b, 'mBasePort'); i = val(b, 'mLocalPeerId')
    return [('identifier is not negative', z3.Implies(has(b, 'mLocalPeerId'), i >= 0)), ('identifier below the size', z3.Implies(z3.And(has(b, 'mLocalPeerId'), has(b, 'mSize')), i < n)),
            ('base port in range', z3.Implies(has(b, 'mBasePort'), z3.And(p >= 1025, p <= 65535)))]
def bpre(s):
    b = s.this()
    for nm, f in okbuilder(b): s.require(f, nm)
    return b
def bpost(s):
    for i, (nm, _) in enumerate(okbuilder(s.this())): s.ensures(lambda v, read, i=i: okbuilder(read(s.obj))[i][1], nm)
def setopt(s, f, x): s.set(s.obj.f(f), Opt(TRUE, x, s.this().f[f].et)); bpost(s); s.returns(Ref(s.obj)) if False else None
def setter(name, f, pre): REG.add(Contract('bd_' + name, BD + name, (lambda s: (pre(s, bpre(s), s.arg(0)), setopt(s, f, s.arg(0)))), prop='C19', cfg=CBS))
setter('TransportType', 'mTransportType', lambda s, b, x: None)
setter('LocalPeerId', 'mLocalPeerId', lambda s, b, x: s.throws('std::logic_error', z3.Or(x < 0, z3.And(has(b, 'mSize'), x >= val(b, 'mSize')))))
setter('Size', 'mSize', lambda s, b, x: s.throws('std::logic_error', z3.And(has(b, 'mLocalPeerId'), val(b, 'mLocalPeerId') >= x)))
setter('BasePort', 'mBasePort', lambda s, b, x: s.throws('std::logic_error', z3.Or(x < 1025, x > 65535)))
@contract(BD + 'AllPartiesLocal', prop='C19', cfg=CBS)
def bd_all_local(s): bpre(s); s.set(s.obj.f('mAllLocal'), TRUE); bpost(s)
@contract(BD + 'Logger', prop='C19', cfg=CBS)
def bd_logger(s): bpre(s); s.havoc(s.obj.f('mLogger'), None); bpost(s)
@contract(BD + '(ctor)', prop='C19', cfg=CBS)
def bd_ctor(s):
    ty = s.fn['cls'] if s.fn.get('cls') is not None else s.ty; s.setthis(UNINIT if s.mode == 'verify' else s.X.symval(s.st, ty, 'builder'))
    get = lambda v, read: v if isinstance(v, Rec) else read(s.obj)
    s.ensures(lambda v, read: z3.And(*[z3.Not(has(get(v, read), f)) for f in ('mTransportType', 'mLocalPeerId', 'mSize', 'mBasePort', 'mIps')]), 'nothing is set')
