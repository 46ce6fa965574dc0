import os, sys, time, frontend, vals
P = frontend.load(); vals.PROG = P
import contract
from contract import *
import importlib
for m in ('specs_field', 'specs_vec', 'specs_prime', 'specs_shr', 'specs_comb', 'specs_rep', 'specs_tab', 'specs_mat', 'specs_bytes', 'specs_prim', 'specs_hash', 'specs_prot', 'specs_input', 'specs_check', 'specs_net', 'specs_build'):
    try: importlib.import_module(m)
    except ModuleNotFoundError as e:
        if e.name != m: raise
def run(pats, verbose=1):
    for c in REG.all:
        if not c.verify or not any(p in c.name or p in (c.prop if isinstance(c.prop, tuple) else (c.prop,)) for p in pats): continue
        for fn in targets(P, c):
            if os.environ.get('ONLY', '') not in fn['k']: continue
            r = verify_fn(P, fn, c)
            print('%-55s %s obl=%d failed=%d loops=%d invs=%d unsolved=%d %.1fs' % (r.target[-55:], 'UNDECIDED ' + str(r.undecided)[:400] if r.undecided else 'ok' if not r.failed else 'FAIL', len(r.obls), len(r.failed), r.loops, r.invs, r.unsolved, r.time))
            for f in r.failed[:4 if verbose else 0]: print('    FAILED', f[0], (f[1].get('result'), f[1].get('goal', '')[:900] if verbose > 1 else ''))
            if verbose > 2:
                for o in r.obls: print('    ', o[1], o[0], o[2][:60])
            for n in r.notes[:6]: print('    note', n[:500])
            if r.undecided and verbose > 1: print('\n'.join(r.tb.split('\n')[-9:]))
if __name__ == '__main__':
    v = 1
    a = sys.argv[1:]
    if a[0] == '-v': v = 2; a = a[1:]
    if a[0] == '-vv': v = 3; a = a[1:]
    run(a, v)
