"""Builds the exporter, runs it over /repo/src and merges the per-TU JSON."""
import hashlib, json, os, re, subprocess, sys, fcntl, pickle
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

def _cache():
    for d in (os.path.join(VERIF, '.cache'), '/tmp/verif-cache-%d' % os.getuid()):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, '.w%d' % os.getpid()); open(t, 'w').close(); os.unlink(t)
            return d
        except OSError: continue
    raise RuntimeError('no cache dir')
CACHE = _cache()

TUS = ['shr', 'mult', 'input', 'input_corr', 'corr', 'lib/primitives/prg', 'lib/math/arithmetic', 'lib/tools',
       'lib/net/builder', 'lib/net/channel', 'lib/net/connector', 'lib/net/sysi']

class Ty:
    __slots__ = ('k','s','c','b','sg','t','n','ta','r','lam','rv','ret','ps','en','ch')
    def __init__(s): 
        for a in Ty.__slots__: setattr(s, a, None)
    def __repr__(s): return '<%s>' % s.s
    def strip(s):
        return s.t.strip() if s.k == 'ref' else s

class Prog:
    def __init__(s): s.types = {}; s.funcs = {}; s.records = {}; s.globals = {}; s.byqn = {}

def sha(*paths_or_bytes):
    h = hashlib.sha256()
    for p in paths_or_bytes: h.update(p if isinstance(p, bytes) else open(p, 'rb').read())
    return h.hexdigest()[:24]

class lock:
    def __init__(s, name): s.p = os.path.join(CACHE, name + '.lock')
    def __enter__(s): s.f = open(s.p, 'w'); fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): s.f.close()

def build_astx():
    d = os.path.join(VERIF, 'astx')
    out = os.path.join(CACHE, 'astx-' + sha(d + '/astx.cpp', d + '/build.sh'))
    with lock('astx'):
        if not os.path.exists(out):
            subprocess.run(['bash', d + '/build.sh', out], check=True, stdout=subprocess.DEVNULL)
    return out

def repo_hash():
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(REPO + '/src')):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    for f in ('astx/astx.cpp', 'astx/driver.cc', 'cv/frontend.py'): h.update(open(os.path.join(VERIF, f), 'rb').read())
    return h.hexdigest()[:24]

def overlay(dst):
    """fp.h declares constexpr data members of the incomplete class type; clang rejects what gcc accepts.
    The overlay only turns those members into const ones with out-of-class initialisers."""
    s = open(REPO + '/src/frn/lib/math/fp.h').read()
    inits = dict(re.findall(r'static\s+constexpr\s+FpElement\s+(\w+)\s*=\s*([^;]*);', s))
    s = re.sub(r'static\s+constexpr\s+FpElement\s+(\w+)\s*=\s*[^;]*;', r'static const FpElement \1;', s)
    s = re.sub(r'constexpr\s+FpElement<Prime>\s+FpElement<Prime>::(\w+);',
               lambda m: 'const FpElement<Prime> FpElement<Prime>::%s = %s;' % (m[1], inits.get(m[1], 'FpElement<Prime>()').replace('FpElement::', 'FpElement<Prime>::template ')), s)
    os.makedirs(dst + '/frn/lib/math', exist_ok=True)
    open(dst + '/frn/lib/math/fp.h', 'w').write(s)

def export():
    """returns list of json paths; raises CalledProcessError when /repo does not compile"""
    out = os.path.join(CACHE, 'ast-' + repo_hash())
    with lock('export'):
        if os.path.exists(out + '/done'): return out
        import shutil
        olds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith('ast-')), key=os.path.getmtime)
        for d in olds[:-6]: shutil.rmtree(d, ignore_errors=True)
        ax = build_astx(); os.makedirs(out, exist_ok=True)
        ov = out + '/ov'; overlay(ov)
        fl = ['-std=gnu++17', '-include', 'cstdint', '-maes', '-msse4.1', '-I' + ov, '-I' + REPO + '/src', '-resource-dir',
              '/usr/lib/llvm-18/lib/clang/18', '-Wno-everything']
        jobs = [(VERIF + '/astx/driver.cc', 'driver')] + [(REPO + '/src/frn/%s.cc' % t, t.replace('/', '_')) for t in TUS]
        def run(j):
            if not os.path.exists(j[0]): return
            subprocess.run([ax, REPO + '/src:' + ov, '%s/%s.json' % (out, j[1]), j[0], '--'] + fl, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        with ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
        open(out + '/done', 'w').close()
    return out

def load():
    out = export()
    P = Prog()
    for f in sorted(os.listdir(out)):
        if not f.endswith('.json'): continue
        d = json.load(open(os.path.join(out, f)))
        tl = []
        for t in d['types']:
            x = Ty(); x.s = t['s']; x.c = t.get('c', False); tl.append(x)
        for t, x in zip(d['types'], tl):
            x.k = t['k']; x.b = t.get('b'); x.sg = t.get('sg'); x.rv = t.get('rv'); x.lam = t.get('lam'); x.r = t.get('r'); x.ch = t.get('ch')
            x.n = t.get('n')
            if 't' in t: x.t = tl[t['t']]
            if 'ret' in t: x.ret = tl[t['ret']]
            if 'ps' in t: x.ps = [tl[i] for i in t['ps']]
            if 'ta' in t: x.ta = [(tl[a['t']] if 't' in a else int(a['v']) if 'v' in a else None) for a in t['ta']]
            if 'en' in t: x.en = [(e['n'], int(e['v'])) for e in t['en']]
            P.types.setdefault(x.s, x)
        def fix(o):
            if isinstance(o, dict):
                for k in ('t', 'ct', 'clt', 'at', 'cls', 'ret', 'base'):
                    if isinstance(o.get(k), int) and not isinstance(o.get(k), bool): o[k] = tl[o[k]]
                if o.get('ps') and isinstance(o['ps'][0], int): o['ps'] = [tl[i] for i in o['ps']]
                if o.get('ta'): o['ta'] = [(tl[a['t']] if isinstance(a, dict) and 't' in a else int(a['v']) if isinstance(a, dict) and 'v' in a else None) for a in o['ta']]
                for k, v in o.items():
                    if k in ('ta',): continue
                    if isinstance(v, (dict, list)): fix(v)
            else:
                for v in o:
                    if isinstance(v, (dict, list)): fix(v)
        for r in d['records']:
            r['bases'] = [tl[b] for b in r['bases']]; fix(r); P.records.setdefault(r['k'], r)
        for g in d['globals']:
            fix(g); 
            if g['k'] not in P.globals or ('init' in g and 'init' not in P.globals[g['k']]): P.globals[g['k']] = g
        for fn in d['funcs']:
            if fn['k'] in P.funcs: continue
            fix(fn); fn['tu'] = f; P.funcs[fn['k']] = fn; P.byqn.setdefault(fn['qn'], []).append(fn)
    return P

if __name__ == '__main__':
    import time; t = time.time(); P = load(); print(len(P.funcs), len(P.types), time.time() - t)
