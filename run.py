#!/usr/bin/env python3-vt
"""run.py PROPERTY: verifies every contract of the property against /repo's current source, and runs the property's
bounded stand-in / counterexample search against the real code. Exit 0 or 1 (with a VIOLATION line)."""
import sys, os, time, json, subprocess, glob, re, tempfile, shutil, hashlib, traceback, multiprocessing as mp, resource, threading
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE + '/cv')
REPO = os.environ.get('VERIF_REPO', '/repo')
prop = sys.argv[1]
tier = os.environ.get('VERIF_TIER', 'quick')
if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'): tier = sys.argv[2]
if tier not in ('quick', 'thorough'): tier = 'quick'
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
VC_BUDGET = 420 if tier == 'quick' else 1500
REPLAY = os.path.join(HERE, 'replay'); os.makedirs(REPLAY, exist_ok=True); os.makedirs(HERE + '/evidence', exist_ok=True)
META = json.load(open(HERE + '/meta.json'))
KNOWN = [l.strip() for l in open(HERE + '/known_findings.txt') if l.strip() and not l.startswith('#')]

# ---------------------------------------------------------------- bounded stand-in / counterexample search
def harness(out):
    src = '%s/harness/%s.cc' % (HERE, prop.lower())
    if not os.path.exists(src): out['status'] = 'none'; return
    d = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        cc = []
        for f in sorted(glob.glob(REPO + '/src/frn/**/*.cc', recursive=True)):
            t = open(f, errors='replace').read()
            if re.search(r'\bint\s+main\s*\(', t): continue
            cc.append(f)
        base = ['g++', '-std=gnu++17', '-O1', '-g', '-fsanitize=address', '-maes', '-msse4.1', '-include', 'cstdint', '-I' + REPO + '/src', '-w']
        objs = []; procs = []
        variants = [[]] if not re.search('ifdef PRIV', open(src).read()) else [['-DPRIV', '-fno-access-control'], []]
        for f in cc:
            o = d + '/' + hashlib.md5(f.encode()).hexdigest()[:10] + '.o'; objs.append(o)
            procs.append((f, subprocess.Popen(base + ['-c', f, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        hp = [(v, subprocess.Popen(base + v + ['-c', src, '-o', '%s/h%d.o' % (d, i)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)) for i, v in enumerate(variants)]
        bad = []
        for f, p in procs:
            e = p.communicate()[1]
            if p.returncode: bad.append((f, e)); objs.remove(d + '/' + hashlib.md5(f.encode()).hexdigest()[:10] + '.o')
        exe = None; errs = []
        for i, (v, p) in enumerate(hp):
            e = p.communicate()[1]
            if p.returncode: errs.append(e[:1500]); continue
            if exe: continue
            l = subprocess.run(base + ['%s/h%d.o' % (d, i)] + objs + ['-lpthread', '-o', '%s/h%d' % (d, i)], capture_output=True, text=True)
            if l.returncode: errs.append(l.stderr[:1500]); continue
            exe = '%s/h%d' % (d, i); out['variant'] = ' '.join(v)
        if not exe: out['status'] = 'nocompile'; out['error'] = (errs or [b[1][:1500] for b in bad])[:1]; return
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0')
        try: r = subprocess.run([exe, str(seed), '1' if tier == 'thorough' else '0'], capture_output=True, text=True, errors='replace', timeout=400 if tier == 'quick' else 1500, env=env, cwd=d)
        except subprocess.TimeoutExpired as ex: out['status'] = 'timeout'; out['error'] = 'bounded search did not finish in time'; return
        m = re.search(r'DONE evaluations=(\d+) distinct=(\d+)', r.stdout)
        if r.returncode == 0 and m:
            out['status'] = 'ok'; out['evaluations'] = int(m[1]); out['distinct'] = int(m[2]); s = re.search(r'SAMPLE (.*)', r.stdout); out['sample'] = s[1][:600] if s else ''
        else:
            f = re.search(r'FAIL (.*)', r.stdout, re.S)
            if f and f[1].startswith('harness'): out['status'] = 'error'; out['error'] = f[1][:500]; return
            out['status'] = 'fail'; out['what'] = (f[1].strip()[:1500] if f else 'the program crashed (exit %d): %s' % (r.returncode, ' '.join(x for x in r.stderr.split('\n') if 'ERROR' in x or '#0' in x or '#1 ' in x)[:700] or r.stderr[-700:]))
    except Exception as ex: out['status'] = 'error'; out['error'] = '%s: %s' % (type(ex).__name__, ex)
    finally: shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------- deductive verification
def work(job):
    ci, key, budget, scale, case = job
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    import contract, solve
    for k in solve.STATS: solve.STATS[k] = 0
    c = contract.REG.all[ci]; c.tmo *= scale; fn = PROG.funcs[key]
    try: r = contract.verify_fn(PROG, fn, c, budget, case)
    except Exception as ex:
        r = contract.Result('%s [%s]' % (fn['qn'], c.name)); r.undecided = '%s: %s' % (type(ex).__name__, ex)
    return dict(target=r.target, qn=fn['qn'], contract=c.name, n=len(r.obls) + r.triv, triv=r.triv, failed=[(f[0], f[1] if isinstance(f[1], dict) else {'result': str(f[1])}, f[2]) for f in r.failed],
                undecided=r.undecided, notes=r.notes[:5], used=sorted(set(r.used)), inlined=sorted(set(map(str, r.inlined))), time=r.time, loops=r.loops, invs=r.invs, unsolved=r.unsolved, stats=dict(solve.STATS), loc=fn.get('loc'))
def verify(out):
    global PROG
    import frontend, vals
    try: PROG = frontend.load()
    except Exception as ex:
        e = getattr(ex, 'stderr', b'') or b''
        out['error'] = 'extraction failed: %s %s' % (ex, (e.decode(errors='replace') if isinstance(e, bytes) else e)[:800]); return
    vals.PROG = PROG
    import contract, specs
    jobs = []; missing = []
    for i, c in enumerate(contract.REG.all):
        if not c.verify or prop not in (c.prop if isinstance(c.prop, tuple) else (c.prop,)): continue
        ts = contract.targets(PROG, c)
        if not ts and not c.cfg.get('optional'): missing.append(c.name)
        cs = [None] if not c.cfg.get('cases') else ['?'] + list(c.cfg['cases'][1])      # cases of a case split run side by side
        jobs += [(i, f['k'], c.budget, 1, v) for f in ts for v in cs]
    out['missing'] = missing
    out['res'] = []
    if not jobs: return
    ctx = mp.get_context('fork')
    pool = ctx.Pool(min(len(jobs), int(os.environ.get('VERIF_JOBS', '6'))), maxtasksperchild=1)
    end = T0 + VC_BUDGET
    hs = [(j, pool.apply_async(work, (j,))) for j in jobs]
    for j, h in hs:
        try: out['res'].append(h.get(max(1, end - time.time())))
        except Exception as ex:
            c = contract.REG.all[j[0]]
            out['res'].append(dict(target='%s [%s]' % (PROG.funcs[j[1]]['qn'], c.name), qn=PROG.funcs[j[1]]['qn'], contract=c.name, n=0, triv=0, failed=[], undecided='no answer: %s %s' % (type(ex).__name__, ex), notes=[], used=[], inlined=[], time=0, loops=0, invs=0, unsolved=0, stats={}, loc=None))
    pool.terminate()
    # an obligation the solvers did not answer is tried again with more time and less load before it counts as not discharged
    again = [k for k, r in enumerate(out['res']) if r['undecided'] and 'budget' in r['undecided'] or any('unknown' in str(f[1].get('result')) for f in r['failed'])]
    if again and time.time() < end - 30:
        pool = ctx.Pool(min(len(again), 3), maxtasksperchild=1)
        hs2 = [(k, pool.apply_async(work, (jobs[k][:2] + (jobs[k][2] * 2, 4, jobs[k][4]),))) for k in again]
        for k, h in hs2:
            try: out['res'][k] = h.get(max(1, end - time.time()))
            except Exception: pass
        pool.terminate()
    merged = {}
    for j, r in zip(jobs, out['res']):
        k = j[:2]
        if k not in merged: merged[k] = r; continue
        m = merged[k]; m['n'] += r['n']; m['triv'] += r['triv']; m['failed'] += r['failed']; m['undecided'] = m['undecided'] or r['undecided']; m['time'] += r['time']; m['loops'] = max(m['loops'], r['loops']); m['invs'] = max(m['invs'], r['invs']); m['unsolved'] = max(m['unsolved'], r['unsolved'])
        m['used'] = sorted(set(m['used'] + r['used'])); m['inlined'] = sorted(set(m['inlined'] + r['inlined'])); m['notes'] = m['notes'] or r['notes']
        for q in r['stats']: m['stats'][q] = m['stats'].get(q, 0) + r['stats'][q]
    out['res'] = list(merged.values())
    out['lemmas'] = getattr(specs, 'LEMMAS', {}).get(prop, [])

def lean(m):
    """arithmetic theorems the contracts rely on (independent of the code), checked by Lean"""
    f = m.get('lean')
    if not f: return None
    try: r = subprocess.run(['lean', HERE + '/lean/' + f], capture_output=True, text=True, timeout=300)
    except Exception as ex: return {'file': f, 'status': 'not checked in this run (%s)' % type(ex).__name__}
    bad = r.returncode or 'sorry' in r.stdout + r.stderr
    return {'file': 'lean/' + f, 'status': 'NOT PROVED' if bad else 'proved', 'theorems': re.findall(r'^theorem (\w+)', open(HERE + '/lean/' + f).read(), re.M), 'output': (r.stdout + r.stderr)[:500]}
def main():
    m = META['properties'].get(prop, {})
    H = {}; V = {}
    th = threading.Thread(target=harness, args=(H,)); 
    # the verifier forks workers, so the harness is driven from a separate process
    q = mp.get_context('fork').Queue()
    hp = mp.get_context('fork').Process(target=lambda: (harness(H), q.put(H))); hp.start()
    try: verify(V)
    except Exception as ex: V['error'] = '%s: %s' % (type(ex).__name__, ex); V['tb'] = traceback.format_exc()
    try: H = q.get(timeout=800 if tier == 'quick' else 3000)
    except Exception: H = {'status': 'timeout', 'error': 'no answer from the bounded search'}
    hp.terminate()
    LEAN = lean(m)
    res = V.get('res', [])
    obl = sum(r['n'] for r in res); bad = sum(len(r['failed']) for r in res); und = [r for r in res if r['undecided']]
    fails = [(r, f) for r in res for f in r['failed']]
    exact = [(r, f) for r, f in fails if f[1].get('exact') and not r['unsolved'] and not r['undecided']]
    replay = os.path.join(REPLAY, '%s.txt' % prop)
    def obltext():
        s = ''
        for r, f in fails[:40]: s += 'OBLIGATION NOT DISCHARGED: %s: %s\n  %s\n  goal: %s\n  model: %s\n' % (r['target'], f[0], f[1].get('result'), f[1].get('goal', '')[:1500], f[1].get('model'))
        for r in und: s += 'UNDECIDED: %s: %s\n' % (r['target'], r['undecided'])
        return s
    viol = None
    known = [k for k in KNOWN if k.startswith('finding: property=%s ' % prop)]
    if H.get('status') == 'fail':
        if any(k.split(' ', 2)[2].split(' :: ')[0] in H['what'] for k in known): pass
        else:
            with open(replay, 'w') as f: f.write('property %s violated on the current tree\nfailing input (seed %d, %s tier), replay with: VERIF_SEED=%d VERIF_TIER=%s python3-vt /verif/run.py %s\n%s\n\nverifier output:\n%s' % (prop, seed, tier, seed, tier, prop, H['what'], obltext()))
            viol = 'VIOLATION property=%s replay=%s' % (prop, replay)
    elif fails or und or V.get('error') or (V.get('missing') and H.get('status') != 'ok') or (H.get('status') in ('nocompile', 'error', 'timeout') and not res):
        with open(replay, 'w') as f: f.write('property %s: no failing input was found by the bounded search (%s %s), but these obligations generated from the current source were not accepted by the verifier\n%s%s' % (prop, H.get('status'), H.get('error', ''), obltext(), '%s %s' % (V.get('error') or '', ('contracts without a function: %s' % V.get('missing')) if V.get('missing') else '')))
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)
    stats = {}
    for r in res:
        for k, v in r['stats'].items(): stats[k] = round(stats.get(k, 0) + v, 2)
    mycontracts = {r['contract'] for r in res}
    used = sorted({u for r in res for u in r['used']} - mycontracts)
    cov = dict(obligations=obl, discharged=obl - bad - 0, checker_cmd='python3-vt /verif/run.py %s (z3 %s in process; cvc5, z3-4.8 as fallbacks)' % (prop, 'API'),
               trusted_base=META['trusted_base'] + m.get('trusted', []),
               functions_under_contract=[dict(function=r['qn'], contract=r['contract'], obligations=r['n'], discharged=r['n'] - len(r['failed']), by_normal_form=r['triv'], loops=r['loops'], invariants=r['invs'], seconds=round(r['time'], 2), status='undecided: ' + r['undecided'][:300] if r['undecided'] else 'discharged' if not r['failed'] else 'not discharged', inlined=r['inlined'][:30]) for r in res],
               callee_contracts_verified_by_other_checks=used, contracts_without_target=V.get('missing', []), backends={k: stats.get(k, 0) for k in ('z3', 'cvc5', 'z3-4.8', 'trivial')}, solver_seconds=stats.get('time', 0),
               undecided_functions=[r['target'] for r in und], undischarged=[('%s: %s' % (r['target'], f[0]))[:300] for r, f in fails][:40], extraction_error=V.get('error'), lemmas=V.get('lemmas', []), background_theorems=LEAN,
               bounded=dict(role=m.get('bounded', 'counterexample replay and bounded stand-in; never counted as proved'), status=H.get('status'), error=H.get('error'), evaluations=H.get('evaluations', 0), distinct_nontrivial=H.get('distinct', 0)),
               evaluations=H.get('evaluations', 0), distinct_nontrivial=H.get('distinct', 0), rule=m.get('rule', 'cases are generated from VERIF_SEED and boundary values; each case carries the inputs named in samples and is compared with an oracle written independently of the code'), samples=[H.get('sample') or H.get('what') or H.get('error') or 'none'])
    if m.get('level', 'proof') == 'other': cov['explanation'] = m.get('explanation', '')
    ev = dict(property=prop, tier=tier, seed=seed, level=m.get('level', 'proof'), coverage=cov, assumptions=META['assumptions'] + m.get('assumptions', []), wall_s=round(time.time() - T0, 1), violations=1 if viol else 0)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1, default=str)
    print('%s: %d functions under contract, %d obligations, %d discharged, %d undecided functions; bounded: %s %s evaluations; %.0f s' % (prop, len(res), obl, obl - bad, len(und), H.get('status'), H.get('evaluations', 0), time.time() - T0))
    for r, f in fails[:6]: print('  not discharged: %s: %s (%s)' % (r['target'], f[0], f[1].get('result')))
    for r in und[:6]: print('  undecided: %s: %s' % (r['target'], r['undecided'][:200]))
    if V.get('error'): print('  ' + V['error'][:500])
    if V.get('missing'): print('  contracts without a target in this tree: %s' % ' '.join(V['missing']))
    if H.get('error'): print('  bounded: %s' % str(H['error'])[:300])
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k.split(' ', 2)[2]))
    if viol: print('  ' + (H.get('what') or '')[:400]); print(viol)
    sys.stdout.flush()
    os._exit(1 if viol else 0)
main()
