"""writes MANIFEST.json and meta.json (what each check trusts and assumes)"""
import json, sys, os
sys.path.insert(0, '/verif/cv')
import contract, specs
from meta_text import TB, ASSUME, PROPS, NA
HAVE = {}
for c in contract.REG.all:
    if c.verify:
        for p in (c.prop if isinstance(c.prop, tuple) else (c.prop,)): HAVE.setdefault(p, []).append(c.name)
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
meta = dict(trusted_base=TB, assumptions=ASSUME, properties={}); checks = []
for i in ids:
    if i in NA: continue
    d = dict(PROPS.get(i, {})); proof = i in HAVE
    d.setdefault('level', 'proof' if proof else 'exploration'); meta['properties'][i] = d
    tech = 'contract-based deductive verification of the real C++ source (clang AST to verification conditions, z3/cvc5), function by function' + ('; bounded counterexample search on the real code' if proof else '')
    if not proof: tech = 'bounded stand-in for the contracts of this property: executable postcondition checked on the real code'
    note = d.get('note', '') + (' Assumes: ' + '; '.join(d.get('assumptions', [])) if d.get('assumptions') else '')
    checks.append(dict(property=i, quick_cmd='python3-vt run.py %s quick' % i, thorough_cmd='python3-vt run.py %s thorough' % i, evidence_file='evidence/%s.json' % i, technique=tech, level=d['level'], level_note=note.strip() or 'see DESIGN.md'))
json.dump(meta, open('/verif/meta.json', 'w'), indent=1)
json.dump(dict(version=1, setup_cmd='cd /verif/cv && python3-vt frontend.py', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes='No hooks: the verifier reads /repo/src as it is. DESIGN.md describes the verifier (astx + cv), the contracts (cv/specs_*.py) and what is proved, bounded and assumed.'), open('/verif/MANIFEST.json', 'w'), indent=1)
