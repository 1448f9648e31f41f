"""writes MANIFEST.json from the list of checks that exist"""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYM = 'symbolic execution of the compiled IR of the generated kernels; algebraic goals discharged lemma by lemma by z3 (nonlinear real arithmetic), counterexamples replayed natively'
N = {}
exec(open(os.path.join(V, 'lib', 'manifest_notes.py')).read())
checks = []
na = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    f = 'checks/%s.py' % p.lower()
    if os.path.exists(os.path.join(V, f)) and p in N:
        t, note = N[p]
        checks.append(dict(property=p, quick_cmd='env VERIF_TIER=quick python3-vt ' + f, thorough_cmd='env VERIF_TIER=thorough python3-vt ' + f, technique=t, level='other', level_note=note))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no check yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
