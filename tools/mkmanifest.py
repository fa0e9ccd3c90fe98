"""Writes MANIFEST.json from the checks present."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C37': 'quantifies over the numerical outcome of cross-correlations of random data (peak height, noise, FFT rounding); no static argument in reach bounds it',
 'C38': 'termination depends on run-time correlation values and on floating-point refinement of the resolution; no ranking function is derivable from the source alone',
}
VG = 'abstract interpretation of the source to a value graph, congruence with the contract term'
TECH = {}
NOTE = ('Static: parses /repo on every run and evaluates the source abstractly for all inputs; an obligation is discharged by equality of normal '
        'forms, violated only with a definite counterexample valuation of the terms, else reported undecided (quiet). Trusts the models of Python/numpy '
        'built-ins in /verif/sa and exact-real treatment where stated in DESIGN.md.')
NOTES = {}
exec(open(os.path.join(R, 'tools', 'techniques.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(R, 'checks', p.lower() + '.py')) and p not in NA:
        checks.append({'property': p, 'quick_cmd': f'python3-vt check.py {p} --tier quick', 'thorough_cmd': f'python3-vt check.py {p} --tier thorough',
                       'evidence_file': f'evidence/{p}.json', 'technique': TECH.get(p, VG), 'level': LEVEL.get(p, 'proof'), 'level_note': NOTES.get(p, NOTE)})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q sa checks check.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
