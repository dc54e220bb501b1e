#!/usr/bin/env python3
"""writes MANIFEST.json from the check modules present"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = ('Bounded: holds for every value of the symbolic inputs within the sizes listed in the evidence file (reals are mathematical reals, '
        'not floats, unless the harness says so). Trusted: the numpy/scipy/libpysal/mapclassify/esda stand-ins in /verif/sx, z3, and the '
        'source rewriting; every counterexample is replayed on the real package before it is reported.')
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'checks', i.lower() + '.py')) and i not in NA:
        checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python run.py check {i} --tier quick',
                           thorough_cmd=f'/opt/venv/bin/python run.py check {i} --tier thorough',
                           technique='symbolic execution of the real Python source with z3 (all paths and inputs within bounds), counterexamples replayed',
                           level='model_checking', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); import sx.driver"', checks=checks,
         not_applicable=na,
         notes='Solver-based checking: see DESIGN.md. No hooks in /repo are needed: the source is rewritten in memory on every run.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
