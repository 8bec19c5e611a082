#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from jobs.py and the table below"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import jobs
NA = {}
TECH = 'symbolic execution of the compiled LLVM IR of the real code, each assertion decided by z3 for all inputs within the bounds'
checks = []
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
for i in ids:
    if i in jobs.PROPS:
        note = 'decided by the solver within these bounds, nothing beyond them: ' + '; '.join(jobs.PROPS[i]['bounds'])
        note += '. Level model_checking: bounded and exhaustive on the compiled code, no model in between.'
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique=TECH, level='model_checking', level_note=note))
na = [dict(property=i, reason=NA.get(i, 'no check has been built yet')) for i in ids if i not in jobs.PROPS]
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na)
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
