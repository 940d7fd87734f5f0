#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/properties.json"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
cfg = json.load(open(V + '/contracts/properties.json'))
checks = []
for p, c in cfg.items():
    checks.append(dict(property=p, quick_cmd=f'python3 check.py {p} --tier quick', thorough_cmd=f'python3 check.py {p} --tier thorough',
                       technique=c.get('technique', 'contracts on the real Python functions, mechanically extracted and discharged by Verus; bounded stand-in on the real code for the rest'),
                       level=c['level'], level_note=c['note'], evidence_file=f'evidence/{p}.json',
                       **({'theorems': c['theorems']} if c.get('theorems') else {})))
json.dump(dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=[],
               notes='see DESIGN.md; no hooks in /repo are needed'), open(V + '/MANIFEST.json', 'w'), indent=1)
