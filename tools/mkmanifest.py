#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, V + '/bin')
from props import PROPS, TRUSTED, NOT_APPLICABLE
import glob, re
theorems = {}
checks = []
for k, c in sorted(PROPS.items()):
    e = dict(property=k, quick_cmd=f'bin/check {k}', thorough_cmd=f'bin/check {k} thorough')
    if c['level'] == 'proof':
        e['technique'] = 'contract-based deductive verification of the extracted source with Verus/Z3, plus a bounded search on the real code for failing inputs'
        e['level'] = 'proof'
        e['level_note'] = ('Contracts on the real functions (areas: ' + ', '.join(c['areas']) + ') discharged by Verus for all inputs on every run. Trusted: ' + '; '.join(TRUSTED[t] for t in c['trusted'])
                           + ('. Assumed: ' + '; '.join(c['assume']) if c['assume'] else '') + ('. Bounded only: ' + '; '.join(c['bounded']) if c['bounded'] else ''))
        if c.get('theorems'):
            e['theorems'] = c['theorems']
    else:
        e['technique'] = 'bounded: ' + c['search']
        e['level'] = 'exploration'
        e['level_note'] = 'Bounded stand-in until the functions involved are under contract: ' + c['search']
    checks.append(e)
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=[dict(property=k, reason=r) for k, r in NOT_APPLICABLE.items()],
         notes='No hooks in /repo: the checks extract the source text and link the crate as it is.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
