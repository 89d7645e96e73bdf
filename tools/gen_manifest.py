#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + '/lib')
import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                           technique=c['technique'], level='model_checking',
                           level_note='Bounded-exhaustive: every case of the stated space is executed on the real code. Bounds: %s. Trusts: %s' % (c['bounds'], '; '.join(c.get('assumptions', [])) or 'the harness oracle and the compiler')))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0,\'lib\'); import vbuild, registry"', checks=checks, not_applicable=na,
         notes='Checks compile harnesses from /verif and sources from /repo into /verif/build (ignored by git). No hooks in /repo are needed.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
