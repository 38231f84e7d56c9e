#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per claimed property of properties.jsonl (those with rules in sa/rules.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, '..')
sys.path.insert(0, ROOT)
from sa import rules
NA = {
    'C50': 'convergence is a statement about the limit of a numerical trajectory; no static rule bounds it',
    'C51': 'absence of collisions depends on the numerical interaction of all vehicles over time',
    'C52': 'containment over the horizon depends on numerical propagation of intervals, known to be conservative only step by step',
    'C53': 'the pixels are produced by the drawing library from runtime coordinates; no static argument reaches the image',
    'C54': 'a probabilistic coverage statement about data; not decidable from the source',
    'C55': 'the test only samples nine points of each rectangle, so the statement is false for thin crossings by design; exactness is geometric and quantifies over reals',
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if rules.PAIRS.get(i) or rules.QUERIES.get(i):
        t = []
        if rules.PAIRS.get(i):
            t.append('global value numbering of the current source compared with reference definitions')
        if rules.QUERIES.get(i):
            t.append(rules.TECHNIQUE.get(i, 'dataflow queries over the resolved program'))
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                           technique='static analysis: ' + '; '.join(t), level='other',
                           level_note='Holds for every input of the analysed functions under the stated assumptions '
                                      '(real arithmetic, library functions as documented); constructs the analysis '
                                      'cannot model are listed as undecided in the evidence and are not claimed.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'.\'); import sa.rules"', checks=checks, not_applicable=na,
               notes='All checks read /repo\'s current source; nothing of /repo is executed.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
