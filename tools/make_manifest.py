#!/usr/bin/env python3
"""Writes MANIFEST.json from va/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from va import registry
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'N01': 'Accuracy of matching depends on the environment and on floating-point sums over it; no static argument bounds the distance to a true pose that the source never mentions.',
    'N02': 'The decrease of the error is a property of the ceres library, which is not part of this repository, and of run-time numerics; the source only hands the problem over (that hand-over is decided by C11-C13).',
    'N03': 'A probabilistic statement about random draws; the source fixes only the bound that is computed (decided by C16), not the distribution it guarantees.',
    'N04': 'Timing under load; nothing in the source bounds the run time of matching, optimization or drawing.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        has_spec = any('spec' in s for s in registry.CHECKS[i])
        has_rule = any('rule' in s for s in registry.CHECKS[i])
        tech = []
        if has_spec:
            tech.append('value-graph equivalence (gated SSA value numbering with loop closed forms) of the source with a reference model')
        if has_rule:
            tech.append('structural rules over the type-checked syntax tree and call graph')
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': '; '.join(tech), 'level': registry.level(i), 'level_note': registry.note(i)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Not decided yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks read the sources of /repo on every run; nothing of it is executed.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
