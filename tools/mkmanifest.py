#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and the registered checks."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from properties import PROPERTIES

claimed = set()
for f in os.listdir(os.path.join(HERE, 'props')):
    if f.endswith('.py'):
        claimed |= set(re.findall(r"^@prop\('(P\d+)'\)", open(os.path.join(HERE, 'props', f)).read(), re.M))
NA = {}
NOTE = {}
try:
    from notes import NA, NOTE
except ImportError:
    pass
DEFAULT = ('Every obligation is generated from /repo\'s current source by symbolic execution of the real functions against '
           'contracts written as executable specifications, with inferred and checked loop invariants, for inputs of any '
           'size, and discharged by Z3. Trusted: the interpreter in dv/, its models of builtins, struct and io.BytesIO '
           '(cross-checked against CPython on random inputs in every run), Z3.')
ps = [p for p in PROPERTIES if p['id'] in claimed or p['id'] in NA]
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in ps:
        fh.write(json.dumps(p) + '\n')
doc = {
    'version': 1,
    'setup_cmd': 'python3 check.py --setup',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
        'technique': NOTE.get(p['id'], {}).get('technique', 'contract-based deductive verification (symbolic execution + SMT)'),
        'level': NOTE.get(p['id'], {}).get('level', 'proof'),
        'level_note': NOTE.get(p['id'], {}).get('note', DEFAULT),
    } for p in ps if p['id'] in claimed],
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items()) if k not in claimed],
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(doc, fh, indent=1)
    fh.write('\n')
print(len(doc['checks']), 'checks', len(doc['not_applicable']), 'not applicable')
