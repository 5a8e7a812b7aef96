#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and levels below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
exec(open(os.path.join(HERE, 'levels.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    lv, note = LEVEL.get(i, ('other', DEFNOTE))
    checks.append(dict(property=i, quick_cmd='python3 check ' + i, thorough_cmd='python3 check ' + i + ' thorough',
        technique='contract-based deductive verification of the real code (pyvc: obligations from /repo\'s source, z3/cvc5)' + ('' if lv == 'proof' else '; bounded stand-in for what is not discharged'), level=lv, level_note=note))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
    notes='No hooks in /repo. known-findings: known-findings.txt (all entries are repaired defects).'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
