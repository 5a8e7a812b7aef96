#!/usr/bin/env python3
"""Writes baseline_consts.json: the constants in the sources as committed (a search heuristic: constants not in it get more weight)."""
import json, os, glob
from base import consts, REPO, HERE
res = {}
for f in sorted(glob.glob(os.path.join(REPO, 'lib/sldr/*.py')) + [os.path.join(REPO, 'scripts', x) for x in ('zonetab', 'fontmatch')]):
    s, i = consts(f)
    res[os.path.relpath(f, REPO)] = dict(strs=sorted(s), ints=sorted(i))
json.dump(res, open(os.path.join(HERE, 'baseline_consts.json'), 'w'), indent=0, sort_keys=True)
