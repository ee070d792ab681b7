#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/config.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'bin'))
from config import PROPS
checks = []
for pid in sorted(PROPS):
    c = PROPS[pid]
    checks.append(dict(property=pid, quick_cmd='python3 bin/check.py --property %s --tier quick' % pid,
                       thorough_cmd='python3 bin/check.py --property %s --tier thorough' % pid,
                       technique=c['technique'], level=c['level'],
                       level_note=c.get('note', 'Randomized executions of the real code judged by a monitor; cases are drawn from VERIF_SEED and every judgement is made on observed outputs. Inputs not generated are not covered.')))
m = dict(version=1, setup_cmd='python3 bin/vbuild.py plain asan tsan msan', checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks))
