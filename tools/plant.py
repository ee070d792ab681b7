#!/usr/bin/env python3
"""plant.py SPEC.py: writes /verif/seeded/<id>/ from a list of planted-bug descriptions.
SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new[, occurrence])], needs, breaks, demo=C text, extra=gcc flags)]."""
import sys, os, subprocess, json, shutil
spec = {}; exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
SC = '/tmp/sc_plant'
shutil.rmtree(SC, ignore_errors=True); subprocess.check_call(['git', 'clone', '-q', '/repo', SC])
common = open('/verif/tools/demo_common.txt').read()
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    subprocess.check_call(['git', '-C', SC, 'checkout', '-q', '--', '.'])
    for e in b['edits']:
        p = os.path.join(SC, e[0]); s = open(p).read(); n = s.count(e[1]); k = e[3] if len(e) > 3 else None
        if n == 0 or (n > 1 and k is None and "all" not in b): print(b['id'], 'pattern occurs', n, 'times:', e[1][:60]); break
        if k is None: s = s.replace(e[1], e[2])
        else:
            i = -1
            for _ in range(k + 1): i = s.index(e[1], i + 1)
            s = s[:i] + e[2] + s[i + len(e[1]):]
        open(p, 'w').write(s)
    else:
        d = '/verif/seeded/' + b['id']; os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', SC, 'diff']))
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.c', 'w').write(b['demo']); open(d + '/demo.sh', 'w').write(common.replace('$EXTRA', b.get('extra', '')))
        print(b['id'], 'written')
shutil.rmtree(SC)
