"""Writes /verif/seeded/<id>/ from tools/seeddefs.py: patch.diff against /repo's working tree, demo.sh, demo.py, meta.json."""
import difflib, json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from seeddefs import SEEDS
want = sys.argv[1:]
ids = [s['id'] for s in SEEDS]
assert len(set(ids)) == len(ids), 'repeated id'
for s in SEEDS:
    if want and s['id'] not in want:
        continue
    files = {}
    for f, old, new in s['edits']:
        t = files.get(f) or open('/repo/' + f).read()
        if isinstance(old, tuple):          # (text, n): n-th occurrence, counted from 0
            old, n = old
            parts = t.split(old)
            assert len(parts) > n + 1, (s['id'], f, old)
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        else:
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            t = t.replace(old, new)
        files[f] = t
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    out = []
    for f, t in files.items():
        out += list(difflib.unified_diff(open('/repo/' + f).read().splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(''.join(out))
    open(d + '/demo.py', 'w').write(s['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the property holds on this input, non-zero when it is broken\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/meta.json', 'a').write('\n')
