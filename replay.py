"""Replay a counterexample file against a fresh build of the current /repo tree."""
import json
import shutil
import sys
import tempfile
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import realbuild, runner
d = json.load(open(sys.argv[1]))
if 'cbmc' in d:
    from engine import cbmc
    sys.exit(cbmc.replay(d))
t = tempfile.mkdtemp(prefix='vreplay_')
try:
    root = realbuild.build(t)
    r = runner.real_jobs(root, [('0', d['fn'], d['cfg'], d['inputs'] or {})], d['module'], nproc=1)
    print(json.dumps(r['0']['fails'], indent=1))
    sys.exit(1 if r['0']['fails'] else 0)
finally:
    shutil.rmtree(t, ignore_errors=True)
