"""DESIGN.md from tools/design_head.md, the checks' own statements, tools/design_notes.json and the seed definitions."""
import ast
import glob
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(R, 'tools/design_notes.json')))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
out = [open(os.path.join(R, 'tools/design_head.md')).read().rstrip(), '', '## Properties', '']
seeds = {}
for f in sorted(glob.glob(os.path.join(R, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
for p in props:
    f = os.path.join(R, 'checks', p['id'].lower() + '.py')
    t = ast.parse(open(f).read())
    doc = ' '.join((ast.get_docstring(t) or '').split(': ', 1)[-1].split())
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            try:
                c[n.targets[0].id] = ' '.join(str(ast.literal_eval(n.value)).split())
            except ValueError:
                pass
    n = notes.get(p['id'], {})
    out += ['### %s %s' % (p['id'], p['title']), '', '*Decided:* ' + doc, '']
    if n.get('oracle'):
        out += ['*Oracle:* ' + n['oracle'], '']
    out += ['*Bounds:* ' + c.get('BOUNDS', ''), '', '*Outside:* ' + c.get('OUTSIDE', ''), '']
    if n.get('notes'):
        out += ['*Notes:* ' + n['notes'], '']
    if n.get('reach'):
        out += ['*Beyond the tests:* ' + n['reach'], '']
    s = seeds.get(p['id'], [])
    if s:
        out += ['*Planted bugs (all caught by this check):* ' + '; '.join('`%s` (%s)' % (i, m['needs']) for i, m in s), '']
out += [open(os.path.join(R, 'tools/design_tail.md')).read().rstrip()]
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
