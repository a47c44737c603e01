"""writes MANIFEST.json from the list of checks that exist"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
NOTE = ('Decided by z3 for every value of the symbolic inputs within the bounds written in the evidence file (sizes, filters, modes, levels listed there); '
        'assumes exact real arithmetic in the data path with a stated tolerance, the numpy model of engine/symnp.py and clang lowering, all cross-checked on concrete traces of a real build in every run; '
        'counterexamples are replayed on the real build before they are reported.')
TECH = 'symbolic execution of the real Python, Cython and C sources, z3 decides the assertions for all data within the bounds'
SPEC = {
 'C05': dict(technique='symbolic execution with 64-bit bit-vector sizes through the public functions, Cython and C; z3'),
 'C06': dict(technique='CBMC on the C kernels with exact buffer sizes and complete unwinding; symbolic execution of the callers with memory checking',
             level_note='CBMC decides bounds, overflow, completeness of the output and termination for the stated sizes with modes and inspected element symbolic; floats are instantiated at bytes or float as written; failures are replayed natively under ASan/UBSan. The callers are executed symbolically from source.'),
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(R, 'checks', i.lower() + '.py')):
        s = SPEC.get(i, {})
        checks.append(dict(property=i, quick_cmd='./run_check.sh %s quick' % i, thorough_cmd='./run_check.sh %s thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=s.get('technique', TECH), level='other', level_note=s.get('level_note', NOTE)))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='Bounded solver-based checking of the real code; see DESIGN.md. Checks rebuild everything from /repo in scratch folders.'),
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
