"""CBMC on the C kernels of the current tree, with native sanitizer replay."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from . import cbuild

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, 'checks', 'kernels')
FLAGS = ['--bounds-check', '--pointer-check', '--div-by-zero-check', '--signed-overflow-check', '--unwinding-assertions', '--slice-formula', '--no-standard-checks']
MEM = 5 << 30


def prepare(scratch):
    """translation units of the kernels: 'real' (as written) and 'byte' (float instantiated at unsigned char)"""
    c = os.path.join(cbuild.REPO, 'pywt', '_extensions', 'c')
    src = os.path.join(scratch, 'tu.c')
    with open(src, 'w') as f:
        f.write(''.join('#include "%s"\n' % x for x in ('common.h', 'convolution.h', 'wavelets.h', 'wt.h', 'common.c', 'convolution.c', 'wt.c')))
    t = subprocess.run(['gcc', '-E', '-P', '-I' + c, src], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True).stdout
    t = re.sub(r'typedef\s+int\s+pywt_index_t', 'typedef long pywt_index_t', t)      # Py_ssize_t in the extension
    with open(os.path.join(scratch, 'real.c'), 'w') as f:
        f.write(t)
    with open(os.path.join(scratch, 'byte.c'), 'w') as f:
        f.write(re.sub(r'\bfloat\b', 'unsigned char', t))
    return scratch


def unit(scratch, job):
    h, defs, ty = job
    p = os.path.join(scratch, 'u_%s.c' % hashlib.md5(json.dumps(job).encode()).hexdigest())
    with open(p, 'w') as f:
        f.write('#include "%s.c"\n#define T %s\n#include "%s/harness.h"\n#include "%s/%s.c"\n' % (
            ty, {'byte': 'unsigned char', 'real': 'float'}[ty], H, H, h))
    return p


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def run(scratch, job, timeout, unwind):
    p = unit(scratch, job)
    d = ['-D%s=%s' % kv for kv in sorted(job[1].items())]
    t0 = time.time()
    try:
        r = subprocess.run(['cbmc', p] + d + FLAGS + ['--unwind', str(unwind), '--stop-on-fail', '--trace'], cwd=scratch,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return dict(job=job, status='timeout', wall=time.time() - t0, note='cbmc time limit')
    out = r.stdout
    o = dict(job=job, wall=time.time() - t0)
    if 'VERIFICATION SUCCESSFUL' in out:
        m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', out)
        o.update(status='ok', vccs=int(m.group(1)) if m else 0, remaining=int(m.group(2)) if m else 0)
    elif 'VERIFICATION FAILED' in out:
        ins = {}
        for k, v in re.findall(r'^\s*(in_\w+)=(-?\d+)', out, re.M):
            ins[k] = int(v)
        m = re.search(r'Violated property:\s*(.*?)\n\n', out, re.S)
        o.update(status='fail', inputs=ins, what=re.sub(r'\s+', ' ', re.sub(scratch, '', m.group(1)))[:300] if m else '?')
    else:
        o.update(status='error', note=out[-300:])
    return o


def native(scratch, job, inputs, timeout=20):
    """compile the same harness with sanitizers and run it; returns a failure text or None"""
    p = unit(scratch, job)
    exe = p[:-2] + '.exe'
    if not os.path.exists(exe):
        d = ['-D%s=%s' % kv for kv in sorted(job[1].items())]
        r = subprocess.run(['clang' if shutil.which('clang') else 'clang-18', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DREPLAY', '-I/usr/include', p, '-o', exe] + d,
                           cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return None, 'native build failed: ' + r.stdout[-300:]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', **{k: str(v) for k, v in inputs.items()})
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=scratch)
    except subprocess.TimeoutExpired:
        return 'does not terminate within %d s' % timeout, ''
    if r.returncode:
        m = re.search(r'(ERROR: AddressSanitizer|runtime error|ASSERTION)[^\n]*', r.stdout)
        return (m.group(0) if m else 'exit %d %s' % (r.returncode, r.stdout[-200:])), ''
    return None, 'native run passes'


def check(scratch, jobs, timeout, nproc=8, unwind=160, budget=600):
    prepare(scratch)
    dead = time.time() + budget

    def one(j):
        if time.time() > dead:
            return dict(job=j, status='timeout', wall=0, note='check time budget')
        return run(scratch, j, min(timeout, max(5, dead - time.time())), unwind)
    with ThreadPoolExecutor(nproc) as ex:
        res = list(ex.map(one, jobs))
    viol, unrep = [], []
    tried = 0
    for r in res:
        if r['status'] == 'fail' and len(viol) < 5:
            why, note = native(scratch, r['job'], r['inputs'])
            if why:
                viol.append(dict(case=name(r['job']), what=r['what'], real=why, inputs=r['inputs'], job=r['job']))
            else:
                r['note'] = note
                unrep.append(r)
        elif r['status'] in ('timeout', 'error') and tried < 12:
            # a kernel that never returns also makes the solver run out of time: try it natively
            tried += 1
            for md in range(9):
                why, note = native(scratch, r['job'], dict(in_mode=md, in_k=0, in_hi=0, in_coef=0), timeout=10)
                if why:
                    viol.append(dict(case=name(r['job']), what='no answer from the solver', real=why, inputs=dict(in_mode=md, in_k=0, in_hi=0, in_coef=0), job=r['job']))
                    break
    return res, viol, unrep


def name(j):
    return 'cbmc:%s:%s:%s' % (j[0], j[2], ','.join('%s=%s' % kv for kv in sorted(j[1].items())))


def replay(d):
    t = tempfile.mkdtemp(prefix='vcbmc_')
    try:
        prepare(t)
        j = d['cbmc']
        why, note = native(t, [j[0], j[1], j[2]], d['inputs'])
        print(why or note)
        return 1 if why else 0
    finally:
        shutil.rmtree(t, ignore_errors=True)
