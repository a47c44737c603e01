"""Scratch build of the real package (current tree) used for replay."""
import glob
import os
import re
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor
from . import cbuild

VENV_PY = '/opt/venv/bin/python'
SITE = '/opt/venv/lib/python3.12/site-packages'


class BuildError(Exception):
    pass


def _run(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-3000:]))


def build(scratch, san=False):
    """-> directory to put on sys.path"""
    root = os.path.join(scratch, 'real_asan' if san else 'real')
    pk = os.path.join(root, 'pywt')
    shutil.copytree(os.path.join(cbuild.REPO, 'pywt'), pk, ignore=shutil.ignore_patterns('__pycache__', 'tests', '*.so'))
    ext = os.path.join(pk, '_extensions')
    for src, dst in ((os.path.join(ext, 'config.pxi.in'), os.path.join(ext, 'config.pxi')),
                     (os.path.join(pk, '_c99_config.py.in'), os.path.join(pk, '_c99_config.py'))):
        with open(src) as f:
            t = f.read()
        with open(dst, 'w') as f:
            f.write(re.sub(r'@\w*complex\w*@', '1', t))
    with open(os.path.join(pk, 'version.py'), 'w') as f:
        f.write("version = full_version = short_version = '0.0.0'\ngit_revision = ''\nrelease = False\n")
    env = dict(os.environ, PYTHONPATH=SITE)
    import numpy as np
    inc = ['-I' + sysconfig.get_paths()['include'], '-I' + np.get_include(), '-Ic', '-I.']
    fl = ['-O1', '-fPIC', '-w', '-DHAVE_C99_COMPLEX', '-DCYTHON_CCOMPLEX=1', '-DPY_EXTENSION', '-DNPY_NO_DEPRECATED_API=NPY_1_22_API_VERSION']
    SAN = ['-fsanitize=address,undefined', '-fno-omit-frame-pointer', '-g']
    cs = [c for c in sorted(glob.glob(os.path.join(ext, 'c', '*.c'))) if '.template.' not in c]
    pyx = [os.path.basename(p)[:-4] for p in sorted(glob.glob(os.path.join(ext, '*.pyx')))]
    pyx = [p for p in pyx if p in ('_cwt', '_dwt', '_swt', '_pywt')] + [p for p in pyx if p not in ('_cwt', '_dwt', '_swt', '_pywt')]

    def obj(src):
        o = src + '.o'
        sf = SAN if san and os.path.dirname(src).endswith('/c') and not src.endswith('wavelets.c') else []
        _run(['gcc'] + fl + sf + inc + ['-c', src, '-o', o], ext)
        return o

    def cy(m):
        # run from the package root so that relative cimports resolve
        _run([VENV_PY, '-S', '-m', 'cython', '-3', '--fast-fail', os.path.join('pywt', '_extensions', m + '.pyx'), '-o',
              os.path.join('pywt', '_extensions', m + '.c')], root, env)
        return obj(os.path.join(ext, m + '.c'))
    with ThreadPoolExecutor(8) as ex:
        f1 = [ex.submit(cy, m) for m in pyx]
        f2 = [ex.submit(obj, c) for c in cs]
        mo = [f.result() for f in f1]
        co = [f.result() for f in f2]
        suf = sysconfig.get_config_var('EXT_SUFFIX')

        def link(i):
            _run(['gcc', '-shared'] + (['-fsanitize=address,undefined'] if san else []) + [mo[i]] + co + ['-lm', '-o', os.path.join(ext, pyx[i] + suf)], ext)
        list(ex.map(link, range(len(pyx))))
    return root


def worker_env(root, san=False, perturb=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env['PYTHONPATH'] = root + ':' + os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + ':' + SITE
    env['OMP_NUM_THREADS'] = '1'
    env['OPENBLAS_NUM_THREADS'] = '1'
    if perturb is not None:
        env['MALLOC_PERTURB_'] = str(perturb)
    if san:
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
        ub = subprocess.run(['gcc', '-print-file-name=libubsan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
        env['LD_PRELOAD'] = lib + ':' + ub
        env['ASAN_OPTIONS'] = 'detect_leaks=0,allocator_may_return_null=1,halt_on_error=1'
        env['UBSAN_OPTIONS'] = 'halt_on_error=0'
        env['PYTHONMALLOC'] = 'malloc'
    return env


if __name__ == '__main__':
    try:
        build(sys.argv[1], len(sys.argv) > 2 and sys.argv[2] == 'asan')
        sys.exit(0)
    except BuildError as e:
        print(e)
        sys.exit(1)
