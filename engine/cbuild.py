"""Lower the C sources of the current tree to LLVM IR and prepare a scratch
copy of pywt/_extensions that Cython's parser can read."""
import glob
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
from .errs import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang-18'
OPT = '/usr/bin/opt-18'


def first(*c):
    for x in c:
        if shutil.which(x):
            return x
    return c[0]


CLANG = first(CLANG, 'clang')
OPT = first(OPT, 'opt')
CFLAGS = ['-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w',
          '-DPY_EXTENSION', '-DHAVE_C99_COMPLEX', '-DCYTHON_CCOMPLEX=1', '-I/usr/include/python3.12', '-I.']


def prepare(scratch):
    """copy pywt/_extensions to scratch/_extensions with config.pxi generated."""
    dst = os.path.join(scratch, '_extensions')
    shutil.copytree(os.path.join(REPO, 'pywt', '_extensions'), dst)
    with open(os.path.join(dst, 'config.pxi.in')) as f:
        t = f.read()
    t = re.sub(r'@\w*complex\w*@', '1', t)
    if '@' in t:
        raise Unsupported('config.pxi.in: unknown substitution')
    with open(os.path.join(dst, 'config.pxi'), 'w') as f:
        f.write(t)
    return dst


def lower_one(args):
    cdir, src, out = args
    raw = out + '.raw.ll'
    subprocess.run([CLANG] + CFLAGS + [src, '-o', raw], cwd=cdir, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    subprocess.run([OPT, '-S', '-passes=sroa,instsimplify,simplifycfg', raw, '-o', out], cwd=cdir, check=True,
                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    with open(out) as f:
        return os.path.basename(src), f.read()


def lower(cdir, outdir, extra=()):
    os.makedirs(outdir, exist_ok=True)
    srcs = [os.path.basename(p) for p in sorted(glob.glob(os.path.join(cdir, '*.c'))) if '.template.' not in p]
    jobs = [(cdir, s, os.path.join(outdir, s + '.ll')) for s in srcs] + [(cdir, s, os.path.join(outdir, os.path.basename(s) + '.ll')) for s in extra]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lower_one, jobs))


CTN = {('int', 8, True): 'signed char', ('int', 8, False): 'unsigned char', ('int', 16, True): 'short', ('int', 16, False): 'unsigned short',
       ('int', 32, True): 'int', ('int', 32, False): 'unsigned int', ('int', 64, True): 'long long', ('int', 64, False): 'unsigned long long',
       ('float', 64, True): 'double', ('float', 32, True): 'float'}


def leaves(structs, root, prefix=''):
    for f, t in structs[root].items():
        p = prefix + f
        if t.k == 'struct':
            yield from leaves(structs, t.name, p + '.')
        elif t.k == 'ptr':
            yield p, 'void*'
        elif (t.k, t.bits, t.signed) in CTN:
            yield p, CTN[(t.k, t.bits, t.signed)]


def shim_source(structs):
    out = ['#include "common.h"', '#include "wavelets.h"', '#include "wt.h"', '#include "cwt.h"']
    for s in structs:
        if not structs[s]:
            continue
        for p, ct in leaves(structs, s):
            m = p.replace('.', '__')
            out.append('%s __get_%s__%s(%s* p){return (%s)p->%s;}' % (ct, s, m, s, ct, p))
            out.append('void __set_%s__%s(%s* p, %s v){p->%s = v;}' % (s, m, s, ct, p))
        out.append('unsigned long long __sizeof_%s(void){return sizeof(%s);}' % (s, s))
    return '\n'.join(out) + '\n'
