"""Shared by the check bodies; imports no pywt."""
import random
from .speclib import *

DISCRETE = (['bior%s' % s for s in '1.1 1.3 1.5 2.2 2.4 2.6 2.8 3.1 3.3 3.5 3.7 3.9 4.4 5.5 6.8'.split()] +
            ['coif%d' % i for i in range(1, 18)] + ['db%d' % i for i in range(1, 39)] + ['dmey', 'haar'] +
            ['rbio%s' % s for s in '1.1 1.3 1.5 2.2 2.4 2.6 2.8 3.1 3.3 3.5 3.7 3.9 4.4 5.5 6.8'.split()] +
            ['sym%d' % i for i in range(2, 21)])
ORTHO = [w for w in DISCRETE if w[:3] in ('coi', 'sym', 'haa') or w.startswith('db')]
SHORT = ['haar', 'db2', 'bior2.2', 'rbio1.3', 'sym3', 'coif1', 'bior3.1', 'db4']
BIOR_LEN = {'1.1': 2, '1.3': 6, '1.5': 10, '2.2': 6, '2.4': 10, '2.6': 14, '2.8': 18, '3.1': 4, '3.3': 8, '3.5': 12, '3.7': 16, '3.9': 20,
            '4.4': 10, '5.5': 12, '6.8': 18}
F4 = ('f4', 'c8', 'f2')
ALLDT = ['f8', 'f4', 'c16', 'c8', 'f2', 'i4', 'i8', 'u1']
LAYOUTS = ['C', 'F', 'strided', 'neg', 'T', 'bc', 'bcl']


def flen(w):
    """filter length of a built-in wavelet (documented)"""
    if w.startswith('db'):
        return 2 * int(w[2:])
    if w.startswith('sym'):
        return 2 * int(w[3:])
    if w.startswith('coif'):
        return 6 * int(w[4:])
    if w == 'haar':
        return 2
    if w == 'dmey':
        return 62
    return BIOR_LEN[w[4:]]


def tol_of(w, dt='f8', n=1):
    ws = w if isinstance(w, (list, tuple)) else [w]
    t = 0.15 if any(x == 'dmey' for x in ws) else 1e-9
    if dt in F4:
        t = max(t, 4e-5)
    return t * n


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def outdt(dt):
    dt = dt if isinstance(dt, str) else str(dt)
    return {'f4': 'f4', 'f2': 'f4', 'c8': 'c8', 'c16': 'c16'}.get(dt, 'f8')


def lohi(dt):
    """value range for an input dtype"""
    if dt[0] == 'u':
        return dict(lo=0, hi=200)
    if dt == 'i1':
        return dict(lo=-100, hi=100)
    if dt == 'f2':
        return dict(lo=-64, hi=64)
    return {}


def getw(E, w):
    """wavelet argument in the requested form: name, or {'bank': n} = custom symbolic bank"""
    return E.pywt.Wavelet(w)


def bank(E, w):
    W = w if not isinstance(w, str) else E.pywt.Wavelet(w)
    return [list(map(num, f)) for f in (W.dec_lo, W.dec_hi, W.rec_lo, W.rec_hi)]


def num(v):
    return v


def symbank(E, F, name='f', full=True):
    """Wavelet with arbitrary (symbolic) filters of length F -> (wavelet, 4 lists); odd lengths are zero-padded at the end"""
    fs = [E.arr('%s%d' % (name, i), (F,), 'f8', lo=-1, hi=1) for i in range(4)]
    w = E.pywt.Wavelet('custom', filter_bank=[E.list(f) for f in fs])
    return w, [E.list(f) + [0.0] * (F % 2) for f in fs]


def peraxis(v, n, scalar=(str,)):
    return [v] * n if isinstance(v, scalar) else list(v)


def dwtn(x, banks, modes, axes):
    """x: object ndarray -> {key: object ndarray}; banks: list of (lo, hi)"""
    d = {'': x}
    for (lo, hi), m, ax in zip(banks, modes, axes):
        d = {k + c: along(v, ax, lambda r, f=f: convdec(r, f, m)) for k, v in d.items() for c, f in (('a', lo), ('d', hi))}
    return d


def idwtn(d, banks, modes, axes):
    """d: {key: object ndarray or None} all same shape -> object ndarray"""
    import numpy as np
    d = dict(d)
    for i in reversed(range(len(axes))):
        (lo, hi), m, ax = banks[i], modes[i], axes[i]
        nd = {}
        for k in {k[:-1] for k in d}:
            a, b = d.get(k + 'a'), d.get(k + 'd')
            r = None
            for c, f in ((a, lo), (b, hi)):
                if c is None:
                    continue
                t = along(c, ax, lambda r: convrec(r, f, m))
                r = t if r is None else r + t
            nd[k] = r
        d = nd
    return d['']


def crop(E, a, shape):
    return a[tuple(slice(0, s) for s in shape)]


def odd_ok(E, got, shape, axes, label):
    """shape of a reconstruction: equal, or one longer on odd transformed axes"""
    nd = len(shape)
    ax = {a % nd for a in axes}
    want = tuple(s + 1 if (i in ax and s % 2) else s for i, s in enumerate(shape))
    ok = len(got) == nd and all(g == s or (g == s + 1 and s % 2 == 1 and i in ax) for i, (g, s) in enumerate(zip(got, shape)))
    E.check(ok, '%s: reconstructed shape %r for data of shape %r' % (label, tuple(got), tuple(shape)))
    return ok


def mode_arg(E, m):
    """'int:sym' style mode arguments"""
    if isinstance(m, str) and m.startswith('int:'):
        return getattr(E.pywt.Modes, {'symmetric': 'symmetric'}.get(m[4:], m[4:]))
    if isinstance(m, list):
        return tuple(mode_arg(E, q) for q in m)
    return m


def wav_arg(E, w):
    if isinstance(w, list):
        return tuple(wav_arg(E, q) for q in w)
    if w.startswith('obj:'):
        return E.pywt.Wavelet(w[4:])
    return w
