"""C20: the continuous transform equals the centred correlation with the scaled derivative of the integrated wavelet, for every signal; frequencies and scale conversions."""
import math
from fractions import Fraction
from .common import *

BOUNDS = ('every real, complex, single-precision and integer signal of length 1-14 (1-D) and every array of up to 3 axes of length <= 5, every axis; scales from 1/2 to 12 including '
          'fractional ones, several at once; all continuous families (real and complex), both methods (fft: padded length <= 128); every sampling period in [1/8, 8] and every scale or '
          'frequency in [1/8, 64] for the conversions')
OUTSIDE = ('longer signals and other scales; the sampled wavelet itself (C21); discrete wavelets (the transform rejects them); rounding; scales for which a sample position is within '
           '1e-9 of the next grid point of the wavelet')


def kernel(E, wav, s, dt):
    """filter of the transform at scale s: the integrated wavelet picked at floor(m / (s * step))"""
    w = E.pywt.ContinuousWavelet(wav)
    psi, t = w.wavefun(10)
    psi, t = E.list(psi), [float(v) for v in E.list(t)]
    import numpy as np
    f = np.float32 if dt in F4 else float
    step = t[1] - t[0]
    I, acc = [], 0.0
    for v in psi:
        acc = acc + v
        I.append((acc * step).conjugate())
    t0, t1, tn = float(f(t[0])), float(f(t[1])), float(f(t[-1]))
    st, wd = float(f(t1 - t0)), float(f(tn - t0))
    n = math.ceil(s * wd + 1)
    J = []
    for m in range(n):
        q = Fraction(m) / (Fraction(s) * Fraction(st))
        k = round(q)
        if 0 < m and abs(q - k) < Fraction(1, 10 ** 9) and k < 1022:
            raise AssertionError('ambiguous scale %r' % s)
        j = k if abs(q - k) < Fraction(1, 10 ** 9) else math.floor(q)
        if j < len(I):
            J.append(j)
    return [I[j] for j in J][::-1]


def correlate(x, h, s):
    N, L = len(x), len(h)
    c = [0.0] * (N + L - 1)
    for i in range(N):
        for j in range(L):
            c[i + j] = c[i + j] + x[i] * h[j]
    f = (L - 2) // 2
    return [(c[n + f + 1] - c[n + f]) * -math.sqrt(s) for n in range(N)]


def tol(dt):
    return 2e-4 if dt in F4 else 1e-9


def run(E, wav, scales, shape, dt='f8', axis=-1, order='C', method='conv', form='arr', obj=False):
    import numpy as np
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    sn = E.snap(x)
    w = E.pywt.ContinuousWavelet(wav) if obj else wav
    sc = scales if form != 'nparr' else E.np.array(scales)
    data = E.nested(x) if form == 'list' else x
    if axis == 'default':
        r, fr = E.pywt.cwt(data, sc, w, method=method)
        axis = -1
    else:
        r, fr = E.pywt.cwt(data, sc, w, method=method, axis=axis)
    E.unchanged([x], sn)
    scl = list(scales) if isinstance(scales, (list, tuple)) else [scales]
    cplx = wav[:4] in ('cgau', 'cmor', 'shan', 'fbsp')
    o = outdt(dt)
    if cplx:
        o = {'f4': 'c8', 'f8': 'c16'}.get(o, o)
    if form != 'list':
        E.dtype(r, o, 'coefficients')
    E.shape(r, (len(scl),) + tuple(shape), 'coefficients')
    xs = obj_of(E, x, shape)
    for i, s in enumerate(scl):
        h = kernel(E, wav, s, dt)
        want = along(xs, axis, lambda row: correlate(list(row), h, s))
        E.eq(r[i], want, tol=tol(dt), label='%s scale %r' % (wav, s))
    freq(E, wav, fr, scl, 1.0)


def obj_of(E, x, shape):
    import numpy as np
    a = np.empty(tuple(shape), object)
    f = a.reshape(-1)
    for i, v in enumerate(E.list(x)):
        f[i] = v
    return a


def cfreq(E, wav):
    """dominant frequency of the sampled wavelet"""
    import numpy as np
    w = E.pywt.DiscreteContinuousWavelet(wav)
    r = w.wavefun(8) if wav in DISCRETE else w.wavefun(10)
    psi, t = r[0] if len(r) == 2 else r[1], r[-1]
    p = np.array([complex(v) for v in E.list(psi)])
    t = [float(v) for v in E.list(t)]
    k = int(np.argmax(np.abs(np.fft.fft(p))[1:])) + 1
    n = len(p)
    return min(k, n - k) / (t[-1] - t[0])


def freq(E, wav, fr, scales, T):
    cf = cfreq(E, wav)
    E.shape(fr, (len(scales),), 'frequencies')
    E.eq([f * (s * T) for f, s in zip(E.list(fr), scales)], [cf] * len(scales), tol=1e-9, label='frequencies of ' + wav)


def period(E, wav, scales):
    """output frequencies for every sampling period; the coefficients do not depend on it"""
    T = E.scalar('T', 0.125, 8)
    x = E.arr('x', (4,), 'f8')
    r, fr = E.pywt.cwt(x, E.carr(scales), wav, T)
    r1, f1 = E.pywt.cwt(x, scales, wav)
    E.eq(r, r1, tol=1e-12, label='coefficients')
    freq(E, wav, fr, scales, T)
    freq(E, wav, f1, scales, 1.0)


def convert(E, wav, prec, arr):
    """scale2frequency and frequency2scale: proportional to the reciprocal and inverse to each other, for every scale"""
    p = E.pywt
    kw = {} if prec is None else dict(precision=prec)
    cf = float(p.central_frequency(wav, **kw))
    if prec is None and wav in DISCRETE:
        E.eq([cf], [cfreq(E, wav)], tol=1e-9, label='central frequency')
    if prec == 10 and wav not in DISCRETE:
        E.eq([cf], [cfreq(E, wav)], tol=1e-9, label='central frequency')
    s = E.arr('s', (2,), 'f8', lo=0.125, hi=64) if arr else E.scalar('s', 0.125, 64)
    L = (lambda v: E.list(v)) if arr else (lambda v: [v])
    f = p.scale2frequency(wav, s, **kw)
    E.eq([a * b for a, b in zip(L(f), L(s))], [cf] * len(L(s)), tol=1e-9, label='scale2frequency')
    g = p.frequency2scale(wav, s, **kw)
    E.eq([a * b for a, b in zip(L(g), L(s))], [cf] * len(L(s)), tol=1e-9, label='frequency2scale')
    b = p.frequency2scale(wav, f, **kw)
    E.eq(b, s, tol=1e-9, label='round trip')


def centre(E, wav, want, res):
    """the central frequency of the families with a centre frequency parameter is that parameter, up to the resolution of the sampled support"""
    c = E.scalar('c', 0, 1)
    cf = float(E.pywt.central_frequency(wav, precision=10))
    E.le(c * abs(cf - want), c * res, tol=1e-9, label='central frequency of %s is %r' % (wav, cf))


def reject(E, what):
    x = E.arr('x', (6,), 'f8')
    f = dict(zero=lambda: E.pywt.cwt(x, [1, 0], 'mexh'), neg=lambda: E.pywt.cwt(x, [-1.0], 'mexh'), small=lambda: E.pywt.cwt(x, [0.01], 'mexh'),
             method=lambda: E.pywt.cwt(x, [1], 'mexh', method='direct'), name=lambda: E.pywt.cwt(x, [1], 'nosuch'),
             axis=lambda: E.pywt.cwt(x, [1], 'mexh', axis=(0, 1)), axis2=lambda: E.pywt.cwt(E.np.stack([x, x]), [1], 'mexh', axis=2))[what]
    E.raises(f, (ValueError, TypeError, IndexError), what)


RE = ['gaus1', 'gaus2', 'gaus5', 'gaus8', 'mexh', 'morl']
CX = ['cgau1', 'cgau4', 'cmor1.5-1.0', 'shan1.5-1.0', 'fbsp2-1.5-1.0']


def cases(tier, seed):
    deep = tier == 'thorough'
    for wav in RE + CX:
        big = wav[:4] in ('shan', 'fbsp')
        for N in (1, 2, 3, 6, 7) if not big else (1, 4, 5):
            for sc in ([1, 2, 5], [0.5, 1.25, 3.5], [2.6]) if not big or deep else ([1], [0.7]):
                yield 'cwt %s N=%d %r' % (wav, N, sc), 'run', dict(wav=wav, scales=sc, shape=[N])
    for dt in ('f4', 'c16', 'c8', 'i4', 'f2', 'u1'):
        for wav in ('gaus1', 'mexh', 'cmor1.5-1.0', 'cgau2'):
            yield 'cwt %s %s' % (wav, dt), 'run', dict(wav=wav, scales=[1, 1.7], shape=[5], dt=dt)
    for shape, axes in (([2, 5], (0, 1, -1, -2)), ([3, 2, 4], (0, 1, 2, -1, -3)), ([1, 3], (0, 1)), ([4, 1], (0, 1))):
        for ax in axes:
            for wav, dt in (('gaus2', 'f8'), ('cgau1', 'f8'), ('gaus1', 'c16')):
                yield 'cwt %r axis %d %s %s' % (shape, ax, wav, dt), 'run', dict(wav=wav, scales=[1, 2.3], shape=shape, axis=ax, dt=dt)
    for o in LAYOUTS + ['ro']:
        yield 'cwt layout %s' % o, 'run', dict(wav='mexh', scales=[1.3], shape=[3, 4], axis=0, order=o)
        yield 'cwt layout %s last' % o, 'run', dict(wav='gaus1', scales=[2], shape=[3, 4], axis='default', order=o)
    for form in ('list', 'nparr'):
        yield 'cwt form %s' % form, 'run', dict(wav='gaus3', scales=[1, 4], shape=[6], form=form, obj=True)
    yield 'cwt scalar scale', 'run', dict(wav='gaus3', scales=1.4, shape=[6])
    for wav in ('gaus1', 'mexh', 'cgau1', 'cmor1.5-1.0', 'morl'):
        for N, sc in ((5, [1, 2]), (6, [2, 1, 0.7]), (7, [1.9])):
            yield 'fft %s N=%d %r' % (wav, N, sc), 'run', dict(wav=wav, scales=sc, shape=[N], method='fft')
        yield 'fft 2d %s' % wav, 'run', dict(wav=wav, scales=[1, 2.3], shape=[3, 4], axis=0, method='fft')
    for dt in ('f4', 'c16', 'c8', 'i2'):
        for wav in ('gaus1', 'cgau1'):
            yield 'fft %s %s' % (wav, dt), 'run', dict(wav=wav, scales=[1, 1.4], shape=[4], dt=dt, method='fft')
    for ax in (0, 1, -2, -1):
        yield 'fft 3d axis %d' % ax, 'run', dict(wav='gaus2', scales=[1, 1.04, 0.7, 1], shape=[2, 3, 2], axis=ax, method='fft')
    # the padded size of the fft grows, shrinks and repeats along the scales
    for sh, ax in (([5], 'default'), ([3, 4], 0), ([3, 4], -1), ([2, 3, 2], 1)):
        for sc in ([2.3, 1], [2, 1.4, 0.7], [1, 2.3, 1], [0.7, 2, 2, 0.7, 1.4]):
            yield 'fft order %r axis %s %r' % (sh, ax, sc), 'run', dict(wav='gaus1', scales=sc, shape=sh, axis=ax, method='fft')
    yield 'fft one sample', 'run', dict(wav='gaus2', scales=[1, 2.3], shape=[1], method='fft', axis='default')
    for o in ('F', 'T', 'neg', 'strided'):
        yield 'fft layout %s' % o, 'run', dict(wav='mexh', scales=[0.7], shape=[2, 3], axis=0, order=o, method='fft')
    if deep:
        for wav in RE + CX[:3]:
            for sc in ([7, 8.5], [11.8], [0.95, 0.8], [4.1]):
                for N in (9, 14):
                    yield 'cwt deep %s N=%d %r' % (wav, N, sc), 'run', dict(wav=wav, scales=sc, shape=[N])
    else:
        for wav in ('gaus2', 'cmor1.5-1.0'):
            for N, sc in ((9, [7, 10.4]), (14, [8.5])):
                yield 'cwt long %s N=%d' % (wav, N), 'run', dict(wav=wav, scales=sc, shape=[N])
    for wav in ('gaus1', 'morl', 'cgau2', 'shan1.5-1.0', 'cmor1.5-1.0'):
        yield 'period %s' % wav, 'period', dict(wav=wav, scales=[1, 2.5])
    for wav in RE + CX + ['db1', 'db4', 'sym5', 'coif2', 'bior2.2', 'rbio1.3', 'haar', 'dmey']:
        for prec in (None, 10) if wav not in DISCRETE else (None, 5) if wav != 'dmey' else (3,):
            yield 'convert %s %r' % (wav, prec), 'convert', dict(wav=wav, prec=prec, arr=prec is None)
    for fam, M, sup in (('cmor%s-%s', 0, 8), ('shan%s-%s', 0, 20), ('fbsp1-%s-%s', 0, 20)):
        for B, C in ((0.5, 1.0), (1.5, 1.0), (1.0, 2.5), (0.25, 3.0)):
            yield 'centre ' + fam % (B, C), 'centre', dict(wav=fam % (B, C), want=C, res=(B / 2 if fam[0] != 'c' else 0) + 1.0 / sup)
    for what in ('zero', 'neg', 'small', 'method', 'name', 'axis', 'axis2'):
        yield 'reject %s' % what, 'reject', dict(what=what)
