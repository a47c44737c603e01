"""C23: wavefun approximates the scaling and wavelet functions by the cascade of the filters, for every filter bank; integrate_wavelet is the cumulative sum times the step."""
import math
from .common import *

BOUNDS = ('every real bank of four filters of length 2-8 (coefficients in [-1, 1]) with the orthogonal/biorthogonal flags in every combination, refinement levels 1-3 (longer filters: 1-2); '
          'all 106 built-in wavelets at levels 1-4 (every amplitude of the approximated function); integrate_wavelet of every sampled function of up to 9 points, and of every bank')
OUTSIDE = 'deeper levels, longer symbolic filters, rounding; the sign of the biorthogonal wavelet functions is the library convention (negative unless the number of vanishing moments is 1 modulo 4)'
SQ2 = math.sqrt(2)
TRACE_TOL = 1e-6


def cascade(first, lo, L):
    """samples of the level-L approximation, without the scaling"""
    v = [1.0]
    for j in range(L):
        f = first if j == 0 else lo
        u = [0.0] * (2 * len(v) - 1)
        u[::2] = v
        v = conv(u, f)
    return v


def conv(a, b):
    r = [0.0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x.__class__ is float and x == 0.0:
            continue
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


def npoints(F, L, orth):
    """number of grid points: the support F - 1 in steps of 2**-L, at least one sample more than the cascade plus the leading zero"""
    keep = (F - 1) * (2 ** L - 1) + 1
    return max((F - 1) * 2 ** L + (1 if orth else 0), keep + 2), keep


def approx(E, first, lo, L, orth, sign=1.0):
    n, keep = npoints(len(lo), L, orth)
    v = cascade(first, lo, L)
    assert len(v) == keep
    s = SQ2 ** L * sign
    return [0.0] + [x * s for x in v] + [0.0] * (n - keep - 1)


def checkfun(E, w, fb, L, tol, label, deg=1):
    orth = bool(w.orthogonal)
    r = w.wavefun(L) if L != 8 else w.wavefun()
    dl, dh, rl, rh = fb
    F = len(dl)
    E.same(len(r), 3 if orth else 5, 'number of results')
    n, keep = npoints(F, L, orth)
    x = r[-1]
    E.eq(x, [i / 2.0 ** L for i in range(n)], tol=1e-12, label='grid')
    for a in r:
        E.shape(a, (n,), label)
    if orth:
        want = [approx(E, rl, rl, L, True), approx(E, rh, rl, L, True)]
    else:
        sg = -1.0 if w.biorthogonal and (w.vanishing_moments_psi if w.vanishing_moments_psi is not None else -1) % 4 != 1 else 1.0
        want = [approx(E, dl[::-1], dl[::-1], L, False), approx(E, dh[::-1], dl[::-1], L, False, sg), approx(E, rl, rl, L, False), approx(E, rh, rl, L, False, sg)]
    for a, b, nm in zip(r, want, ('phi', 'psi') if orth else ('phi_d', 'psi_d', 'phi_r', 'psi_r')):
        E.eq(a, b, tol=tol, label='%s %s' % (label, nm))
    return r, want, x


def custom(E, F, L, orth, bi, integ=False):
    fs = [E.list(E.arr('f%d' % i, (F,), 'f8', lo=-1, hi=1)) for i in range(4)]
    w = E.pywt.Wavelet('mine', filter_bank=fs)
    G = w.dec_len
    fb = [f + [0.0] * (G - F) for f in fs]
    w.orthogonal, w.biorthogonal = orth, bi
    r, want, x = checkfun(E, w, fb, L, 1e-9, 'custom F=%d level %d' % (F, L))
    if integ:
        q = E.pywt.integrate_wavelet(w, precision=L)
        E.same(len(q), 2 if orth else 3, 'integrals')
        for a, b in zip(q[:-1], [want[1]] if orth else [want[1], want[3]]):
            csum(E, a, b, 2.0 ** -L)
        E.eq(q[-1], x, tol=1e-12, label='grid of the integral')


def csum(E, got, psi, step):
    acc, out = 0.0, []
    for v in psi:
        acc = acc + v
        out.append(acc * step)
    E.eq(got, out, tol=1e-9, label='integral')


def builtin(E, W, L):
    """built-in tables; the amplitude is symbolic"""
    w = E.pywt.Wavelet(W)
    fb = [list(f) for f in w.filter_bank]
    c = E.scalar('c', 0, 1)
    orth = W[:3] not in ('bio', 'rbi')
    r = w.wavefun(level=L) if L != 8 else w.wavefun()
    E.same(len(r), 3 if orth else 5, 'number of results')
    n, keep = npoints(len(fb[0]), L, orth)
    dl, dh, rl, rh = fb
    if orth:
        want = [approx(E, rl, rl, L, True), approx(E, rh, rl, L, True)]
    else:
        sg = -1.0 if w.vanishing_moments_psi % 4 != 1 else 1.0
        want = [approx(E, dl[::-1], dl[::-1], L, False), approx(E, dh[::-1], dl[::-1], L, False, sg), approx(E, rl, rl, L, False), approx(E, rh, rl, L, False, sg)]
    for a, b in zip(r, want):
        E.shape(a, (n,), W)
        E.eq([c * v for v in E.list(a)], [c * v for v in b], tol=1e-9, label='%s level %d' % (W, L))
    E.eq([c * v for v in E.list(r[-1])], [c * (i / 2.0 ** L) for i in range(n)], tol=1e-11, label='grid')
    q = E.pywt.integrate_wavelet(W if L % 2 else w, L)
    E.same(len(q), 2 if orth else 3, 'integrals')
    for a, b in zip(q[:-1], [want[1]] if orth else [want[1], want[3]]):
        acc, out = 0.0, []
        for v in b:
            acc += v
            out.append(c * (acc / 2.0 ** L))
        E.eq([c * v for v in E.list(a)], out, tol=1e-9, label=W + ' integral')


def contint(E, name, L):
    """integral of a continuous wavelet: the cumulative sum of wavefun, for every amplitude"""
    c = E.scalar('c', 0, 1)
    w = E.pywt.ContinuousWavelet(name)
    psi, x = w.wavefun(L)
    q, xq = E.pywt.integrate_wavelet(name if L % 2 else w, precision=L)
    step = (w.upper_bound - w.lower_bound) / (2 ** L - 1)
    acc, out = 0.0, []
    for v in E.list(psi):
        acc = acc + v
        out.append(acc * step)
    E.eq([v.real * c for v in E.list(q)], [v.real * c for v in out], tol=1e-9, label=name)
    E.eq([v.imag * c for v in E.list(q)], [v.imag * c for v in out], tol=1e-9, label=name)
    E.eq(xq, E.list(x), tol=1e-12, label='grid')


def general(E, n, dt, form):
    """integral of a general sampled signal (deprecated form): cumulative sum times the grid step"""
    y = E.arr('y', (n,), dt)
    b = E.list(E.arr('b', (2,), 'f8', lo=-4, hi=4))
    xs = [b[0] + (b[1] - b[0]) * float(i) for i in range(n)]
    s = E.snap(y)
    a = (E.list(y), xs) if form == 'list' else (y, E.np.array(xs))
    r, x = E.pywt.integrate_wavelet(list(a) if form == 'list' else a)
    E.unchanged([y], s)
    acc, out = 0.0, []
    for v in E.list(y):
        acc = acc + v
        out.append(acc * (b[1] - b[0]))
    E.eq(r, out, tol=1e-9, label='integral', deg=2)
    E.eq(x, xs, tol=1e-12, label='grid')


def reject(E, W, L):
    c = E.scalar('c', 0, 1)
    E.raises(lambda: E.pywt.Wavelet(W).wavefun(level=L), (ValueError,), 'level %d' % L)


def cases(tier, seed):
    deep = tier == 'thorough'
    for F in (1, 2, 3, 4, 5, 6, 8):
        for L in (1, 2, 3) if F <= (4 if not deep else 6) else (1, 2):
            for orth, bi in ((True, True), (True, False), (False, True), (False, False)):
                if L == 3 and F > 3 and not deep and (orth, bi) not in ((True, True), (False, True)):
                    continue
                yield 'custom F=%d L=%d %d%d' % (F, L, orth, bi), 'custom', dict(F=F, L=L, orth=orth, bi=bi, integ=F <= 4)
    for i, W in enumerate(DISCRETE):
        for L in ((1, 2, 3, 4) if deep else (1 + i % 2, 3)):
            yield '%s L=%d' % (W, L), 'builtin', dict(W=W, L=L)
    for W in ('haar', 'db2', 'bior2.2', 'bior1.3', 'rbio3.1', 'coif1', 'sym4') if not deep else DISCRETE[::2]:
        yield '%s default level' % W, 'builtin', dict(W=W, L=8)
    for name in ('gaus1', 'gaus4', 'mexh', 'morl', 'cgau2', 'shan1.5-1', 'fbsp2-1-0.5', 'cmor1.5-1.0'):
        for L in (3, 6):
            yield 'integral %s %d' % (name, L), 'contint', dict(name=name, L=L)
    for n in (2, 3, 5, 9):
        for dt in ('f8', 'c16'):
            for form in ('list', 'arr'):
                yield 'general %d %s %s' % (n, dt, form), 'general', dict(n=n, dt=dt, form=form)
    for L in (0, -1):
        for W in ('db2', 'bior1.3'):
            yield 'level %d %s' % (L, W), 'reject', dict(W=W, L=L)
