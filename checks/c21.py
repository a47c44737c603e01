"""C21: sampled continuous wavelets equal their documented closed formulas for every grid (symbolic bounds), every bandwidth and centre frequency,
in single and double precision; exp, sin, cos and sqrt are opaque functions of exact real arguments."""
import math
from .common import *

BOUNDS = ('every real pair of grid bounds in [-8, 8] with 1-5 grid points (each point evaluated with its own symbolic abscissa); every bandwidth and centre frequency in [1/8, 4]; '
          'gaus1-8, cgau1-8, fbsp orders 1-8, shan, cmor, mexh, morl; both precisions; parameters given in the name (fixed values) and through the attributes (all values)')
OUTSIDE = ('rounding of the elementary functions and of the data path; grid points and parameters of magnitude below 2**-20 other than zero; the sign of the Gaussian derivatives '
           '(either sign is accepted, the same one over the whole grid); single precision is compared within 3e-4')
GA = ['gaus%d' % i for i in range(1, 9)]
CG = ['cgau%d' % i for i in range(1, 9)]


def pmul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def deriv(p):
    return [k * c for k, c in enumerate(p)][1:] or [0]


def padd(a, b, s=1):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + s * (b[i] if i < len(b) else 0) for i in range(n)]


def gauss(p, cplx):
    """p-th derivative of exp(-x**2) (times exp(-ix) if cplx): polynomials of (real, imaginary) part in front, and the squared norm over sqrt(pi/2)"""
    re, im = [1], [0]
    for _ in range(p):
        # d/dx (P e^{-x^2 - i x}) = (P' - 2x P - i P) e^{...}
        nr = padd(deriv(re), pmul([0, 2], re), -1)
        ni = padd(deriv(im), pmul([0, 2], im), -1)
        if cplx:
            nr, ni = padd(nr, im), padd(ni, re, -1)
        re, im = nr, ni
    sq = padd(pmul(re, re), pmul(im, im))
    # integral of x**(2k) exp(-2 x**2) = sqrt(pi/2) (2k-1)!! / 4**k
    n = 0.0
    for k, c in enumerate(sq):
        if k % 2 == 0:
            f = 1.0
            for q in range(1, k, 2):
                f *= q
            n += c * f / 4.0 ** (k // 2)
    return re, im, n


def poly(p, x):
    r = 0.0
    for k, c in enumerate(p):
        if c:
            t = float(c)
            for _ in range(k):
                t = t * x
            r = r + t
    return r


def spec(E, fam, num, x, B=None, C=None, M=None, single=False):
    """(re, im, k) with the documented formula at x = (re, im) / k"""
    f = E.fun
    k = 1.0
    if fam == 'gaus' or fam == 'cgau':
        re, im, n = gauss(num, fam == 'cgau')
        g = f('exp', -(x * x)) * (1.0 / math.sqrt(n * math.sqrt(math.pi / 2)))
        if fam == 'gaus':
            return poly(re, x) * g, 0.0, k
        c, s = f('cos', x), f('sin', x)
        pr, pi = poly(re, x), poly(im, x)
        return (pr * c + pi * s) * g, (pi * c - pr * s) * g, k
    if fam == 'mexh':
        return (1.0 - x * x) * f('exp', x * x * -0.5) * (2 / (math.sqrt(3) * math.pi ** 0.25)), 0.0, k
    if fam == 'morl':
        return f('exp', x * x * -0.5) * f('cos', x * 5.0), 0.0, k
    w = x * C * (2 * math.pi)
    c, s = f('cos', w), f('sin', w)
    if fam == 'cmor':
        g = f('exp', -(x * x) / B) / f('sqrt', B * math.pi)
        return c * g, s * g, k
    g = f('sqrt', B)
    if not E.branch(x == 0):
        if fam == 'shan':
            M = 1
        u = x * B * math.pi / float(M)
        for _ in range(M):
            g = g * f('sin', u) if single else g * (f('sin', u) / u)
            k = k * u
    return (c * g, s * g, k) if single else (c * g, s * g, 1.0)


def near0(E, x):
    E.assume(E.branch(x == 0) or E.branch(x >= 2.0 ** -20) or E.branch(x <= -2.0 ** -20))


def flip(E, w, fam, num, dt):
    """sign convention of the Gaussian families, read off one concrete sample"""
    if fam not in ('gaus', 'cgau'):
        return 1.0
    v = E.pywt.ContinuousWavelet(w)
    v.lower_bound, v.upper_bound = 0.25, 0.75
    p = E.list(v.wavefun(length=2)[0])[0]
    x = 0.25
    re, im, n = gauss(num, fam == 'cgau')
    want = poly(re, x) if fam == 'gaus' else poly(re, x) * math.cos(x) + poly(im, x) * math.sin(x)
    return 1.0 if complex(p).real * want > 0 else -1.0


def grid(E, w, n, dt='f8', par=None, M=None, how='attr', hi=8):
    """psi, x = wavefun: x is the uniform grid over [lower_bound, upper_bound], psi the formula at every point"""
    fam = w[:4] if w[:4] in ('gaus', 'cgau', 'mexh', 'morl', 'shan', 'fbsp', 'cmor') else w
    num = int(w[4:]) if fam in ('gaus', 'cgau') else 0
    single = dt == 'f4'
    if single:
        hi = 1 if w in ('shan', 'fbsp') else 2
    E.opaque_math(2e-5 if single else 1e-11)
    t = 3e-4 if single else 1e-9
    B = C = None
    if how == 'name':
        name = {'fbsp': 'fbsp%d-%s-%s', 'shan': 'shan%s-%s', 'cmor': 'cmor%s-%s'}[fam] % (((M,) if fam == 'fbsp' else ()) + tuple(par))
        B, C = float(par[0]), float(par[1])
    else:
        name = w if fam not in ('shan', 'fbsp', 'cmor') else {'fbsp': 'fbsp2-1.0-0.5', 'shan': 'shan0.5-1.0', 'cmor': 'cmor1.0-0.5'}[fam]
    s = flip(E, name, fam, num, dt)
    v = E.pywt.ContinuousWavelet(name, dtype=E.np.float32 if single else E.np.float64)
    if fam in ('shan', 'fbsp', 'cmor'):
        if how == 'attr':
            q = E.list(E.arr('par', (2,), 'f4', lo=0.125, hi=1 if single else 4))
            v.bandwidth_frequency, v.center_frequency = q
            B, C = q
        if fam == 'fbsp' and how == 'attr':
            v.fbsp_order = M
        if fam == 'fbsp':
            E.same(v.fbsp_order, M, 'order')
        E.eq([v.bandwidth_frequency, v.center_frequency], [B, C], tol=1e-6, label='parameters')
        B, C = v.bandwidth_frequency, v.center_frequency
    b = E.list(E.arr('b', (2,), 'f4', lo=-hi, hi=hi))
    E.assume(b[0] != b[1])
    v.lower_bound, v.upper_bound = b
    psi, x = v.wavefun(length=n)
    E.dtype(x, dt, 'grid')
    cplx = fam in ('cgau', 'shan', 'fbsp', 'cmor')
    E.same(bool(v.complex_cwt), cplx, 'complex flag')
    E.dtype(psi, ('c8' if single else 'c16') if cplx else dt, 'psi')
    E.shape(psi, (n,), 'psi')
    E.shape(x, (n,), 'x')
    E.eq(x, [b[0] + (b[1] - b[0]) * (i / (n - 1)) if n > 1 else b[0] for i in range(n)], tol=1e-6 if single else 1e-12, label='grid')
    for i, (p, xi) in enumerate(zip(E.list(psi), E.list(x))):
        if fam in ('shan', 'fbsp'):
            near0(E, xi)
        re, im, k = spec(E, fam, num, xi, B, C, M, single)
        E.eq([p.real * k], [re * s], tol=t, label='%s real part' % w)
        if cplx:
            E.eq([p.imag * k], [im * s], tol=t, label='%s imaginary part' % w)


SUPPORT = dict(gaus=5, cgau=5, mexh=8, morl=8, shan=20, fbsp=20, cmor=8)


def level(E, w, lev, dt='f8', M=None):
    """without a length the grid has 2**level points over the stated support of the family; every parameter value"""
    fam = w[:4]
    single = dt == 'f4'
    num = int(w[4:]) if fam in ('gaus', 'cgau') else 0
    E.opaque_math(2e-5 if single else 1e-11)
    name = w if fam not in ('shan', 'fbsp', 'cmor') else {'fbsp': 'fbsp2-1.0-0.5', 'shan': 'shan0.5-1.0', 'cmor': 'cmor1.0-0.5'}[fam]
    s = flip(E, name, fam, num, dt)
    v = E.pywt.DiscreteContinuousWavelet(name)
    if single:
        v = E.pywt.ContinuousWavelet(name.upper(), E.np.float32)
    B = C = None
    if fam in ('shan', 'fbsp', 'cmor'):
        v.bandwidth_frequency, v.center_frequency = E.list(E.arr('par', (2,), 'f4', lo=0.125, hi=2))
        B, C = v.bandwidth_frequency, v.center_frequency
        if M:
            v.fbsp_order = M
        elif fam == 'fbsp':
            M = 2
    else:
        c = E.scalar('unused', 0, 1)
    b = SUPPORT[fam]
    E.same((v.lower_bound, v.upper_bound), (-float(b), float(b)), 'default support')
    psi, x = v.wavefun(lev) if lev != 8 else v.wavefun()
    n = 2 ** lev
    E.shape(psi, (n,), 'psi')
    E.eq(x, [-b + 2.0 * b * i / (n - 1) for i in range(n)], tol=1e-6 if single else 1e-12, label='grid')
    for p, xi in zip(E.list(psi), E.list(x)):
        re, im, k = spec(E, fam, num, xi, B, C, M)
        E.eq([p.real, p.imag], [re * s, im * s], tol=3e-4 if single else 1e-9, label='%s default grid' % w)


def accept(E, name, want):
    """parameters in the name"""
    v = E.pywt.ContinuousWavelet(name)
    E.same([None if q is None else float(q) for q in (v.fbsp_order, v.bandwidth_frequency, v.center_frequency)], want, name)
    E.same(v.name, name.lower(), 'name')


def reject(E, name):
    E.raises(lambda: E.pywt.ContinuousWavelet(name), (ValueError,), name)


def cases(tier, seed):
    deep = tier == 'thorough'
    for dt in ('f8', 'f4'):
        for w in GA + CG + ['mexh', 'morl']:
            for n in (2, 3) if dt == 'f8' else (2,):
                yield '%s n=%d %s' % (w, n, dt), 'grid', dict(w=w, n=n, dt=dt)
        for w in ('shan', 'cmor'):
            for n in (1, 2) + ((3,) if deep else ()):
                yield '%s n=%d %s' % (w, n, dt), 'grid', dict(w=w, n=n, dt=dt)
        for M in range(1, 9):
            yield 'fbsp M=%d %s' % (M, dt), 'grid', dict(w='fbsp', n=2 if M < 4 else 1, dt=dt, M=M)
    for dt in ('f8', 'f4'):
        for w in GA[::3] + CG[1::3] + ['mexh', 'morl', 'shan', 'fbsp', 'cmor']:
            yield 'level %s %s' % (w, dt), 'level', dict(w=w, lev=3, dt=dt)
        for par in (('1.5', '0.5'), ('0.5', '2'), ('3', '1.25')):
            for w in ('shan', 'cmor'):
                yield 'name %s%s-%s %s' % (w, par[0], par[1], dt), 'grid', dict(w=w, n=2, dt=dt, par=par, how='name')
            for M in (1, 3):
                yield 'name fbsp%d-%s-%s %s' % (M, par[0], par[1], dt), 'grid', dict(w='fbsp', n=2, dt=dt, par=par, how='name', M=M)
    for w in (GA + CG + ['mexh', 'morl', 'shan', 'fbsp', 'cmor']) if deep else ('gaus4', 'cgau7', 'shan', 'cmor', 'mexh'):
        yield 'default %s' % w, 'level', dict(w=w, lev=8)
    for w in ('gaus2', 'cgau3', 'cmor', 'shan', 'fbsp', 'morl', 'mexh'):
        for n in (1, 5) + ((4, 8) if deep else ()):
            yield '%s n=%d' % (w, n), 'grid', dict(w=w, n=n, M=2 if w == 'fbsp' else None)
    for name, want in (('cmor1.5-0.5', [None, 1.5, 0.5]), ('CMOR2-1', [None, 2.0, 1.0]), ('shan0.25-3.5', [None, 0.25, 3.5]), ('fbsp3-1.5-0.75', [3.0, 1.5, 0.75])):
        yield 'accept %s' % name, 'accept', dict(name=name, want=want)
    for name in ('cmor1.5', 'shan1', 'fbsp1-2', 'fbsp0-1-1', 'fbsp1.5-1-1', 'gaus9', 'gaus0', 'cgau9', 'db2', 'cmorx', 'unknown', 'cmor1-2-3'):
        yield 'reject %s' % name, 'reject', dict(name=name)
