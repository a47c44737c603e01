"""C07: pad extends any array by any widths exactly as the documented infinite extension of the mode, and the transform of the
padded signal agrees with the transform of the signal under that mode."""
from .common import *

BOUNDS = ('1-D lengths 1..7 with widths 0..3n+2 on either side (independently); 2-D/3-D arrays with axes <= 4 and widths 0..7 per axis and side; '
          'all nine modes; f8/f4/c16/c8/int data; transform agreement for filters up to 16 (quick) / 40 taps')
OUTSIDE = 'unsigned or narrow integers whose extension overflows the type; widths given as floats'


def ext1(x, l, r, mode):
    n = len(x)
    if mode == 'periodization':
        x = list(x) + ([x[-1]] if n % 2 else [])
        n = len(x)
        mode = 'periodic'
    return [ext(x, k, mode) for k in range(-l, n + r)]


def pad1(E, n, l, r, mode, dt='f8', order='C', form='pair'):
    x = E.arr('x', (n,), dt, order, **(dict(lo=-100, hi=100) if dt[0] == 'i' else {}))
    s = E.snap(x)
    w = {'pair': (l, r), 'nested': ((l, r),), 'int': l, 'one': (l,), 'arr': None, 'list': [[l, r]]}[form]
    if form == 'arr':
        import numpy
        w = numpy.array([[l, r]])
    if form in ('int', 'one'):
        r = l
    y = E.pywt.pad(x, w, mode)
    E.unchanged([x], s)
    E.dtype(y, {'i4': 'i4', 'i8': 'i8'}.get(dt, dt), 'pad')
    E.eq(y, ext1(E.list(x), l, r, mode), 1e-9 if dt not in F4 else 4e-5, 'pad')


def padlist(E, n, l, r, mode):
    x = E.arr('x', (n,), 'f8')
    y = E.pywt.pad(E.list(x), (l, r), mode)
    E.eq(y, ext1(E.list(x), l, r, mode), 1e-9, 'pad of a list')


def padn(E, shape, widths, mode, dt='f8', order='C', form='full'):
    shape = tup(shape)
    x = E.arr('x', shape, dt, order)
    s = E.snap(x)
    w = tup(widths)
    if form == 'int':
        W, w = w[0][0], [(w[0][0],) * 2] * len(shape)
    elif form == 'same':
        W, w = w[0], [w[0]] * len(shape)
    else:
        W = w
    y = E.pywt.pad(x, W, mode)
    E.unchanged([x], s)
    e = objarr(E, x)
    for ax, (l, r) in enumerate(w):
        e = along(e, ax, lambda v: ext1(v, l, r, mode))
    E.dtype(y, dt, 'pad')
    E.eq(y, e, 1e-9 if dt not in F4 else 4e-5, 'pad n-D')


def agree(E, n, wav, mode, extra=0):
    x = E.arr('x', (n,), 'f8')
    F = flen(wav)
    cA, cD = E.pywt.dwt(x, wav, mode)
    L = F + (F % 2) + 2 * extra
    if mode == 'periodization' and (F // 2) % 2 == 0:
        L += 1
    y = E.pywt.pad(x, (L, F + 2 + extra), mode)
    pA, pD = E.pywt.dwt(y, wav, 'zero')
    o = L // 2 if mode != 'periodization' else (F // 2 + L - 1) // 2
    m = (n + 1) // 2 if mode == 'periodization' else (n + F - 1) // 2
    E.check(len(cA) == m and len(cD) == m, 'coefficient length')
    E.eq(cA, pA[o:o + m], tol_of(wav), 'approximation of the padded signal')
    E.eq(cD, pD[o:o + m], tol_of(wav), 'details of the padded signal')


def agreen(E, shape, wav, mode):
    shape = tup(shape)
    x = E.arr('x', shape, 'f8')
    F = flen(wav)
    c = E.pywt.dwtn(x, wav, mode)
    L = F
    if mode == 'periodization' and (F // 2) % 2 == 0:
        L += 1
    y = E.pywt.pad(x, (L, F + 2), mode)
    p = E.pywt.dwtn(y, wav, 'zero')
    o = L // 2 if mode != 'periodization' else (F // 2 + L - 1) // 2
    sl = tuple(slice(o, o + ((n + 1) // 2 if mode == 'periodization' else (n + F - 1) // 2)) for n in shape)
    for k in sorted(c):
        E.eq(c[k], p[k][sl], tol_of(wav, n=2), 'dwtn of the padded array ' + k)


def badpad(E):
    x = E.arr('x', (4,), 'f8')
    for m in MODES:
        E.raises(lambda: E.pywt.pad(x, (-1, 2), m), ValueError, 'negative width')
        E.raises(lambda: E.pywt.pad(x, (2, -1), m), ValueError, 'negative width')
    for m in ('nosuch', '', 'Symmetric', 'wrap', 'edge'):
        E.raises(lambda: E.pywt.pad(x, (1, 1), m), ValueError, 'unknown mode ' + m)


def cases(tier, seed):
    rnd = random.Random(seed + 7)
    T = tier == 'thorough'
    for m in MODES:
        for n in range(1, 8):
            big = 3 * n + 2
            W = range(0, big + 1) if T else sorted({0, 1, 2, n - 1, n, n + 1, 2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1, big} & set(range(0, big + 1)))
            pairs = [(l, r) for l in W for r in W] if T else [(l, 0) for l in W] + [(0, r) for r in W] + [(rnd.choice(W), r) for r in W]
            for l, r in sorted(set(pairs)):
                yield 'pad1-%s-%d-%d-%d' % (m, n, l, r), 'pad1', dict(n=n, l=l, r=r, mode=m)
        for dt in ('f4', 'c16', 'c8', 'i4', 'i8'):
            for n in (1, 2, 5):
                yield 'padt-%s-%s-%d' % (m, dt, n), 'pad1', dict(n=n, l=2 * n + 1, r=3 * n, mode=m, dt=dt)
        for o in LAYOUTS[1:3] + ['ro']:
            yield 'pado-%s-%s' % (m, o), 'pad1', dict(n=4, l=5, r=9, mode=m, order=o, dt='f8')
        for form in ('nested', 'int', 'one', 'arr', 'list'):
            yield 'padf-%s-%s' % (m, form), 'pad1', dict(n=5, l=7, r=6, mode=m, form=form)
        yield 'padl-%s' % m, 'padlist', dict(n=3, l=4, r=7, mode=m)
        for k in range(60 if T else 14):
            s = rnd.choice([(2, 3), (3, 2), (4, 4), (1, 3), (2, 1), (2, 3, 2), (1, 2, 3)])
            w = [[rnd.choice([0, 1, 2, 3, 5, 7]) for _ in 'lr'] for _ in s]
            yield 'padn-%s-%d' % (m, k), 'padn', dict(shape=list(s), widths=w, mode=m, dt=rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8']), order=rnd.choice(LAYOUTS),
                                                     form=rnd.choice(['full', 'full', 'int', 'same']))
        for w in (SHORT + ['sym8'] if not T else SHORT + ['sym8', 'coif3', 'db20', 'bior3.9', 'rbio6.8']):
            for n in (1, 2, 3, 4, 7) if not T else range(1, 10):
                if n == 1 and m in ('reflect', 'antireflect'):
                    continue
                yield 'agree-%s-%s-%d' % (m, w, n), 'agree', dict(n=n, wav=w, mode=m, extra=rnd.choice([0, 1, 3]))
        yield 'agreen-%s' % m, 'agreen', dict(shape=[3, 4], wav='db2', mode=m)
        yield 'agreen-%s-b' % m, 'agreen', dict(shape=[2, 3, 2], wav='bior2.2', mode=m)
    yield 'bad', 'badpad', {}
