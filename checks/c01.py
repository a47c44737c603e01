"""C01: idwt(dwt(x)) == x for every built-in wavelet, mode, axis choice, dtype and layout; at most one
extra trailing sample on axes of odd length."""
from .common import *

BOUNDS = ('1-D: all 106 discrete wavelets x 9 modes at 2 (quick) / 6 (thorough) lengths around 1, F/2 and F plus all lengths 1..16 for short wavelets; '
          'n-D: shapes with up to 4 axes of length <= 9; |x| <= 1024 exact reals')
OUTSIDE = 'other sizes, floating-point rounding in the data path, length-1 data with reflect/antireflect (rejected by dwt)'


def rt1(E, n, wav, mode, dt='f8', order='C', iw='', im=''):
    x = E.arr('x', (n,), dt, order, **lohi(dt))
    W = E.pywt.Wavelet(wav) if iw else wav
    M = getattr(E.pywt.Modes, mode) if im else mode
    cA, cD = E.pywt.dwt(x, W, M)
    y = E.pywt.idwt(cA, cD, W, M)
    E.dtype(y, outdt(dt), 'idwt result')
    if odd_ok(E, y.shape, (n,), [0], 'idwt'):
        E.eq(y[:n], x, tol_of(wav, dt), 'idwt(dwt(x))')


def rtax(E, shape, axis, wav, mode, dt='f8', order='C'):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    cA, cD = E.pywt.dwt(x, wav, mode, axis=axis)
    y = E.pywt.idwt(cA, cD, wav, mode, axis=axis)
    E.dtype(y, outdt(dt), 'idwt result')
    if odd_ok(E, y.shape, shape, [axis], 'idwt'):
        E.eq(crop(E, y, shape), x, tol_of(wav, dt), 'idwt(dwt(x))')


def rt2(E, shape, axes, wav, mode, dt='f8', order='C'):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    w, m, axes = tup(wav), tup(mode), tup(axes)
    c = E.pywt.dwt2(x, w, m, axes=axes)
    y = E.pywt.idwt2(c, w, m, axes=axes)
    E.dtype(y, outdt(dt), 'idwt2 result')
    if odd_ok(E, y.shape, shape, axes, 'idwt2'):
        E.eq(crop(E, y, shape), x, tol_of(wav, dt, 2), 'idwt2(dwt2(x))')


def rtn(E, shape, axes, wav, mode, dt='f8', order='C', objs=False):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    w, m = tup(wav), tup(mode)
    if objs:
        w = tuple(E.pywt.Wavelet(q) for q in peraxis(wav, len(shape if axes is None else axes)))
        m = tuple(getattr(E.pywt.Modes, q) for q in peraxis(mode, len(w)))
    ax = None if axes is None else tup(axes)
    c = E.pywt.dwtn(x, w, m, axes=ax)
    y = E.pywt.idwtn(c, w, m, axes=ax)
    E.dtype(y, outdt(dt), 'idwtn result')
    if odd_ok(E, y.shape, shape, range(len(shape)) if ax is None else ax, 'idwtn'):
        E.eq(crop(E, y, shape), x, tol_of(wav, dt, 3), 'idwtn(dwtn(x))')


def bad(n, m):
    return n == 1 and any(q in ('reflect', 'antireflect') for q in ([m] if isinstance(m, str) else m))


def cases(tier, seed):
    rnd = random.Random(seed)
    out = []
    add = lambda nm, fn, **k: out.append((nm, fn, k))
    T = tier == 'thorough'
    for w in DISCRETE:
        F = flen(w)
        for m in MODES:
            if T:
                N = sorted({2, 3, max(1, F // 2), F // 2 + 1, F - 1, F, F + 3, 2 * F + 2})
            else:
                N = [rnd.choice([n for n in range(2, max(6, F // 2))]), rnd.choice([max(3, F - 1), F, F + 1, F + 2])]
            for n in sorted(set(N)):
                add('rt1-%s-%s-%d' % (w, m, n), 'rt1', n=n, wav=w, mode=m)
    for w in SHORT:
        for m in MODES:
            for n in range(1, 17 if T else 10):
                if not bad(n, m) and ('rt1-%s-%s-%d' % (w, m, n)) not in {o[0] for o in out[-40:]}:
                    add('rts-%s-%s-%d' % (w, m, n), 'rt1', n=n, wav=w, mode=m)
    for dt in ALLDT[1:]:
        for m in MODES:
            for n in (6, 7):
                add('rtd-%s-%s-%d' % (dt, m, n), 'rt1', n=n, wav=rnd.choice(SHORT), mode=m, dt=dt)
    for o in LAYOUTS[1:] + ['ro']:
        for m in MODES:
            add('rto-%s-%s' % (o, m), 'rt1', n=rnd.choice([5, 6, 9]), wav=rnd.choice(SHORT), mode=m, order=o)
    for m in MODES:
        add('rti-%s' % m, 'rt1', n=7, wav='db3', mode=m, iw='y', im='y')
    add('rtl-haar-300', 'rt1', n=300, wav='haar', mode='symmetric')
    add('rtl-db2-257', 'rt1', n=257, wav='db2', mode='periodic')
    add('rtl-db2-256', 'rt1', n=256, wav='db2', mode='periodization')
    shapes = [(3, 4), (4, 3), (2, 5, 3), (5, 1, 2, 3)] if T else [(3, 4), (2, 5, 3)]
    for s in shapes:
        for ax in range(-len(s), len(s)):
            for m in MODES:
                if bad(s[ax], m):
                    continue
                for dt in (['f8', 'f4', 'c16', 'c8'] if T else [rnd.choice(['f8', 'f4', 'c16', 'c8'])]):
                    o = rnd.choice(LAYOUTS)
                    add('rtax-%s-%d-%s-%s-%s' % ('x'.join(map(str, s)), ax, m, dt, o), 'rtax', shape=list(s), axis=ax, wav=rnd.choice(SHORT), mode=m, dt=dt, order=o)
    k = 0
    for s in [(4, 4), (3, 5), (2, 7), (6, 2, 3)]:
        nd = len(s)
        pairs = [(a, b) for a in range(-nd, nd) for b in range(-nd, nd) if (a - b) % nd]
        for p in (pairs if T else rnd.sample(pairs, min(6, len(pairs)))):
            for r in range(3):
                w = rnd.choice([rnd.choice(SHORT), [rnd.choice(SHORT), rnd.choice(SHORT)]])
                m = rnd.choice([rnd.choice(MODES), [rnd.choice(MODES), rnd.choice(MODES)]])
                dt = rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8', 'i4'])
                k += 1
                add('rt2-%d-%s-%s-%s' % (k, 'x'.join(map(str, s)), p, dt), 'rt2', shape=list(s), axes=list(p), wav=w, mode=m, dt=dt, order=rnd.choice(LAYOUTS))
    for s in [(7,), (4, 3), (3, 4, 2), (2, 3, 2, 3), (1, 2, 2, 1, 3)]:
        nd = len(s)
        for r in range(40 if T else 16):
            na = rnd.randint(1, nd)
            axes = None if r == 0 else [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), na)]
            na = nd if axes is None else len(axes)
            lens = s if axes is None else [s[a] for a in axes]
            w = rnd.choice([rnd.choice(SHORT), [rnd.choice(SHORT) for _ in range(na)]])
            mm = [m for m in MODES if m not in ('reflect', 'antireflect')] if 1 in lens else MODES
            m = rnd.choice([rnd.choice(mm), [rnd.choice(mm) for _ in range(na)]])
            dt = rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8', 'u1'])
            k += 1
            add('rtn-%d-%s-%s-%s' % (k, 'x'.join(map(str, s)), axes, dt), 'rtn', shape=list(s), axes=axes, wav=w, mode=m, dt=dt, order=rnd.choice(LAYOUTS), objs=rnd.random() < .3)
    return out
