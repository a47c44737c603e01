"""C03: every single-level forward transform (dwt, dwt2, dwtn, downcoef) equals the decimated
convolution of the documented signal extension with the decomposition filters, for named wavelets and for
custom filter banks whose coefficients are themselves symbolic; downcoef to level L equals the L-fold cascade."""
from .common import *

BOUNDS = ('signal lengths 1..12 (quick) / 1..24 (thorough) plus selected lengths up to 400, all nine modes, all 106 wavelets, custom banks with '
          'symbolic coefficients of every length 1..9 (12 thorough), downcoef levels 1..5, n-D shapes up to 4 axes; |x| <= 1024, |filter| <= 1 exact reals')
OUTSIDE = 'other sizes; floating-point rounding; reflect/antireflect on length-1 data (rejected)'


def dwt1(E, n, wav, mode, dt='f8', order='C', how='array'):
    W, M = wav_arg(E, wav), mode_arg(E, mode)
    wn, mn = wav.split(':')[-1], mode.split(':')[-1]
    w = E.pywt.Wavelet(wn)
    x = E.arr('x', (n,), dt, order, **lohi(dt))
    s = E.snap(x)
    xs = E.list(x)
    arg = x
    if how == 'list':
        arg = list(xs)
    elif how == 'tuple':
        arg = tuple(xs)
    cA, cD = E.pywt.dwt(arg, W, M)
    E.unchanged([x], s)
    lo, hi, _, _ = filters(w)
    eA, eD = dwt(xs, lo, hi, mn)
    tol = tol_of('haar', dt)
    E.dtype(cA, outdt(dt), 'cA')
    E.dtype(cD, outdt(dt), 'cD')
    E.eq(cA, eA, tol, 'cA')
    E.eq(cD, eD, tol, 'cD')


def custom(E, n, F, mode, dt='f8', kind='dwt', level=1):
    """arbitrary filter bank: its coefficients are solver variables too"""
    w, (lo, hi, rlo, rhi) = symbank(E, F)
    x = E.arr('x', (n,), dt, lo=-4, hi=4)
    xs = E.list(x)
    if kind == 'dwt':
        cA, cD = E.pywt.dwt(x, w, mode)
        eA, eD = dwt(xs, lo, hi, mode)
        E.eq(cA, eA, 1e-9 if dt[-1] in '86' and dt != 'c8' else 1e-5, 'cA')
        E.eq(cD, eD, 1e-9 if dt[-1] in '86' and dt != 'c8' else 1e-5, 'cD')
    elif kind == 'axis':
        X = E.np.stack([x, x * 2.0 + 1.0])
        for ax, Y in ((1, X), (0, X.T)):
            cA, cD = E.pywt.dwt(Y, w, mode, axis=ax)
            o = objarr(E, Y)
            E.eq(cA, along(o, ax, lambda r: convdec(r, lo, mode)), 1e-9, 'cA')
            E.eq(cD, along(o, ax, lambda r: convdec(r, hi, mode)), 1e-9, 'cD')
    else:
        a = xs
        for _ in range(level - 1):
            a = convdec(a, lo, mode)
        E.eq(E.pywt.downcoef('a', x, w, mode, level), convdec(a, lo, mode), 1e-9, 'downcoef a', deg=2)
        E.eq(E.pywt.downcoef('d', x, w, mode, level), convdec(a, hi, mode), 1e-9, 'downcoef d', deg=2)


def down(E, n, wav, mode, level, part, dt='f8', order='C', how='array', full=False):
    W, M = wav_arg(E, wav), mode_arg(E, mode)
    wn, mn = wav.split(':')[-1], mode.split(':')[-1]
    x = E.arr('x', (n,), dt, order, **lohi(dt))
    s = E.snap(x)
    xs = E.list(x)
    c = E.pywt.downcoef(part, xs if how == 'list' else x, W, M, level) if level > 1 or full else E.pywt.downcoef(part, x, W, M)
    E.unchanged([x], s)
    E.dtype(c, outdt(dt), 'downcoef')
    lo, hi, _, _ = filters(E.pywt.Wavelet(wn))
    a = xs
    for _ in range(level - 1):
        a = convdec(a, lo, mn)
    E.eq(c, convdec(a, lo if part == 'a' else hi, mn), tol_of('haar', dt, 2 ** level), 'downcoef %s' % part)
    if full:
        r = E.pywt.wavedec(x, W, M, level=level)
        E.eq(c, r[0] if part == 'a' else r[1], tol_of('haar', dt, 2 ** level), 'downcoef equals wavedec')


def dwtax(E, shape, axis, wav, mode, dt='f8', order='C'):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    s = E.snap(x)
    kw = {} if axis == 'default' else {'axis': axis}
    ax = -1 if axis == 'default' else axis
    cA, cD = E.pywt.dwt(x, wav, mode, **kw)
    E.unchanged([x], s)
    o = objarr(E, x)
    lo, hi, _, _ = filters(E.pywt.Wavelet(wav))
    E.dtype(cA, outdt(dt), 'cA')
    E.eq(cA, along(o, ax, lambda r: convdec(r, lo, mode)), tol_of('haar', dt), 'cA')
    E.eq(cD, along(o, ax, lambda r: convdec(r, hi, mode)), tol_of('haar', dt), 'cD')


def d2(E, shape, axes, wav, mode, dt='f8', order='C', dflt=False):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    s = E.snap(x)
    kw = {} if dflt else {'axes': tup(axes)}
    cA, (cH, cV, cD) = E.pywt.dwt2(x, wav_arg(E, wav), mode_arg(E, mode), **kw)
    E.unchanged([x], s)
    d = dwtn(objarr(E, x), [filters(E.pywt.Wavelet(q.split(':')[-1]))[:2] for q in peraxis(wav, 2)], [q.split(':')[-1] for q in peraxis(mode, 2)], axes)
    for nm, c, k in (('cA', cA, 'aa'), ('cH', cH, 'da'), ('cV', cV, 'ad'), ('cD', cD, 'dd')):
        E.dtype(c, outdt(dt), nm)
        E.eq(c, d[k], tol_of('haar', dt, 2), nm)


def dn(E, shape, axes, wav, mode, dt='f8', order='C'):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    s = E.snap(x)
    c = E.pywt.dwtn(x, wav_arg(E, wav), mode_arg(E, mode), axes=None if axes is None else tup(axes))
    E.unchanged([x], s)
    real = list(range(len(shape))) if axes is None else axes
    d = dwtn(objarr(E, x), [filters(E.pywt.Wavelet(q.split(':')[-1]))[:2] for q in peraxis(wav, len(real))], [q.split(':')[-1] for q in peraxis(mode, len(real))], real)
    E.same(sorted(c), sorted(d), 'keys')
    for k in sorted(d):
        E.dtype(c[k], outdt(dt), k)
        E.eq(c[k], d[k], tol_of('haar', dt, 4), k)


def bad(ns, m):
    return 1 in ns and any('reflect' in q for q in ([m] if isinstance(m, str) else m))


def cases(tier, seed):
    rnd = random.Random(seed)
    out, seen = [], set()
    T = tier == 'thorough'

    def add(nm, fn, **k):
        if nm not in seen:
            seen.add(nm)
            out.append((nm, fn, k))
    N = range(1, 25) if T else range(1, 13)
    for w in ['haar', 'db2', 'db3', 'bior2.4', 'db10'] + (['db5', 'sym4', 'bior3.1', 'rbio1.3', 'coif2', 'dmey'] if T else []):
        for m in MODES:
            for n in N:
                if not bad([n], m):
                    add('dwt1-%s-%s-%d' % (w, m, n), 'dwt1', n=n, wav=w, mode=m)
    for w in DISCRETE:
        for m in (MODES if T else rnd.sample(MODES, 3)):
            n = rnd.choice([2, 3, flen(w) - 1, flen(w), flen(w) + 1, 2 * flen(w) + 1])
            if n > 1:
                add('dwta-%s-%s-%d' % (w, m, n), 'dwt1', n=n, wav=w, mode=m)
    for dt in ALLDT[1:]:
        for m in MODES:
            for n in (6, 7):
                add('dwtt-%s-%s-%d' % (dt, m, n), 'dwt1', n=n, wav=rnd.choice(SHORT), mode=m, dt=dt)
    for o in LAYOUTS[1:] + ['ro']:
        for m in MODES:
            add('dwto-%s-%s' % (o, m), 'dwt1', n=rnd.choice([5, 8]), wav=rnd.choice(SHORT), mode=m, order=o)
    for m in MODES:
        for how in ('list', 'tuple'):
            add('dwth-%s-%s' % (how, m), 'dwt1', n=5, wav='obj:db2', mode='int:' + m, how=how)
    for n, w, m in [(400, 'haar', 'zero'), (257, 'db2', 'symmetric'), (128, 'db4', 'periodization'), (129, 'db4', 'periodic'), (200, 'bior1.3', 'antireflect')]:
        add('dwtl-%s-%d' % (w, n), 'dwt1', n=n, wav=w, mode=m)
    # custom banks with symbolic filters, N both below and above F, odd lengths too
    for F in range(1, 13 if T else 10):
        for m in MODES:
            for n in sorted(set([2, 3, F, F + 1, 2 * F + 1] if T else [rnd.choice([2, 3]), rnd.choice([F, F + 1, F + 2])])):
                if not bad([n], m):
                    add('cus-%d-%s-%d' % (F, m, n), 'custom', n=n, F=F, mode=m)
    for m in MODES:
        for dt in ('c16', 'f4', 'c8'):
            add('cust-%s-%s' % (dt, m), 'custom', n=rnd.choice([3, 5, 6]), F=rnd.choice([2, 4, 6]), mode=m, dt=dt)
        add('cusa-%s' % m, 'custom', n=rnd.choice([3, 4, 5, 6]), F=rnd.choice([3, 4, 6]), mode=m, kind='axis')
        for L in (1, 2):
            add('cusd-%s-%d' % (m, L), 'custom', n=rnd.choice([3, 4, 5]), F=rnd.choice([2, 4]), mode=m, kind='down', level=L)
    # downcoef
    for w in SHORT:
        for m in MODES:
            for L in (range(1, 6) if T else (1, rnd.choice([2, 3]), rnd.choice([4, 5]))):
                n = rnd.choice([5, 8, 9, 12, 17])
                F = flen(w)
                l = [n]
                for _ in range(L):
                    l.append(dwt_len(l[-1], F, m))
                if bad(l[:-1], m):
                    continue
                for p in 'ad':
                    add('down-%s-%s-%d-%d-%s' % (w, m, n, L, p), 'down', n=n, wav=w, mode=m, level=L, part=p, full=rnd.random() < .5)
    for dt in ALLDT[1:]:
        for p in 'ad':
            for L in (1, 2, 3):
                add('downt-%s-%s-%d' % (dt, p, L), 'down', n=9, wav=rnd.choice(['db2', 'db3', 'bior1.3']), mode=rnd.choice(MODES), level=L, part=p, dt=dt,
                    order=rnd.choice(LAYOUTS + ['ro']), how=rnd.choice(['array', 'list']) if dt in ('f8', 'c16') else 'array')
    add('downo', 'down', n=9, wav='obj:db2', mode='int:smooth', level=2, part='d', how='list')
    for s in [(1, 4), (3, 4), (4, 3), (2, 5, 3), (3, 1, 2, 4)]:
        for ax in list(range(-len(s), len(s))) + ['default']:
            for m in (MODES if T else rnd.sample(MODES, 4)):
                if bad([s[-1 if ax == 'default' else ax]], m):
                    continue
                dt, o = rnd.choice(ALLDT), rnd.choice(LAYOUTS)
                add('ax-%s-%s-%s' % ('x'.join(map(str, s)), ax, m), 'dwtax', shape=list(s), axis=ax, wav=rnd.choice(SHORT), mode=m, dt=dt, order=o)
    k = 0
    for s in [(4, 4), (3, 5), (1, 6), (6, 2, 3), (2, 2, 3, 3)]:
        nd = len(s)
        pairs = [[a, b] for a in range(-nd, nd) for b in range(-nd, nd) if (a - b) % nd]
        for p in (pairs if T else rnd.sample(pairs, min(8, len(pairs)))):
            for r in range(2):
                pre = rnd.choice(['', '', 'obj:'])
                mp = rnd.choice(['', '', 'int:'])
                w = rnd.choice([pre + rnd.choice(SHORT), [pre + rnd.choice(SHORT), rnd.choice(SHORT)]])
                m = rnd.choice([mp + rnd.choice(MODES), [rnd.choice(MODES), mp + rnd.choice(MODES)]])
                if bad([s[a] for a in p], m):
                    continue
                k += 1
                add('d2-%d-%s-%s' % (k, 'x'.join(map(str, s)), p), 'd2', shape=list(s), axes=p, wav=w, mode=m, dt=rnd.choice(ALLDT), order=rnd.choice(LAYOUTS))
        add('d2d-%s' % 'x'.join(map(str, s)), 'd2', shape=list(s), axes=[-2, -1], wav='db2', mode='symmetric', dflt=True)
    for s in [(7,), (4, 3), (3, 4, 2), (2, 3, 2, 3), (1, 2, 2, 1, 3)]:
        nd = len(s)
        for r in range(40 if T else 14):
            axes = None if r == 0 else [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), rnd.randint(1, nd))]
            real = list(range(nd)) if axes is None else axes
            w = rnd.choice([rnd.choice(SHORT), [rnd.choice(SHORT) for _ in real]])
            m = rnd.choice([rnd.choice(MODES), [rnd.choice(MODES) for _ in real]])
            if bad([s[a] for a in real], m):
                continue
            k += 1
            add('dn-%d-%s-%s' % (k, 'x'.join(map(str, s)), axes), 'dn', shape=list(s), axes=axes, wav=w, mode=m, dt=rnd.choice(ALLDT), order=rnd.choice(LAYOUTS))
    return out
