"""C02: waverec(wavedec(x)) == x (1-D, 2-D, n-D; at most one extra trailing sample per odd axis), the coefficient list has
one approximation followed by the requested number of details from coarsest to finest, and each entry equals
the repeated single-level transform (specification: decimated convolution of the documented extension)."""
from .common import *

BOUNDS = ('1-D: every discrete wavelet x every mode at one (quick) / three (thorough) seed-chosen length<=3F+5 and level<=4, all lengths 1..20 for haar/db2; '
          'n-D: shapes up to 4 axes of length <= 9, levels <= 3, per-axis wavelets and modes; |x| <= 1024 exact reals')
OUTSIDE = 'other sizes; floating-point rounding; reflect/antireflect when a running approximation has length 1 (rejected); level 0'


def lens(n, F, mode, level):
    out = [n]
    for _ in range(level):
        out.append(dwt_len(out[-1], F, mode))
    return out


def usable(n, F, mode, level):
    return not (mode in ('reflect', 'antireflect') and 1 in lens(n, F, mode, level)[:level])


def maxlev(n, F):
    L = 0
    while (F - 1) * 2 ** (L + 1) <= n:
        L += 1
    return L


def ml1(E, n, wav, mode, level, dt='f8', order='C', spec=True):
    x = E.arr('x', (n,), dt, order, **lohi(dt))
    s = E.snap(x)
    W, M = wav_arg(E, wav), mode_arg(E, mode)
    kw = {} if level is None else {'level': level}
    c = E.pywt.wavedec(x, W, M, **kw)
    E.unchanged([x], s)
    wn = wav.split(':')[-1]
    mn = mode.split(':')[-1]
    L = maxlev(n, flen(wn)) if level is None else level
    E.same(len(c), L + 1, 'number of entries of wavedec')
    if L == 0:
        return
    for a in c:
        E.dtype(a, outdt(dt), 'wavedec entry')
    if spec:
        w = E.pywt.Wavelet(wn)
        lo, hi, _, _ = filters(w)
        a = E.list(x)
        ex = []
        for _ in range(L):
            a, d = dwt(a, lo, hi, mn)
            ex.append(d)
        ex.append(a)
        for k, (g, e) in enumerate(zip(c, ex[::-1])):
            E.eq(g, e, tol_of('haar', dt, 2 ** L), 'wavedec entry %d' % k)
    s = E.snap(c, *c)
    y = E.pywt.waverec(c, W, M)
    E.unchanged([c] + list(c), s, 'coefficients unchanged')
    E.dtype(y, outdt(dt), 'waverec')
    if odd_ok(E, y.shape, (n,), [0], 'waverec'):
        E.eq(y[:n], x, tol_of(wn, dt, 2 ** L), 'waverec(wavedec(x))')


def mlax(E, shape, axis, wav, mode, level, dt='f8', order='C'):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    c = E.pywt.wavedec(x, wav, mode, level=level, axis=axis)
    E.same(len(c), level + 1, 'number of entries of wavedec')
    lo, hi, _, _ = filters(E.pywt.Wavelet(wav))
    a = objarr(E, x)
    ex = []
    for _ in range(level):
        ex.append(along(a, axis, lambda r: convdec(r, hi, mode)))
        a = along(a, axis, lambda r: convdec(r, lo, mode))
    ex.append(a)
    for k, (g, e) in enumerate(zip(c, ex[::-1])):
        E.eq(g, e, tol_of('haar', dt, 2 ** level), 'wavedec entry %d' % k)
    y = E.pywt.waverec(c, wav, mode, axis=axis)
    if odd_ok(E, y.shape, shape, [axis], 'waverec'):
        E.eq(crop(E, y, shape), x, tol_of(wav, dt, 2 ** level), 'waverec(wavedec(x))')


def ml2(E, shape, axes, wav, mode, level, dt='f8', order='C', dflt=False):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    s = E.snap(x)
    w, m, ax = tup(wav), tup(mode), tup(axes)
    kw = {} if dflt else {'axes': ax}
    c = E.pywt.wavedec2(x, w, m, level=level, **kw)
    E.unchanged([x], s)
    L = level
    if L is None:
        L = min(maxlev(shape[a], flen(q)) for a, q in zip(axes, peraxis(wav, 2)))
    E.same(len(c), L + 1, 'number of entries of wavedec2')
    if L == 0:
        return
    bs = [filters(E.pywt.Wavelet(q))[:2] for q in peraxis(wav, 2)]
    ms = peraxis(mode, 2)
    a = objarr(E, x)
    ex = []
    for _ in range(L):
        d = dwtn(a, bs, ms, axes)
        ex.append((d['da'], d['ad'], d['dd']))
        a = d['aa']
    tol = tol_of('haar', dt, 4 ** L)
    E.eq(c[0], a, tol, 'approximation')
    for k in range(L):
        E.check(isinstance(c[k + 1], tuple) and len(c[k + 1]) == 3, 'entry %d is a 3-tuple' % (k + 1))
        for j in range(3):
            E.eq(c[k + 1][j], ex[L - 1 - k][j], tol, 'detail %d,%d' % (k + 1, j))
    fl = [c] + [c[0]] + [q for t in c[1:] for q in t]
    s = E.snap(*fl)
    y = E.pywt.waverec2(c, w, m, **kw)
    E.unchanged(fl, s, 'coefficients unchanged')
    E.dtype(y, outdt(dt), 'waverec2')
    if odd_ok(E, y.shape, shape, axes, 'waverec2'):
        E.eq(crop(E, y, shape), x, tol_of(wav, dt, 4 ** L), 'waverec2(wavedec2(x))')


def mln(E, shape, axes, wav, mode, level, dt='f8', order='C', scalar_axis=False):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    s = E.snap(x)
    w, m, ax = tup(wav), tup(mode), tup(axes)
    if scalar_axis:
        ax = ax[0]
    c = E.pywt.wavedecn(x, w, m, level=level, axes=ax)
    E.unchanged([x], s)
    nd = len(shape)
    real = list(range(nd)) if axes is None else list(axes)
    L = level
    if L is None:
        L = min(maxlev(shape[a], flen(q)) for a, q in zip(real, peraxis(wav, len(real))))
    E.same(len(c), L + 1, 'number of entries of wavedecn')
    if L == 0:
        return
    bs = [filters(E.pywt.Wavelet(q))[:2] for q in peraxis(wav, len(real))]
    ms = peraxis(mode, len(real))
    a = objarr(E, x)
    ex = []
    for _ in range(L):
        d = dwtn(a, bs, ms, real)
        a = d.pop('a' * len(real))
        ex.append(d)
    tol = tol_of('haar', dt, 2 ** (L * len(real)))
    E.eq(c[0], a, tol, 'approximation')
    for k in range(L):
        e = ex[L - 1 - k]
        E.same(sorted(c[k + 1]), sorted(e), 'keys of entry %d' % (k + 1))
        for q in sorted(e):
            E.eq(c[k + 1][q], e[q], tol, 'detail %d %s' % (k + 1, q))
    fl = [c] + [c[0]] + [t for t in c[1:]] + [t[q] for t in c[1:] for q in sorted(t)]
    s = E.snap(*fl)
    y = E.pywt.waverecn(c, w, m, axes=ax)
    E.unchanged(fl, s, 'coefficients unchanged')
    E.dtype(y, outdt(dt), 'waverecn')
    if odd_ok(E, y.shape, shape, real, 'waverecn'):
        E.eq(crop(E, y, shape), x, tol_of(wav, dt, 2 ** (L * len(real))), 'waverecn(wavedecn(x))')


def okn(shape, axes, wav, mode, level):
    return all(usable(shape[a], flen(w), m, level) for a, w, m in zip(axes, peraxis(wav, len(axes)), peraxis(mode, len(axes))))


def cases(tier, seed):
    rnd = random.Random(seed)
    out = []
    T = tier == 'thorough'
    seen = set()

    def add(nm, fn, **k):
        if nm not in seen:
            seen.add(nm)
            out.append((nm, fn, k))
    for w in DISCRETE:
        F = flen(w)
        for m in MODES:
            for r in range(3 if T else 1):
                for _ in range(20):
                    n = rnd.choice([rnd.randint(2, max(3, F)), rnd.randint(F, 2 * F + 4)]) if F > 30 else rnd.randint(2, 3 * F + 5)
                    L = rnd.randint(1, 4 if F < 20 else 2)
                    if usable(n, F, m, L):
                        break
                else:
                    continue
                add('ml1-%s-%s-%d-%d' % (w, m, n, L), 'ml1', n=n, wav=w, mode=m, level=L, spec=F <= 40)
    for w in ['haar', 'db2'] + (['sym3', 'bior2.2', 'rbio3.1'] if T else []):
        for m in MODES:
            for n in range(1, 21):
                L = rnd.randint(1, 4)
                while L > 1 and not usable(n, flen(w), m, L):
                    L -= 1
                if usable(n, flen(w), m, L):
                    add('ml1s-%s-%s-%d' % (w, m, n), 'ml1', n=n, wav=w, mode=m, level=L, spec=True)
    for w in ['haar', 'db2', 'obj:db3', 'bior1.3']:
        for m in ['symmetric', 'int:zero', 'periodization', 'int:periodic', 'int:periodization', 'antireflect', 'smooth']:
            for n in ([1, 2, 7, 16, 33, 40] if T else [2, 7, 17, 32]):
                if 'refl' in m and not usable(n, flen(w.split(':')[-1]), 'reflect', maxlev(n, flen(w.split(':')[-1]))):
                    continue
                if maxlev(n, flen(w.split(':')[-1])):
                    add('mld-%s-%s-%d' % (w, m, n), 'ml1', n=n, wav=w, mode=m, level=None)
    for dt in ALLDT[1:]:
        for m in MODES:
            n = rnd.choice([9, 11, 13, 14])
            add('mlt-%s-%s' % (dt, m), 'ml1', n=n, wav=rnd.choice(['db2', 'sym3', 'bior2.2', 'coif1']), mode=m, level=2, dt=dt)
    for o in LAYOUTS[1:] + ['ro']:
        for m in MODES:
            add('mlo-%s-%s' % (o, m), 'ml1', n=rnd.choice([9, 11, 13]), wav=rnd.choice(['db2', 'sym3', 'bior2.2', 'coif1']), mode=m, level=2, order=o)
    add('mll-haar-128', 'ml1', n=128, wav='haar', mode='periodization', level=7)
    add('mll-db2-101', 'ml1', n=101, wav='db2', mode='periodic', level=4)
    k = 0
    for s in [(3, 9), (5, 4), (2, 7, 3), (4, 1, 2, 5)]:
        for ax in range(-len(s), len(s)):
            for r in range(6 if T else 2):
                w, m, L = rnd.choice(SHORT), rnd.choice(MODES), rnd.randint(1, 3)
                if not usable(s[ax], flen(w), m, L):
                    continue
                k += 1
                add('mlax-%d-%s-%d' % (k, 'x'.join(map(str, s)), ax), 'mlax', shape=list(s), axis=ax, wav=w, mode=m, level=L,
                    dt=rnd.choice(['f8', 'f4', 'c16', 'c8']), order=rnd.choice(LAYOUTS))
    for s in [(8, 8), (7, 5), (3, 9), (1, 6), (3, 6, 5), (5, 2, 4)]:
        nd = len(s)
        pairs = [[a, b] for a in range(-nd, nd) for b in range(-nd, nd) if (a - b) % nd]
        for r in range(24 if T else 10):
            p = rnd.choice(pairs)
            w = rnd.choice([rnd.choice(SHORT), [rnd.choice(SHORT), rnd.choice(SHORT)]])
            m = rnd.choice([rnd.choice(MODES), [rnd.choice(MODES), rnd.choice(MODES)]])
            L = rnd.randint(1, 3 if nd == 2 else 2)
            if not okn(s, p, w, m, L):
                continue
            k += 1
            add('ml2-%d-%s-%s' % (k, 'x'.join(map(str, s)), p), 'ml2', shape=list(s), axes=p, wav=w, mode=m, level=L, dt=rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8', 'i4']), order=rnd.choice(LAYOUTS))
    for s, w, m in [((9, 8), 'haar', 'symmetric'), ((12, 7), ['haar', 'db2'], ['periodic', 'zero']), ((3, 8, 9), 'db2', 'smooth'), ((16, 3), ['haar', 'bior1.1'], 'periodization')]:
        k += 1
        add('ml2d-%d' % k, 'ml2', shape=list(s), axes=[-2, -1], wav=w, mode=m, level=None, dflt=True)
        if len(s) == 2:
            add('ml2e-%d' % k, 'ml2', shape=list(s), axes=[1, 0], wav=w, mode=m, level=None)
    for s in [(9,), (7, 5), (6, 3), (3, 5, 4), (5, 2, 2), (2, 3, 2, 3)]:
        nd = len(s)
        for r in range(24 if T else 10):
            axes = None if r == 0 else [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), rnd.randint(1, min(nd, 3)))]
            real = list(range(nd)) if axes is None else axes
            w = rnd.choice([rnd.choice(SHORT[:6]), [rnd.choice(SHORT) for _ in real]])
            m = rnd.choice([rnd.choice(MODES), [rnd.choice(MODES) for _ in real]])
            L = rnd.randint(1, 3 if nd < 3 else 2)
            if r == 1:
                L = None
            if not okn(s, real, w, m, L or 2):
                continue
            k += 1
            add('mln-%d-%s-%s' % (k, 'x'.join(map(str, s)), axes), 'mln', shape=list(s), axes=axes, wav=w, mode=m, level=L, dt=rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8', 'u1']),
                order=rnd.choice(LAYOUTS), scalar_axis=axes is not None and len(axes) == 1 and rnd.random() < .5)
    return out
