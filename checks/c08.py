"""C08: every level of the stationary transform is the circular convolution of the previous approximation with the dilated
decomposition filters; shift equivariance; start_level, trim_approx, norm, swt2/swtn along any axes are the corresponding selection,
scaling or per-axis application of that definition."""
from .common import *

BOUNDS = ('1-D: all 106 built-in wavelets and arbitrary (symbolic) filter banks of length 1..12, N = 2^L*odd up to 48, levels <= 4, every admissible start_level; '
          'n-D: up to 4 axes of length <= 8, any axes; six dtypes and layouts; |x| <= 1024 exact reals')
OUTSIDE = 'longer signals, floating-point rounding in the data path'


def conv(x, h, d):
    n, F = len(x), len(h)
    out = []
    for i in range(n):
        s = 0.0
        for t in range(F):
            if h[t].__class__ is float and h[t] == 0.0:
                continue
            s = s + h[t] * x[(i + (F // 2 - t) * d) % n]
        out.append(s)
    return out


def scale(fs, norm):
    return [[v * (0.5 ** 0.5) for v in f] for f in fs] if norm else fs


def spec1(rows, axis, lo, hi, level, start):
    """list (finest first) of (cA, cD) object arrays"""
    a, out = rows, []
    for j in range(start, start + level):
        d = along(a, axis, lambda r: conv(r, hi, 2 ** j))
        a = along(a, axis, lambda r: conv(r, lo, 2 ** j))
        out.append((a, d))
    return out


def compare(E, c, ex, trim, tol, deg=1):
    L = len(ex)
    if trim:
        E.same(len(c), L + 1, 'number of entries')
        E.eq(c[0], ex[-1][0], tol, 'final approximation', deg=deg)
        for k in range(L):
            E.eq(c[k + 1], ex[L - 1 - k][1], tol, 'detail %d' % (L - k), deg=deg)
    else:
        E.same(len(c), L, 'number of entries')
        for k in range(L):
            E.check(isinstance(c[k], tuple) and len(c[k]) == 2, 'entry %d is a pair' % k)
            E.eq(c[k][0], ex[L - 1 - k][0], tol, 'approximation %d' % (L - k), deg=deg)
            E.eq(c[k][1], ex[L - 1 - k][1], tol, 'detail %d' % (L - k), deg=deg)


def flat(c):
    r = []
    for q in c:
        if isinstance(q, dict):
            r += [q[k] for k in sorted(q)]
        elif isinstance(q, (tuple, list)):
            r += flat(q)
        else:
            r.append(q)
    return r


def s1(E, n, wav, level, start=0, trim=False, norm=False, dt='f8', order='C', how='', lst=False):
    x = E.arr('x', (n,), dt, order, **lohi(dt))
    s = E.snap(x)
    W = E.pywt.Wavelet(wav)
    kw = {}
    if level is not None:
        kw['level'] = level
    if start:
        kw['start_level'] = start
    if trim:
        kw['trim_approx'] = True
    if norm:
        kw['norm'] = True
    w = W if how == 'obj' else wav
    c = E.pywt.swt(E.list(x) if lst else x, w, **kw)
    E.unchanged([x], s)
    if level is None:
        level = 0
        while n % 2 ** (level + 1) == 0:
            level += 1
    lo, hi = scale(filters(W)[:2], norm)
    for a in flat(c):
        E.dtype(a, outdt(dt), 'swt')
    compare(E, c, spec1(objarr(E, x), 0, lo, hi, level, start), trim, tol_of('haar', dt, 2 ** level * 2))


def sym1(E, n, F, level, start=0, trim=False, norm=False):
    """symbolic filters and symbolic data"""
    w, (lo, hi, _, _) = symbank(E, F)
    x = E.arr('x', (n,), 'f8', lo=-1, hi=1)
    import warnings
    c = E.pywt.swt(x, w, level, start, -1, trim, norm)
    lo, hi = scale([lo, hi], norm)
    compare(E, c, spec1(objarr(E, x), 0, lo, hi, level, start), trim, 1e-9, deg=2)


def shift(E, n, wav, level, by, norm=False):
    x = E.arr('x', (n,), 'f8')
    y = E.np.roll(x, by)
    c = E.pywt.swt(x, wav, level=level, norm=norm)
    d = E.pywt.swt(y, wav, level=level, norm=norm)
    for p, q in zip(flat(c), flat(d)):
        E.eq(E.np.roll(p, by), q, 1e-9 * 2 ** level, 'shift equivariance')


def startsel(E, n, wav, level, start):
    """swt of the approximation of level start, started at start, is the tail of the full transform"""
    x = E.arr('x', (n,), 'f8')
    full = E.pywt.swt(x, wav, level=start + level)
    part = E.pywt.swt(full[level][0], wav, level=level, start_level=start)
    for p, q in zip(flat(full[:level]), flat(part)):
        E.eq(p, q, 1e-9 * 2 ** level, 'start_level continues the cascade')


def sax(E, shape, axis, wav, level, start=0, trim=False, norm=False, dt='f8', order='C'):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    s = E.snap(x)
    W = E.pywt.Wavelet(wav)
    c = E.pywt.swt(x, wav, level=level, start_level=start, axis=axis, trim_approx=trim, norm=norm)
    E.unchanged([x], s)
    lo, hi = scale(filters(W)[:2], norm)
    for a in flat(c):
        E.dtype(a, outdt(dt), 'swt')
    compare(E, c, spec1(objarr(E, x), axis % len(shape), lo, hi, level, start), trim, tol_of('haar', dt, 2 ** level * 2))


def specn(a, bs, axes, level, start):
    out = []
    for j in range(start, start + level):
        d = {'': a}
        for (lo, hi), ax in zip(bs, axes):
            d = {k + c: along(v, ax, lambda r, f=f: conv(r, f, 2 ** j)) for k, v in d.items() for c, f in (('a', lo), ('d', hi))}
        a = d['a' * len(axes)]
        out.append(d)
    return out


def sn(E, shape, axes, wav, level, start=0, trim=False, norm=False, dt='f8', order='C', objs=False):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    s = E.snap(x)
    nd = len(shape)
    real = list(range(nd)) if axes is None else [a % nd for a in axes]
    ws = peraxis(wav, len(real))
    w = tuple(E.pywt.Wavelet(q) for q in ws) if objs else tup(wav)
    c = E.pywt.swtn(x, w, level, start, None if axes is None else tup(axes), trim, norm)
    E.unchanged([x], s)
    bs = [scale(filters(E.pywt.Wavelet(q))[:2], norm) for q in ws]
    ex = specn(objarr(E, x), bs, real, level, start)
    tol = tol_of('haar', dt, 4 ** level * 2)
    A = 'a' * len(real)
    if trim:
        E.same(len(c), level + 1, 'number of entries')
        E.eq(c[0], ex[-1][A], tol, 'final approximation')
        c = c[1:]
    E.same(len(c), level, 'number of entries')
    for k in range(level):
        e = dict(ex[level - 1 - k])
        if trim:
            e.pop(A)
        E.same(sorted(c[k]), sorted(e), 'keys')
        for q in sorted(e):
            E.dtype(c[k][q], outdt(dt), 'swtn')
            E.eq(c[k][q], e[q], tol, 'level %d %s' % (level - k, q))


def s2(E, shape, axes, wav, level, start=0, trim=False, norm=False, dt='f8', order='C', dflt=False):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    s = E.snap(x)
    nd = len(shape)
    real = [a % nd for a in axes]
    kw = {} if dflt else {'axes': tup(axes)}
    c = E.pywt.swt2(x, tup(wav), level, start_level=start, trim_approx=trim, norm=norm, **kw)
    E.unchanged([x], s)
    bs = [scale(filters(E.pywt.Wavelet(q))[:2], norm) for q in peraxis(wav, 2)]
    ex = specn(objarr(E, x), bs, real, level, start)
    tol = tol_of('haar', dt, 4 ** level * 2)
    if trim:
        E.same(len(c), level + 1, 'number of entries')
        E.eq(c[0], ex[-1]['aa'], tol, 'final approximation')
        c = c[1:]
    E.same(len(c), level, 'number of entries')
    for k in range(level):
        e = ex[level - 1 - k]
        if trim:
            h, v, d = c[k]
        else:
            a, (h, v, d) = c[k]
            E.eq(a, e['aa'], tol, 'level %d cA' % (level - k))
        for nm, g, q in (('cH', h, 'da'), ('cV', v, 'ad'), ('cD', d, 'dd')):
            E.dtype(g, outdt(dt), 'swt2')
            E.eq(g, e[q], tol, 'level %d %s' % (level - k, nm))


def rej(E, n, wav):
    """inadmissible lengths, levels and starting levels are rejected"""
    x = E.arr('x', (n,), 'f8')
    z = 0
    while n % 2 ** (z + 1) == 0:
        z += 1
    P = E.pywt
    E.raises(lambda: P.swt(x, wav, level=z + 1), ValueError, 'level above the maximum')
    E.raises(lambda: P.swt(x, wav, level=1, start_level=z), ValueError, 'start_level too large')
    if z:
        E.raises(lambda: P.swt(x, wav, level=z, start_level=1), ValueError, 'start_level + level too large')
        E.raises(lambda: P.swt(x, wav, level=0), ValueError, 'level 0')
        E.raises(lambda: P.swt(E.np.stack([x, x]), wav, level=z + 1), ValueError, 'level above the maximum, 2-D')
        E.raises(lambda: P.swt(E.np.stack([x, x]), wav, level=z, start_level=1), ValueError, 'start_level + level too large, 2-D')
        E.raises(lambda: P.swt(E.np.stack([x, x]), wav, level=0), ValueError, 'level 0, 2-D')
        E.raises(lambda: P.swtn(x, wav, z + 1), ValueError, 'swtn level above the maximum')
    else:
        E.raises(lambda: P.swt(x, wav, level=1), ValueError, 'odd length')
        E.raises(lambda: P.swt(E.np.stack([x, x]), wav, level=1), ValueError, 'odd length, 2-D')
        E.raises(lambda: P.swt2(E.np.stack([x, x]), wav, 1), ValueError, 'odd length, swt2')


def z2(n):
    z = 0
    while n % 2 ** (z + 1) == 0:
        z += 1
    return z


def cases(tier, seed):
    rnd = random.Random(seed + 8)
    T = tier == 'thorough'
    out, seen = [], set()

    def add(nm, fn, **k):
        if nm not in seen:
            seen.add(nm)
            out.append((nm, fn, k))
    k = 0
    for w in DISCRETE:
        F = flen(w)
        for r in range(6 if T else 2):
            n = rnd.choice([4, 6, 8, 10, 12, 16, 20, 24, 32] if F < 40 else [4, 8, 12, 16])
            z = z2(n)
            L = rnd.randint(1, z)
            k += 1
            add('s1-%s-%d' % (w, k), 's1', n=n, wav=w, level=L, start=rnd.choice([0, rnd.randint(0, z - L)]), trim=rnd.random() < .4, norm=rnd.random() < .4)
    for w in SHORT:
        for n in ([2, 4, 6, 8, 12, 16, 24, 48] if T else [2, 4, 6, 8, 12, 16]):
            z = z2(n)
            for L in range(1, z + 1):
                for st in range(0, z - L + 1):
                    for tr in (False, True):
                        for nm in (False, True):
                            if not T and rnd.random() < .6 and w not in ('haar', 'db2'):
                                continue
                            add('s1x-%s-%d-%d-%d-%d%d' % (w, n, L, st, tr, nm), 's1', n=n, wav=w, level=L, start=st, trim=tr, norm=nm)
        for n in (2, 6, 8, 12, 16):
            add('s1d-%s-%d' % (w, n), 's1', n=n, wav=w, level=None, how='obj', trim=n == 8)
            add('s1l-%s-%d' % (w, n), 's1', n=n, wav=w, level=1, lst=True)
            for r in range(4 if T else 2):
                add('shift-%s-%d-%d' % (w, n, r), 'shift', n=n, wav=w, level=rnd.randint(1, z2(n)), by=rnd.randint(-n, n), norm=bool(r % 2))
        for n, L, st in ((8, 2, 1), (8, 1, 2), (16, 2, 2), (16, 1, 1), (12, 1, 1)):
            add('start-%s-%d-%d-%d' % (w, n, L, st), 'startsel', n=n, wav=w, level=L, start=st)
    for dt in ALLDT[1:]:
        for w in SHORT[:6]:
            add('s1t-%s-%s' % (dt, w), 's1', n=rnd.choice([4, 8, 12]), wav=w, level=2, dt=dt, trim=rnd.random() < .5, norm=rnd.random() < .5)
    for o in LAYOUTS[1:] + ['ro']:
        for w in SHORT[:4]:
            add('s1o-%s-%s' % (o, w), 's1', n=8, wav=w, level=rnd.choice([2, 3]), order=o, norm=rnd.random() < .5)
    for F in (1, 2, 3, 4, 6, 8) + ((10, 12) if T else ()):
        for n, L, st in ((2, 1, 0), (4, 1, 1), (6, 1, 0), (8, 1, 2)) + (((16, 1, 3), (12, 1, 1)) if T else ()):
            add('sym1-%d-%d-%d-%d' % (F, n, L, st), 'sym1', n=n, F=F, level=L, start=st, norm=rnd.random() < .3)
    for s in [(8, 3), (2, 4), (4, 2, 6), (8, 1), (2, 4, 1, 2)]:
        for ax in range(-len(s), len(s)):
            z = z2(s[ax])
            if not z:
                continue
            for r in range(8 if T else 3):
                L = rnd.randint(1, z)
                k += 1
                add('sax-%d-%s-%d' % (k, 'x'.join(map(str, s)), ax), 'sax', shape=list(s), axis=ax, wav=rnd.choice(SHORT), level=L, start=rnd.randint(0, z - L),
                    trim=rnd.random() < .5, norm=rnd.random() < .5, dt=rnd.choice(['f8', 'f4', 'c16', 'c8', 'i4']), order=rnd.choice(LAYOUTS))
    for s in [(4, 8), (4, 4), (2, 6), (8, 3, 4), (4, 2, 2), (2, 2, 2, 4), (8,)]:
        nd = len(s)
        for r in range(30 if T else 10):
            ev = [a for a in range(nd) if s[a] % 2 == 0]
            axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(ev, rnd.randint(1, min(len(ev), 3)))]
            if len(ev) == nd and nd < 4 and rnd.random() < .3:
                axes = None
            real = list(range(nd)) if axes is None else axes
            z = min(z2(s[a]) for a in real)
            L = rnd.randint(1, min(z, 2))
            w = rnd.choice([rnd.choice(SHORT), [rnd.choice(SHORT) for _ in real]])
            k += 1
            kw = dict(shape=list(s), wav=w, level=L, start=rnd.randint(0, z - L), trim=rnd.random() < .5, norm=rnd.random() < .5,
                      dt=rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8', 'u1']), order=rnd.choice(LAYOUTS))
            add('sn-%d-%s-%s' % (k, 'x'.join(map(str, s)), axes), 'sn', axes=axes, objs=rnd.random() < .3, **kw)
            if len(ev) >= 2:
                axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(ev, 2)]
                z = min(z2(s[a]) for a in axes)
                L = rnd.randint(1, min(z, 2))
                kw.update(wav=rnd.choice([rnd.choice(SHORT), [rnd.choice(SHORT) for _ in axes]]), level=L, start=rnd.randint(0, z - L))
                add('s2-%d-%s-%s' % (k, 'x'.join(map(str, s)), axes), 's2', axes=axes, **kw)
    for r, s in enumerate([(4, 8), (4, 4), (3, 4, 2)]):
        add('s2d-%d' % r, 's2', shape=list(s), axes=[-2, -1], wav=['haar', 'db2'], level=1, dflt=True, trim=bool(r % 2))
    for n in (1, 3, 2, 4, 12, 8):
        add('rej-%d' % n, 'rej', n=n, wav='db2')
    return out
