"""C04: idwt / idwt2 / idwtn / upcoef equal filtering of the zero-upsampled coefficients (the valid part; circular for
periodization), for named wavelets and custom filter banks with symbolic coefficients; a missing array acts as zeros, upcoef
repeats the operation and truncates centrally; mismatched or missing inputs are rejected."""
from .common import *

BOUNDS = ('coefficient lengths 1..12 (quick) / 1..20 (thorough) plus selected up to 150, nine modes, all 106 wavelets, symbolic banks of length 1..8 (12 thorough), '
          'upcoef levels 1..4 and every take value up to the full length + 1, n-D shapes up to 4 axes; |c| <= 1024 exact reals')
OUTSIDE = 'other sizes; floating-point rounding; coefficient lengths below F/2 in non-periodization modes (rejected)'
RUN = ValueError, RuntimeError, TypeError


def two(E, shape, dt, dt2, order='C'):
    a = E.arr('a', tup(shape), dt, order, **lohi(dt))
    d = E.arr('d', tup(shape), dt2 or dt, order, **lohi(dt2 or dt))
    return a, d


def mixdt(dt, dt2):
    a, b = outdt(dt), outdt(dt2 or dt)
    return a if a == b else ('c16' if 'c' in a + b else 'f8')


def inv1(E, n, wav, mode, dt='f8', dt2=None, order='C', miss='', how='array'):
    W, M = wav_arg(E, wav), mode_arg(E, mode)
    wn, mn = wav.split(':')[-1], mode.split(':')[-1]
    a, d = two(E, (n,), dt, dt2, order)
    s = E.snap(a, d)
    _, _, lo, hi = filters(E.pywt.Wavelet(wn))
    A, D = (None if miss == 'a' else a), (None if miss == 'd' else d)
    la, ld = (None if miss == 'a' else E.list(a)), (None if miss == 'd' else E.list(d))
    if how == 'list':
        A, D = la, ld
    y = E.pywt.idwt(A, D, W, M)
    E.unchanged([a, d], s)
    E.dtype(y, outdt(dt) if miss == 'd' else outdt(dt2 or dt) if miss == 'a' else mixdt(dt, dt2), 'idwt')
    E.eq(y, idwt(la, ld, lo, hi, mn), max(tol_of('haar', dt), tol_of('haar', dt2 or dt)), 'idwt')


def custom(E, n, F, mode, kind='idwt', miss='', level=1, take=0, part='a'):
    w, (dlo, dhi, lo, hi) = symbank(E, F)
    a = E.arr('a', (n,), 'f8', lo=-4, hi=4)
    if kind == 'up':
        t = E.list(a)
        r = upfull(t, lo if part == 'a' else hi)
        for _ in range(level - 1):
            r = upfull(r, lo)
        E.eq(E.pywt.upcoef(part, a, w, level=level, take=take), central(r, take), 1e-9, 'upcoef', deg=2)
        return
    d = E.arr('d', (n,), 'f8', lo=-4, hi=4)
    A, D = (None if miss == 'a' else a), (None if miss == 'd' else d)
    if kind == 'idwt':
        y = E.pywt.idwt(A, D, w, mode)
        E.eq(y, idwt(None if A is None else E.list(a), None if D is None else E.list(d), lo, hi, mode), 1e-9, 'idwt')
    else:
        X, Y = E.np.stack([a, a * 2.0 - d]), E.np.stack([d, d + 1.0])
        for ax in (0, 1):
            P, Q = (X, Y) if ax else (X.T, Y.T)
            y = E.pywt.idwt(None if miss == 'a' else P, None if miss == 'd' else Q, w, mode, axis=ax)
            e = None
            for Z, f, k in ((P, lo, 'a'), (Q, hi, 'd')):
                if miss != k:
                    t = along(objarr(E, Z), ax, lambda r: convrec(r, f, mode))
                    e = t if e is None else e + t
            E.eq(y, e, 1e-9, 'idwt axis %d' % ax)


def central(r, take):
    n = len(r)
    if 0 < take < n:
        cut = n - take
        left = cut // 2
        return r[left:left + take]
    return r


def up(E, n, wav, level, take, part, dt='f8', order='C', how='array', dflt=False):
    W = wav_arg(E, wav)
    c = E.arr('c', (n,), dt, order, **lohi(dt))
    s = E.snap(c)
    cl = E.list(c)
    y = E.pywt.upcoef(part, cl if how == 'list' else c, W) if dflt else E.pywt.upcoef(part, cl if how == 'list' else c, W, level, take)
    E.unchanged([c], s)
    E.dtype(y, outdt(dt), 'upcoef')
    _, _, lo, hi = filters(E.pywt.Wavelet(wav.split(':')[-1]))
    r = upfull(cl, lo if part == 'a' else hi)
    for _ in range(level - 1):
        r = upfull(r, lo)
    E.eq(y, central(r, take), tol_of('haar', dt, 2 ** level), 'upcoef')


def ax1(E, shape, axis, wav, mode, dt='f8', dt2=None, order='C', miss=''):
    a, d = two(E, shape, dt, dt2, order)
    s = E.snap(a, d)
    kw, ax = ({}, -1) if axis == 'default' else ({'axis': axis}, axis)
    y = E.pywt.idwt(None if miss == 'a' else a, None if miss == 'd' else d, wav, mode, **kw)
    E.unchanged([a, d], s)
    _, _, lo, hi = filters(E.pywt.Wavelet(wav))
    e = None
    for Z, f, k in ((a, lo, 'a'), (d, hi, 'd')):
        if miss != k:
            t = along(objarr(E, Z), ax, lambda r: convrec(r, f, mode))
            e = t if e is None else e + t
    E.dtype(y, outdt(dt) if miss == 'd' else outdt(dt2 or dt) if miss == 'a' else mixdt(dt, dt2), 'idwt')
    E.eq(y, e, max(tol_of('haar', dt), tol_of('haar', dt2 or dt)), 'idwt axis')


KEYS2 = {'a': 'aa', 'h': 'da', 'v': 'ad', 'd': 'dd'}


def i2(E, shape, axes, wav, mode, dts, order='C', miss='', dflt=False):
    c = {k: E.arr('c' + k, tup(shape), dt, order, **lohi(dt)) for k, dt in zip('ahvd', dts) if k not in miss}
    s = E.snap(*c.values())
    kw = {} if dflt else {'axes': tup(axes)}
    y = E.pywt.idwt2((c.get('a'), (c.get('h'), c.get('v'), c.get('d'))), wav_arg(E, wav), mode_arg(E, mode), **kw)
    E.unchanged(list(c.values()), s)
    bs = [filters(E.pywt.Wavelet(q.split(':')[-1]))[2:] for q in peraxis(wav, 2)]
    ms = [q.split(':')[-1] for q in peraxis(mode, 2)]
    E.eq(y, idwtn({KEYS2[k]: objarr(E, v) for k, v in c.items()}, bs, ms, axes), max(tol_of('haar', d, 2) for d in dts), 'idwt2')


def inn(E, shape, axes, wav, mode, dt='f8', order='C', miss=(), none=False):
    real = list(range(len(shape))) if axes is None else axes
    keys = ['']
    for _ in real:
        keys = [k + q for k in keys for q in 'ad']
    c = {k: E.arr('c' + k, tup(shape), dt, order, **lohi(dt)) for k in keys if k not in miss}
    arg = dict(c)
    if none:
        arg.update({k: None for k in miss})
    s = E.snap(arg, *c.values())
    y = E.pywt.idwtn(arg, wav_arg(E, wav), mode_arg(E, mode), axes=None if axes is None else tup(axes))
    E.unchanged([arg] + list(c.values()), s)
    bs = [filters(E.pywt.Wavelet(q.split(':')[-1]))[2:] for q in peraxis(wav, len(real))]
    ms = [q.split(':')[-1] for q in peraxis(mode, len(real))]
    E.dtype(y, outdt(dt), 'idwtn')
    E.eq(y, idwtn({k: objarr(E, v) for k, v in c.items()}, bs, ms, real), tol_of('haar', dt, 4), 'idwtn')


def reject(E, what, wav='db2', mode='symmetric'):
    f = E.pywt
    a = E.arr('a', (4,))
    b = E.arr('b', (5,))
    A = E.arr('A', (4, 3))
    B = E.arr('B', (4, 4))
    C = E.arr('C', (3, 4))
    V, R = ValueError, (ValueError, RuntimeError)
    t = {
        'none': lambda: E.raises(lambda: f.idwt(None, None, wav, mode), V),
        'len': lambda: E.raises(lambda: f.idwt(a, b, wav, mode), V),
        'len2': lambda: E.raises(lambda: f.idwt(b, a, wav, mode), V),
        'ndim': lambda: E.raises(lambda: f.idwt(a, E.np.zeros((2, 2)), wav, mode), R),
        'ndim2': lambda: E.raises(lambda: f.idwt(E.np.zeros((2, 2)), a, wav, mode), R),
        'ax': lambda: E.raises(lambda: f.idwt(A, B, wav, mode, axis=1), R),
        'ax0': lambda: E.raises(lambda: f.idwt(A, B, wav, mode, axis=0), R),
        'axt': lambda: E.raises(lambda: f.idwt(B, A, wav, mode, axis=1), R),
        'axr': lambda: E.raises(lambda: f.idwt(B, C, wav, mode, axis=0), R),
        'n': lambda: E.raises(lambda: f.idwtn({'aa': A, 'dd': B}, wav, mode), R),
        'nn': lambda: E.raises(lambda: f.idwtn({'aa': None}, wav, mode), R),
        'n0': lambda: E.raises(lambda: f.idwtn({}, wav, mode), R),
        '2': lambda: E.raises(lambda: f.idwt2((A, (B, None, None)), wav, mode), R),
        '2n': lambda: E.raises(lambda: f.idwt2((None, (None, None, None)), wav, mode), R),
        '2c': lambda: E.raises(lambda: f.idwt2((A, (None, None, C)), wav, mode), R),
        'wr': lambda: E.raises(lambda: f.waverec([a, E.arr('q', (7,))], wav, mode), R),
        'wr2': lambda: E.raises(lambda: f.waverec([b, E.arr('q', (3,))], wav, mode), R),
        'wr3': lambda: E.raises(lambda: f.waverec([a, None, E.arr('q', (3,))], wav, mode), R),
        'up0': lambda: E.raises(lambda: f.upcoef('a', a, wav, level=0), R),
        'upn': lambda: E.raises(lambda: f.upcoef('a', A, wav), R),
        'upx': lambda: E.raises(lambda: f.upcoef('x', a, wav), R),
        'dn0': lambda: E.raises(lambda: f.downcoef('a', a, wav, mode, level=0), R),
        'dnn': lambda: E.raises(lambda: f.downcoef('a', A, wav, mode), R),
    }
    if what == 'short':
        F = flen(wav)
        for n in range(1, F // 2):
            p, q = E.arr('p%d' % n, (n,)), E.arr('r%d' % n, (n,))
            E.raises(lambda: f.idwt(p, q, wav, mode), V, 'idwt on too short coefficients')
        return
    t[what]()


REJ = 'none len len2 ndim ndim2 ax ax0 axt axr n nn n0 2 2n 2c wr wr2 wr3 up0 upn upx dn0 dnn'.split()


def okl(n, F, m):
    return m == 'periodization' or 2 * n - F + 2 >= 1


def cases(tier, seed):
    rnd = random.Random(seed)
    out, seen = [], set()
    T = tier == 'thorough'

    def add(nm, fn, **k):
        if nm not in seen:
            seen.add(nm)
            out.append((nm, fn, k))
    ML = MODES
    for w in ['haar', 'db2', 'db3', 'bior2.4'] + (['db5', 'sym4', 'bior3.1', 'rbio1.3', 'coif2', 'db10'] if T else []):
        for m in (ML if T else ['symmetric', 'periodization', 'zero', rnd.choice(['constant', 'reflect', 'periodic', 'smooth', 'antisymmetric', 'antireflect'])]):
            for n in range(1, 21 if T else 13):
                if okl(n, flen(w), m):
                    add('i1-%s-%s-%d' % (w, m, n), 'inv1', n=n, wav=w, mode=m, miss=rnd.choice(['', '', 'a', 'd']))
    for w in DISCRETE:
        for m in (MODES if T else [rnd.choice(EXTMODES), 'periodization']):
            F = flen(w)
            for n in {rnd.choice([F // 2, F // 2 + 1, F]), rnd.choice([2, 3, F // 2 + 2])} | ({1} if m == 'periodization' else set()):
                if okl(n, F, m):
                    add('ia-%s-%s-%d' % (w, m, n), 'inv1', n=n, wav=w, mode=m, miss=rnd.choice(['', 'a', 'd']))
    for dt in ALLDT:
        for m in MODES:
            for miss in ('', 'a', 'd'):
                w = rnd.choice(SHORT)
                add('it-%s-%s-%s' % (dt, m, miss), 'inv1', n=rnd.choice([5, 6]), wav=w, mode=m, dt=dt, miss=miss, order=rnd.choice(LAYOUTS + ['ro']))
    for d1 in ['f8', 'f4', 'c16', 'c8', 'i4']:
        for d2 in ['f8', 'f4', 'c16', 'c8', 'i4']:
            if d1 != d2:
                add('im-%s-%s' % (d1, d2), 'inv1', n=5, wav='db2', mode=rnd.choice(MODES), dt=d1, dt2=d2)
                add('ima-%s-%s' % (d1, d2), 'ax1', shape=[3, 4], axis=rnd.choice([0, 1, -1, -2]), wav='db2', mode=rnd.choice(MODES), dt=d1, dt2=d2, order=rnd.choice(LAYOUTS))
    for m in MODES:
        add('il-%s' % m, 'inv1', n=5, wav='obj:db2', mode='int:' + m, how='list')
    for n, w, m in [(150, 'haar', 'zero'), (100, 'db2', 'periodization'), (101, 'db4', 'symmetric')]:
        add('ib-%s-%d' % (w, n), 'inv1', n=n, wav=w, mode=m)
    for F in range(1, 13 if T else 9):
        for m in (MODES if T else [rnd.choice(EXTMODES), 'periodization']):
            Fe = F + F % 2
            for n in {1, 2, Fe // 2, Fe // 2 + 1, Fe, Fe + 1}:
                if okl(n, Fe, m):
                    for miss in (['', 'a', 'd'] if T else [rnd.choice(['', 'a', 'd'])]):
                        add('cus-%d-%s-%d-%s' % (F, m, n, miss), 'custom', n=n, F=F, mode=m, miss=miss)
    for F in (1, 2, 3, 4, 6):
        for m in MODES:
            n = rnd.choice([(F + 1) // 2 + k for k in range(4)])
            add('cusa-%d-%s' % (F, m), 'custom', n=n, F=F, mode=m, kind='axis', miss=rnd.choice(['', 'a', 'd']))
        for L in (1, 2):
            for p in 'ad':
                add('cusu-%d-%d-%s' % (F, L, p), 'custom', n=3, F=F, mode='zero', kind='up', level=L, take=rnd.choice([0, 3]), part=p)
    for w in SHORT + ['db10']:
        F = flen(w)
        for L in (range(1, 5) if T else (1, 2, 3)):
            for p in 'ad':
                n = rnd.choice([1, 2, 3, 5])
                r = n
                for _ in range(L):
                    r = 2 * r + F - 2
                for t in {0, 1, 2, r - 1, r, r + 1, rnd.randint(1, r), rnd.randint(1, r)}:
                    add('up-%s-%d-%s-%d-%d' % (w, L, p, n, t), 'up', n=n, wav=w, level=L, take=t, part=p)
    for w in DISCRETE:
        add('upw-%s' % w, 'up', n=2, wav=w, level=1, take=0, part=rnd.choice('ad'))
    for n in (1, 3):
        for t in range(0, 24):
            add('upt-%d-%d' % (n, t), 'up', n=n, wav='db2', level=2, take=t, part='ad'[t % 2])
    for dt in ALLDT:
        for p in 'ad':
            for L in (1, 2):
                add('upd-%s-%s-%d' % (dt, p, L), 'up', n=4, wav=rnd.choice(SHORT), level=L, take=rnd.choice([0, 5]), part=p, dt=dt, order=rnd.choice(LAYOUTS + ['ro']))
    add('upl', 'up', n=4, wav='obj:db2', level=1, take=0, part='d', how='list', dflt=True)
    for s in [(1, 4), (3, 4), (4, 3), (2, 5, 3), (3, 4, 2, 4)]:
        for ax in list(range(-len(s), len(s))) + ['default']:
            for m in (MODES if T else rnd.sample(MODES, 4)):
                w = rnd.choice([q for q in SHORT if okl(s[-1 if ax == 'default' else ax], flen(q), m)])
                add('ax-%s-%s-%s' % ('x'.join(map(str, s)), ax, m), 'ax1', shape=list(s), axis=ax, wav=w, mode=m, dt=rnd.choice(ALLDT), order=rnd.choice(LAYOUTS), miss=rnd.choice(['', 'a', 'd']))
    k = 0
    for s in [(4, 4), (3, 5), (4, 2, 3), (2, 3, 3, 3)]:
        nd = len(s)
        pairs = [[a, b] for a in range(-nd, nd) for b in range(-nd, nd) if (a - b) % nd]
        for p in (pairs if T else rnd.sample(pairs, min(8, len(pairs)))):
            for r in range(3):
                m = rnd.choice([rnd.choice(MODES), [rnd.choice(MODES), 'int:' + rnd.choice(MODES)]])
                ms = [q.split(':')[-1] for q in peraxis(m, 2)]
                ws = [rnd.choice([q for q in SHORT if okl(s[a], flen(q), mm)]) for a, mm in zip(p, ms)]
                w = ws if rnd.random() < .6 else rnd.choice(['haar', 'bior1.1', 'obj:haar'])
                dts = [rnd.choice(['f8', 'f4', 'c16', 'c8', 'i4'])] * 4 if rnd.random() < .6 else [rnd.choice(['f8', 'f4', 'c16', 'c8']) for _ in range(4)]
                miss = rnd.choice(['', '', 'a', 'hvd', 'v', 'h', 'd', 'ah', 'hd', 'vd', 'av'])
                k += 1
                add('i2-%d-%s-%s-%s' % (k, 'x'.join(map(str, s)), p, miss), 'i2', shape=list(s), axes=p, wav=w, mode=m, dts=dts, order=rnd.choice(LAYOUTS), miss=miss)
        add('i2d-%s' % 'x'.join(map(str, s)), 'i2', shape=list(s), axes=[-2, -1], wav='haar', mode='symmetric', dts=['f8'] * 4, dflt=True)
    for s in [(5,), (4, 3), (3, 4, 2), (2, 3, 2, 3)]:
        nd = len(s)
        for r in range(40 if T else 18):
            axes = None if r == 0 else [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), rnd.randint(1, min(3, nd)))]
            real = list(range(nd)) if axes is None else axes
            m = rnd.choice([rnd.choice(MODES), [rnd.choice(MODES) for _ in real]])
            ms = peraxis(m, len(real))
            ws = [rnd.choice([q for q in SHORT if okl(s[a], flen(q), mm)]) for a, mm in zip(real, ms)]
            w = ws if rnd.random() < .6 else rnd.choice(['haar', 'bior1.1'])
            keys = ['']
            for _ in real:
                keys = [q + c for q in keys for c in 'ad']
            miss = rnd.sample(keys, rnd.randint(0, len(keys) - 1)) if rnd.random() < .6 else []
            k += 1
            add('in-%d-%s-%s' % (k, 'x'.join(map(str, s)), axes), 'inn', shape=list(s), axes=axes, wav=w, mode=m, dt=rnd.choice(ALLDT), order=rnd.choice(LAYOUTS), miss=miss, none=rnd.random() < .5)
    for r in REJ:
        for w, m in (('db2', 'symmetric'), ('haar', 'periodization')):
            add('rej-%s-%s' % (r, w), 'reject', what=r, wav=w, mode=m)
    for w in ('db3', 'db4', 'bior2.2'):
        add('rej-short-%s' % w, 'reject', what='short', wav=w, mode='zero')
    return out
