"""C19: every discrete and stationary transform and its inverse is linear: T(a x + b y) = a T(x) + b T(y) for symbolic data and symbolic (complex) scalars,
and the transform of complex data is T(real part) + i T(imaginary part)."""
from .common import *
from .c08 import flat, z2

BOUNDS = ('33 transforms and inverses (1-D, 2-D, n-D, single and multilevel, partial, stationary, separable, multiresolution, packet levels); sizes <= 24 (1-D) and up to 4 axes of '
          'length <= 8; levels <= 3; all discrete wavelets (one size each), all nine modes; float64, float32, complex128, complex64 and integer input; |x|, |y|, |a|, |b| <= 1024 / 4')
OUTSIDE = 'larger arrays, deeper levels, rounding beyond the stated tolerance'


def tmap(f, o):
    if isinstance(o, dict):
        return {k: tmap(f, v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(tmap(f, v) for v in o)
    return o if o is None else f(o)


def fwd(E, api, wav, mode, level, axes, **kw):
    p = E.pywt
    w, m = wav_arg(E, wav), tup(mode)
    ax = axes if axes is None else tup(axes)
    a0 = axes[0] if axes else -1
    wp = dict(db=p.WaveletPacket, d2=p.WaveletPacket2D, dn=p.WaveletPacketND)
    return {
        'dwt': lambda x: p.dwt(x, w, m, axis=a0),
        'wavedec': lambda x: p.wavedec(x, w, m, level=level, axis=a0),
        'downa': lambda x: p.downcoef('a', x, w, m, level), 'downd': lambda x: p.downcoef('d', x, w, m, level),
        'dwt2': lambda x: p.dwt2(x, w, m, axes=ax), 'wavedec2': lambda x: p.wavedec2(x, w, m, level=level, axes=ax),
        'dwtn': lambda x: p.dwtn(x, w, m, axes=ax), 'wavedecn': lambda x: p.wavedecn(x, w, m, level=level, axes=ax),
        'fsw': lambda x: p.fswavedecn(x, w, m, levels=level, axes=ax).coeffs,
        'swt': lambda x: p.swt(x, w, level=level, axis=a0, **kw), 'swt2': lambda x: p.swt2(x, w, level, axes=ax, **kw), 'swtn': lambda x: p.swtn(x, w, level, axes=ax, **kw),
        'mra': lambda x: p.mra(x, w, level=level, axis=a0, transform='dwt', mode=m), 'mras': lambda x: p.mra(x, w, level=level, axis=a0),
        'mra2': lambda x: p.mra2(x, w, level=level, axes=ax, transform='dwt2', mode=m), 'mran': lambda x: p.mran(x, w, level=level, axes=ax, transform='swtn'),
        'wp': lambda x: [n.data for n in wp['db'](x, w, m, axis=a0, maxlevel=level).get_level(level)],
        'wp2': lambda x: [n.data for n in wp['d2'](x, w, m, axes=ax, maxlevel=level).get_level(level)],
        'wpn': lambda x: [n.data for n in wp['dn'](x, w, m, axes=ax, maxlevel=level).get_level(level)],
        'pad': lambda x: p.pad(x, [[3, 5]] * len(x.shape), m),
    }[api]


INV = {'idwt': 'dwt', 'waverec': 'wavedec', 'idwt2': 'dwt2', 'waverec2': 'wavedec2', 'idwtn': 'dwtn', 'waverecn': 'wavedecn', 'ifsw': 'fsw', 'iswt': 'swt', 'iswt2': 'swt2',
       'iswtn': 'swtn', 'imra': 'mra', 'imra2': 'mra2', 'imran': 'mran'}


def inv(E, api, wav, mode, level, axes, shape, **kw):
    p = E.pywt
    w, m = wav_arg(E, wav), tup(mode)
    ax = axes if axes is None else tup(axes)
    a0 = axes[0] if axes else -1
    nm = dict(norm=kw.get('norm', False))

    def ifsw(c):
        r = p.fswavedecn(E.np.zeros(tup(shape)), w, m, levels=level, axes=ax)
        r = p.FswavedecnResult(c, r.coeff_slices, r.wavelets, [getattr(E.pywt.Modes, q) for q in r.modes], r.axes)
        return p.fswaverecn(r)
    return {
        'idwt': lambda c: p.idwt(c[0], c[1], w, m, axis=a0), 'waverec': lambda c: p.waverec(c, w, m, axis=a0),
        'idwt2': lambda c: p.idwt2(c, w, m, axes=ax), 'waverec2': lambda c: p.waverec2(c, w, m, axes=ax),
        'idwtn': lambda c: p.idwtn(c, w, m, axes=ax), 'waverecn': lambda c: p.waverecn(c, w, m, axes=ax), 'ifsw': ifsw,
        'iswt': lambda c: p.iswt(c, w, axis=a0, **nm), 'iswt2': lambda c: p.iswt2(c, w, axes=ax, **nm), 'iswtn': lambda c: p.iswtn(c, w, axes=ax, **nm),
        'imra': p.imra, 'imra2': p.imra2, 'imran': p.imran,
    }[api]


def setup(E, api, shape, wav, mode, level, axes, drop, take, part, **kw):
    """-> (transform of a list of leaf arrays, leaf shapes)"""
    if api == 'up':
        return (lambda v: [E.pywt.upcoef(part, v[0], wav_arg(E, wav), level, take)]), [tup(shape)]
    if api not in INV:
        f = fwd(E, api, wav, mode, level, axes, **kw)
        return (lambda v: flat(_l(f(v[0])))), [tup(shape)]
    c = fwd(E, INV[api], wav, mode, level, axes, **kw)(E.np.zeros(tup(shape)))
    shp = []
    tmap(lambda a: shp.append(a.shape), c)
    g = inv(E, api, wav, mode, level, axes, shape, **kw)

    def run(v):
        it = iter(v)
        k = [0]

        def leaf(a):
            x = next(it)
            k[0] += 1
            return None if drop and k[0] in drop else x
        return [g(tmap(leaf, c))]
    return run, shp


def _l(r):
    return list(r) if isinstance(r, (list, tuple)) else [r]


def lin(E, api, shape, wav='db2', mode='symmetric', level=1, axes=None, dt='f8', order='C', cscal=False, kw={}, drop=None, take=0, part='d'):
    T, shp = setup(E, api, shape, wav, mode, level, axes, drop, take, part, **kw)
    b = dict(lohi(dt)) or dict(lo=-1024, hi=1024)
    x = [E.arr('x%d' % i, s, dt, order, **b) for i, s in enumerate(shp)]
    y = [E.arr('y%d' % i, s, dt, order, **b) for i, s in enumerate(shp)]
    al, be = E.scalar('al', -4, 4), E.scalar('be', -4, 4)
    tol = tol_of(wav, dt) if 'dmey' not in str(wav) else 1e-9 if dt not in F4 else 4e-5
    big = 8192 * tol
    if dt[0] in 'iu':                   # integer input: plain sums stay integers
        z = [p + p + q for p, q in zip(x, y)] if dt[0] == 'i' and dt != 'i1' else [p // 2 + q // 2 for p, q in zip(x, y)]
        al, be = 2, 1
        if dt[0] == 'u' or dt == 'i1':
            return
    elif cscal:
        ai, bi = E.scalar('ai', -4, 4), E.scalar('bi', -4, 4)
        al, be = al + 1j * ai, be + 1j * bi
        z = [p * al + q * be for p, q in zip(x, y)]
    else:
        z = [p * al + q * be for p, q in zip(x, y)]
    tx, ty, tz = T(x), T(y), T(z)
    E.same(len(tz), len(tx), 'number of results')
    for a, c, d in zip(tx, ty, tz):
        E.shape(d, tuple(a.shape), api)
        E.eq(d, objarr(E, a) * al + objarr(E, c) * be, tol, api + ' of a linear combination', deg=2)


def cplx(E, api, shape, wav='db2', mode='symmetric', level=1, axes=None, dt='c16', order='C', kw={}, drop=None, take=0, part='d'):
    """T(re + i im) = T(re) + i T(im)"""
    T, shp = setup(E, api, shape, wav, mode, level, axes, drop, take, part, **kw)
    z = [E.arr('z%d' % i, s, dt, order) for i, s in enumerate(shp)]
    rdt = 'f4' if dt == 'c8' else 'f8'
    tz = T(z)
    tr, ti = T([a.real for a in z]), T([a.imag for a in z])
    tol = 4e-5 if dt == 'c8' else 1e-9
    E.same(len(tz), len(tr), 'number of results')
    for c, r, i in zip(tz, tr, ti):
        E.shape(c, tuple(r.shape), api)
        E.dtype(c, dt, api + ' of complex data')
        E.dtype(r, rdt, api + ' of the real part')
        E.eq(c, objarr(E, r) + 1j * objarr(E, i), tol, api + ' of complex data')


def mixed(E, api, shape, dts, wav='db2', mode='symmetric', level=1, axes=None, kw={}):
    """coefficient arrays of different dtypes: the inverse of their sum split by real and imaginary part"""
    T, shp = setup(E, api, shape, wav, mode, level, axes, None, 0, 'd', **kw)
    z = [E.arr('z%d' % i, s, dts[i % len(dts)], 'C') for i, s in enumerate(shp)]
    re = [a.real.astype('f8') for a in z]
    im = [a.imag.astype('f8') if dts[i % len(dts)][0] == 'c' else a.real.astype('f8') * 0.0 for i, a in enumerate(z)]
    tz, tr, ti = T(z), T(re), T(im)
    for c, r, i in zip(tz, tr, ti):
        E.shape(c, tuple(r.shape), api)
        E.eq(c, objarr(E, r) + 1j * objarr(E, i), 4e-5, api + ' of coefficients of mixed dtypes')


ONE = ['dwt', 'wavedec', 'swt', 'mra', 'mras', 'wp', 'idwt', 'waverec', 'iswt', 'imra']
TWO = ['dwt2', 'wavedec2', 'swt2', 'mra2', 'wp2', 'idwt2', 'waverec2', 'iswt2', 'imra2']
ND = ['dwtn', 'wavedecn', 'swtn', 'fsw', 'mran', 'wpn', 'idwtn', 'waverecn', 'iswtn', 'ifsw', 'imran', 'pad']
STAT = ('swt', 'swt2', 'swtn', 'mras', 'mran', 'iswt', 'iswt2', 'iswtn', 'imran')


def cases(tier, seed):
    T = tier == 'thorough'
    rnd = random.Random(seed * 19 + 1)
    out = []
    k = [0]

    def add(fn, **c):
        k[0] += 1
        out.append(('%s-%s-%s-%d' % (fn, c['api'], c.get('dt', ''), k[0]), fn, c))
    W = ['haar', 'db2', 'db3', 'bior2.2', 'bior3.1', 'sym4', 'rbio1.3', 'coif1', 'db6']

    def one(fn, api, dt, order, wav=None, mode=None, n=None, nd=1):
        st = api in STAT
        n = n or rnd.choice([4, 6, 8, 12] if st else [2, 3, 5, 8, 9])
        sh = [rnd.choice([2, 3]) for _ in range(nd)]
        a = rnd.randrange(nd)
        sh[a] = n
        ax = a - nd * rnd.randint(0, 1)
        L = rnd.randint(1, min(3, z2(n))) if st else 1 if n < 4 else rnd.randint(1, 2 if nd > 1 else 3)
        m = mode or rnd.choice(MODES)
        if api == 'mra' or api == 'imra':
            L = min(L, 2)
        kw = dict(norm=rnd.random() < .5, trim_approx=rnd.random() < .5) if api in ('swt', 'iswt') else {}
        if api in INV and order == 'F':
            order = 'C'
        add(fn, api=api, shape=sh, wav=wav or rnd.choice(W), mode=m if not st else 'periodization', level=L, axes=[ax], dt=dt, order=order, kw=kw,
            **(dict(drop=[rnd.choice([1, 2])]) if api == 'idwt' and rnd.random() < .3 else {}))
    for fn in ('lin', 'cplx'):
        dts = ['f8', 'f4', 'c16', 'c8', 'i4'] if fn == 'lin' else ['c16', 'c8']
        for api in ONE:
            for dt in dts:
                if api in INV and dt in ('f2', 'i4'):
                    continue
                for r in range((6 if T else 2) * (1 if fn == 'lin' else 3)):
                    one(fn, api, dt, rnd.choice(LAYOUTS[:4]), nd=1 if r % 2 == 0 else rnd.choice([2, 3]))
        for api in ('downa', 'downd', 'up'):
            for dt in dts:
                if api == 'up' and dt in ('f2',):
                    continue
                for L in (1, 2, 3):
                    add(fn, api=api, shape=[rnd.choice([3, 5, 6])], wav=rnd.choice(W), mode=rnd.choice(MODES), level=L, dt=dt, take=rnd.choice([0, 5]), part=rnd.choice('ad'))
        for api in TWO + ND:
            st = api in STAT
            for dt in dts:
                if api in INV and dt in ('f2', 'i4') or api in ('mra2', 'mran', 'imran') and dt in ('f2',):
                    continue
                for r in range((5 if T else 2) * (1 if fn == 'lin' else 2)):
                    nd = 2 if api in TWO and r == 0 else rnd.choice([2, 3])
                    na = 2 if api in TWO else rnd.randint(1, 2)
                    axes = rnd.sample(range(nd), na)
                    sh = [(rnd.choice([2, 4]) if st else rnd.choice([2, 3, 4, 5])) if q in axes else 2 for q in range(nd)]
                    L = 1 if st and min(sh[q] for q in axes) < 4 or min(sh[q] for q in axes) < 3 else rnd.choice([1, 2])
                    if st:
                        L = min(L, min(z2(sh[q]) for q in axes))
                    per = rnd.random() < .4 and api not in ('pad',)
                    w = [rnd.choice(W[:6]) for _ in axes] if per and not api.startswith('wp') else rnd.choice(W[:6])
                    m = 'periodization' if st else [rnd.choice(MODES) for _ in axes] if per and not api.startswith('wp') else rnd.choice(MODES)
                    if api.startswith('wp') and 'refl' in str(m):
                        m = 'smooth'
                    kw = dict(norm=rnd.random() < .5, trim_approx=rnd.random() < .5) if api in ('swt2', 'swtn', 'iswt2', 'iswtn') else {}
                    if api == 'pad':
                        axes = None
                    add(fn, api=api, shape=sh, wav=w, mode=m, level=L, axes=None if axes is None else [q - nd * rnd.randint(0, 1) for q in axes], dt=dt, order=rnd.choice(LAYOUTS[:4]), kw=kw)
    # every wavelet and every mode, in both precisions
    for w in DISCRETE:
        for m in (MODES if T else rnd.sample(MODES, 2)):
            one('cplx', 'dwt', rnd.choice(['c16', 'c8']), 'C', wav=w, mode=m, n=rnd.choice([4, 7]))
            one('cplx', 'idwt', rnd.choice(['c16', 'c8']), 'C', wav=w, mode=m, n=max(2, 2 * (flen(w) // 2 - 1) // 2))
            one('lin', 'dwt', rnd.choice(['f8', 'f4', 'c8']), 'C', wav=w, mode=m, n=rnd.choice([4, 7]))
    for dt in ('c16', 'c8'):
        for api in ('dwt', 'wavedec', 'swt', 'iswt', 'waverec', 'idwt'):
            for m in MODES:
                k[0] += 1
                st = api in STAT
                add('lin', api=api, shape=[4], wav=rnd.choice(W), mode='periodization' if st else m, level=1, axes=[0], dt=dt, cscal=True)
    for api in INV:
        for dts in ([['f8', 'c16'], ['c16', 'f8'], ['c8', 'f4'], ['f4', 'c8'], ['f4', 'f8'], ['f8', 'f4'], ['c8', 'c16'], ['c16', 'c8'], ['f8', 'c8'], ['c16', 'f4', 'f8']] if T or api in ('idwt', 'idwtn')
                    else [['f8', 'c16'], ['c16', 'f8'], rnd.choice([['c8', 'f4'], ['c8', 'f8', 'f4']]), ['f4', 'c8'], ['f4', 'f8'], ['f8', 'f4'], ['c8', 'c16']]):
            st = api in STAT
            nd = 1 if api in ONE else 2
            add('mixed', api=api, shape=[4] * nd, dts=dts, wav=rnd.choice(['haar', 'db2', 'bior3.1']), mode='periodization' if st else rnd.choice(MODES), level=rnd.choice([1, 2]),
                axes=list(range(nd)), kw={})
    # reflect and antireflect need two samples at every level
    return [c for c in out if not ('refl' in str(c[2].get('mode')) and (min(c[2]['shape']) < 3 or c[2].get('level', 1) > 2 and min(c[2]['shape']) < 9))]
