"""C10: with orthogonal wavelets, periodization on even sizes (and the normalised trimmed stationary transform) preserves inner products
and energies at every level, in 1-D, 2-D, n-D, for the fully separable transform and packet leaves."""
from .common import *
from .c08 import flat, z2

BOUNDS = ('the obligation is the quadratic identity sum c(x)conj(c(y)) = sum x conj(y) over symbolic x, y in [-1, 1], monomials treated as independent; all 83 orthogonal built-in wavelets, '
          'sizes 2^L*k up to 32 in 1-D and up to 4 axes of length <= 8 in n-D, levels <= 4, any axes, per-axis wavelets, six dtypes')
OUTSIDE = 'longer signals, floating-point rounding in the data path, non-orthogonal wavelets'
TR = {}


def sq(c):
    """sum of |c|^2 as python value"""
    return sum((v * v.conjugate()).real if hasattr(v, 'conjugate') and not isinstance(v, float) else v * v for v in c)


def dot(E, p, q):
    s = 0.0
    for a, b in zip(p, q):
        s = s + a * (b.conjugate() if iscx(b) else b)
    return s


def iscx(v):
    return isinstance(v, complex) or type(v).__name__ in ('Cx', 'complex64', 'complex128')


def lst(E, c):
    r = []
    for a in c:
        r += list(E.list(a.reshape(-1)))
    return r


def tolw(w, dt, n):
    ws = w if isinstance(w, (list, tuple)) else [w]
    t = max((1e-2 if q == 'dmey' else 2e-9 for q in ws))
    if dt in F4:
        t = max(t, 4e-5)
    return t * n * n


def go(E, x, y, fx, fy, wav, dt, label, levels=1):
    n = len(E.list(x.reshape(-1)))
    lx, ly = lst(E, [x]), lst(E, [y])
    E.eq([dot(E, lst(E, fx), lst(E, fy))], [dot(E, lx, ly)], tolw(wav, dt, n) * levels, label, deg=2)


def two(E, shape, dt, order, both):
    x = E.arr('x', tup(shape), dt, order, lo=-1, hi=1)
    return x, E.arr('y', tup(shape), dt, order, lo=-1, hi=1) if both else x


def check(E, shape, dt, order, both, wav, run, label):
    x, y = two(E, shape, dt, order, both)
    cx = run(x)
    cy = run(y) if both else cx
    for k, (p, q) in enumerate(zip(cx, cy)):
        go(E, x, y, p, q, wav, dt, '%s level %d' % (label, k + 1), k + 1)


def e1(E, n, wav, level, dt='f8', order='C', both=False):
    P = E.pywt
    check(E, (n,), dt, order, both, wav, lambda x: [flat(P.wavedec(x, wav, 'periodization', level=l)) for l in range(1, level + 1)], 'wavedec')


def edwt(E, shape, axis, wav, dt='f8', order='C', both=False):
    P = E.pywt
    check(E, shape, dt, order, both, wav, lambda x: [list(P.dwt(x, wav, 'periodization', axis=axis))], 'dwt')


def en(E, shape, axes, wav, level, api='wavedecn', dt='f8', order='C', both=False):
    P = E.pywt
    w, ax = tup(wav), None if axes is None else tup(axes)
    m = 'periodization'
    run = {'wavedecn': lambda x: [flat(P.wavedecn(x, w, m, level=l, axes=ax)) for l in range(1, level + 1)],
           'wavedec2': lambda x: [flat(P.wavedec2(x, w, m, level=l, axes=ax)) for l in range(1, level + 1)],
           'dwtn': lambda x: [flat([P.dwtn(x, w, m, axes=ax)])],
           'dwt2': lambda x: [flat(P.dwt2(x, w, m, axes=ax))],
           'fswavedecn': lambda x: [[P.fswavedecn(x, w, m, levels=l, axes=ax).coeffs] for l in range(1, level + 1)]}[api]
    check(E, shape, dt, order, both, wav, run, api)


def es(E, shape, axes, wav, level, api='swt', dt='f8', order='C', both=False):
    P = E.pywt
    w = tup(wav)
    kw = dict(trim_approx=True, norm=True)
    if api == 'swt':
        run = lambda x: [flat(P.swt(x, w, level=l, axis=axes[0], **kw)) for l in range(1, level + 1)]
    elif api == 'swt2':
        run = lambda x: [flat(P.swt2(x, w, l, axes=tup(axes), **kw)) for l in range(1, level + 1)]
    else:
        run = lambda x: [flat(P.swtn(x, w, l, axes=None if axes is None else tup(axes), **kw)) for l in range(1, level + 1)]
    check(E, shape, dt, order, both, wav, run, api)


def epack(E, shape, wav, level, dt='f8'):
    P = E.pywt
    C = {1: P.WaveletPacket, 2: P.WaveletPacket2D, 3: P.WaveletPacketND}[len(shape)]

    def run(x):
        t = C(x, wav, 'periodization', maxlevel=level)
        r = []
        for l in range(1, level + 1):
            nodes = t.get_level(l)
            if len(shape) == 2:
                nodes = [q for q in nodes]
            r.append([q.data for q in nodes])
        return r
    check(E, shape, dt, 'C', False, wav, run, 'packet leaves')


def cases(tier, seed):
    rnd = random.Random(seed + 10)
    T = tier == 'thorough'
    out, seen = [], set()

    def add(nm, fn, **k):
        if nm not in seen:
            seen.add(nm)
            out.append((nm, fn, k))
    k = 0
    dts = ['f8', 'f8', 'f8', 'f4', 'c16', 'c8', 'i4']
    SO = ['haar', 'db2', 'db3', 'sym4', 'coif1', 'db5', 'sym3']
    for w in ORTHO + ['dmey']:
        for r in range(4 if T else 1):
            n = rnd.choice([2, 4, 6, 8, 10, 12, 16, 20, 24])
            L = rnd.randint(1, min(z2(n), 3))
            add('e1-%s-%d-%d' % (w, n, L), 'e1', n=n, wav=w, level=L, both=rnd.random() < .4)
            n = rnd.choice([2, 4, 6, 8, 12, 16])
            add('es-%s-%d' % (w, n), 'es', shape=[n], axes=[0], wav=w, level=min(z2(n), 3), both=rnd.random() < .4)
    for w in SO:
        for n in ([2, 4, 6, 8, 12, 16, 24, 32] if T else [2, 4, 6, 8, 16]):
            add('e1s-%s-%d' % (w, n), 'e1', n=n, wav=w, level=min(z2(n), 4), both=True, dt=rnd.choice(dts), order=rnd.choice(LAYOUTS[:4]))
            add('e1t-%s-%d' % (w, n), 'es', shape=[n], axes=[0], wav=w, level=min(z2(n), 3), both=True, dt=rnd.choice(dts), order=rnd.choice(LAYOUTS[:4]))
    for s in [(4, 6), (8, 3), (2, 4), (4, 2, 2), (2, 3, 4), (2, 2, 1, 4)]:
        nd = len(s)
        ev = [a for a in range(nd) if s[a] % 2 == 0]
        for r in range(16 if T else 6):
            k += 1
            a = rnd.choice(ev)
            add('edwt-%d' % k, 'edwt', shape=list(s), axis=a - nd * rnd.randint(0, 1), wav=rnd.choice(SO), dt=rnd.choice(dts), order=rnd.choice(LAYOUTS), both=rnd.random() < .5)
            add('esx-%d' % k, 'es', shape=list(s), axes=[a - nd * rnd.randint(0, 1)], wav=rnd.choice(SO), level=min(2, z2(s[a])), dt=rnd.choice(dts), order=rnd.choice(LAYOUTS), both=rnd.random() < .5)
            axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(ev, rnd.randint(1, min(len(ev), 3)))]
            if len(ev) == nd and rnd.random() < .3:
                axes = None
            real = list(range(nd)) if axes is None else axes
            L = min(2, min(z2(s[a]) for a in real))
            w = rnd.choice([rnd.choice(SO), [rnd.choice(SO) for _ in real]])
            api = rnd.choice(['wavedecn', 'dwtn', 'fswavedecn'])
            add('en-%d-%s' % (k, api), 'en', shape=list(s), axes=axes, wav=w, level=L, api=api, dt=rnd.choice(dts), order=rnd.choice(LAYOUTS), both=rnd.random() < .5)
            add('esn-%d' % k, 'es', shape=list(s), axes=axes, wav=w, level=L, api='swtn', dt=rnd.choice(dts), order=rnd.choice(LAYOUTS), both=rnd.random() < .5)
            if len(ev) > 1:
                axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(ev, 2)]
                L = min(2, min(z2(s[a]) for a in axes))
                w = rnd.choice([rnd.choice(SO), [rnd.choice(SO), rnd.choice(SO)]])
                api = rnd.choice(['wavedec2', 'dwt2'])
                add('e2-%d-%s' % (k, api), 'en', shape=list(s), axes=axes, wav=w, level=L, api=api, dt=rnd.choice(dts), order=rnd.choice(LAYOUTS), both=rnd.random() < .5)
                add('es2-%d' % k, 'es', shape=list(s), axes=axes, wav=w, level=L, api='swt2', dt=rnd.choice(dts), order=rnd.choice(LAYOUTS), both=rnd.random() < .5)
    for w in SO[:5]:
        for s, L in (((8,), 3), ((12,), 2), ((4, 4), 2), ((2, 6), 1), ((2, 2, 4), 1)):
            add('ep-%s-%s' % (w, 'x'.join(map(str, s))), 'epack', shape=list(s), wav=w, level=L, dt=rnd.choice(['f8', 'c16']))
    for api in ('wavedec2', 'wavedecn', 'fswavedecn'):
        for w in ('haar', 'db2', ['db3', 'haar']):
            add('deep-%s-%s' % (api, w), 'en', shape=[8, 8], axes=[0, 1], wav=w, level=3, api=api, both=w == 'db2')
    for w in ('haar', 'db2'):
        add('deep1-%s' % w, 'e1', n=32, wav=w, level=5, both=True)
        add('deepnd-%s' % w, 'en', shape=[8, 2, 8], axes=[-1, 0], wav=w, level=3, api='wavedecn')
    return out
