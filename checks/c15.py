"""C15: components of mra/mra2/mran have the shape of the data, sum to the data, component j is the reconstruction of the level-j
coefficients alone; imra/imra2/imran return that sum and leave the components unchanged."""
from .common import *
from .c08 import conv, z2
from itertools import product

BOUNDS = ('1-D lengths <= 24 (all 106 wavelets at one length each), n-D up to 4 axes of length <= 8, any axes, per-axis wavelets and modes, levels <= 3 (1-D) / 2, '
          'both transforms, nine modes for the decimated one, five dtypes, all layouts; |x| <= 1024 exact reals')
OUTSIDE = 'larger arrays, floating-point rounding in the data path, level 0'


def sconvrec(c, g, d):
    """one branch of the inverse stationary transform at dilation d"""
    n, F = len(c), len(g)
    out = []
    for i in range(n):
        s = 0.0
        for t in range(F):
            if g[t] == 0.0:
                continue
            s = s + (0.5 * g[t]) * c[(i + (F // 2 - 1 - t) * d) % n]
        out.append(s)
    return out


def fwd(a, bs, modes, axes, level, swt):
    """list of {key: array}, finest first, and the last approximation"""
    out = []
    A = 'a' * len(axes)
    for j in range(level):
        d = {'': a}
        for b, m, ax in zip(bs, modes, axes):
            d = {k + c: along(v, ax, (lambda r, f=f: conv(r, f, 2 ** j)) if swt else (lambda r, f=f: convdec(r, f, m))) for k, v in d.items() for c, f in (('a', b[0]), ('d', b[1]))}
        a = d.pop(A)
        out.append(d)
    return out, a


def inv1(v, key, bs, modes, axes, j, swt):
    """reconstruct one level from a single sub-band"""
    for b, m, ax, c in zip(bs, modes, axes, key):
        g = b[2] if c == 'a' else b[3]
        v = along(v, ax, (lambda r: sconvrec(r, g, 2 ** j)) if swt else (lambda r: convrec(r, g, m)))
    return v


def component(v, key, j, bs, modes, axes, swt, sizes):
    """component of the sub-band (key, level j); sizes[j] = shape of the approximations at level j"""
    A = 'a' * len(axes)
    v = inv1(v, key, bs, modes, axes, j, swt)
    v = v[tuple(slice(0, n) for n in sizes[j])]
    for i in reversed(range(j)):
        v = inv1(v, A, bs, modes, axes, i, swt)
        v = v[tuple(slice(0, n) for n in sizes[i])]
    return v


def m(E, api, shape, axes, wav, mode, level, swt, dt='f8', order='C', form='', spec=True):
    P = E.pywt
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    s = E.snap(x)
    nd = len(shape)
    real = list(range(nd)) if axes is None else [a % nd for a in axes]
    w, md = tup(wav), tup(mode)
    ws, ms = peraxis(wav, len(real)), peraxis(mode, len(real))
    if form == 'obj':
        w = P.Wavelet(ws[0]) if api == 'mra' else tuple(P.Wavelet(q) for q in ws)
    kw = dict(transform={'mra': 'swt', 'mra2': 'swt2', 'mran': 'swtn'}[api] if swt else {'mra': 'dwt', 'mra2': 'dwt2', 'mran': 'dwtn'}[api])
    if not swt:
        kw['mode'] = md
    if level is not None:
        kw['level'] = level
    X = E.nested(x) if form == 'list' else x
    if api == 'mra':
        c = P.mra(X, w, axis=axes[0], **kw)
        flat = [('', q) for q in c]
        inv = P.imra
    elif api == 'mra2':
        c = P.mra2(X, w, axes=tup(axes), **kw)
        inv = P.imra2
    else:
        c = P.mran(X, w, axes=None if axes is None else tup(axes), **kw)
        inv = P.imran
    E.unchanged([x], s)
    if level is None:
        level = min(z2(shape[a]) if swt else _lv(shape[a], flen(q)) for a, q in zip(real, ws))
    E.same(len(c), level + 1, 'number of components')
    comp = []          # (level index from coarse, key, array)
    keys = [''.join(p) for p in product('ad', repeat=len(real))][1:]
    for i, q in enumerate(c):
        if i == 0:
            comp.append((level - 1, 'a' * len(real), q))
        elif api == 'mra':
            comp.append((level - i, 'd', q))
        elif api == 'mra2':
            E.check(isinstance(q, tuple) and len(q) == 3, '3-tuple of details')
            comp += [(level - i, k, v) for k, v in zip(('da', 'ad', 'dd'), q)]
        else:
            E.same(sorted(q), keys, 'detail keys')
            comp += [(level - i, k, q[k]) for k in keys]
    tot = None
    for j, k, v in comp:
        E.same(tuple(v.shape), tuple(shape), 'shape of component %d %s' % (j + 1, k))
        E.dtype(v, outdt(dt), 'component')
        tot = v if tot is None else tot + v
    tol = tol_of(ws, dt, 4 ** level)
    E.eq(tot, x, tol, 'sum of the components')
    if spec:
        bs = [filters(P.Wavelet(q)) for q in ws]
        det, a = fwd(objarr(E, x), bs, ms, real, level, swt)
        sizes = [tuple(shape)]
        for d in det:
            sizes.append(next(iter(d.values())).shape)
        for j, k, v in comp:
            src = a if set(k) == {'a'} else det[j][k]
            E.eq(v, component(src, k, j, bs, ms, real, swt, sizes), tol_of('haar', dt, 4 ** level * 4), 'component %d %s' % (j + 1, k))
    conts = [c] + [q for q in c if isinstance(q, dict)] + [v for _, _, v in comp]
    s = E.snap(*conts)
    y = inv(c)
    E.unchanged(conts, s, 'components unchanged')
    E.eq(y, x, tol, 'inverse')
    y2 = inv(c)
    E.eq(y2, x, tol, 'inverse a second time')


def arb(E, api, shape, n):
    """imra* of arbitrary components is their sum and leaves them unchanged"""
    P = E.pywt
    A = [E.arr('c%d' % i, tup(shape)) for i in range(1 + (n if api == 'mra' else 3 * n))]
    if api == 'mra':
        c = list(A)
    elif api == 'mra2':
        c = [A[0]] + [tuple(A[1 + 3 * i:4 + 3 * i]) for i in range(n)]
    else:
        c = [A[0]] + [dict(zip(('ad', 'da', 'dd'), A[1 + 3 * i:4 + 3 * i])) for i in range(n)]
    conts = [c] + [q for q in c if isinstance(q, dict)] + A
    s = E.snap(*conts)
    y = {'mra': P.imra, 'mra2': P.imra2, 'mran': P.imran}[api](c)
    E.unchanged(conts, s, 'components unchanged')
    t = A[0]
    for v in A[1:]:
        t = t + v
    E.eq(y, t, 1e-9, 'sum')


def _lv(n, F):
    L = 0
    while (F - 1) * 2 ** (L + 1) <= n:
        L += 1
    return L


def ok(n, F, mode, level):
    for _ in range(level):
        if n == 1 and 'refl' in mode:
            return False
        n = dwt_len(n, F, mode)
    return True


def rej(E):
    P = E.pywt
    x = E.arr('x', (8,))
    X = E.arr('X', (4, 4))
    E.raises(lambda: P.mra(x, 'haar', transform='foo'), ValueError, 'transform')
    E.raises(lambda: P.mra2(X, 'haar', transform='swt'), ValueError, 'transform')
    E.raises(lambda: P.mran(X, 'haar', transform='dwt2'), ValueError, 'transform')
    E.raises(lambda: P.mra(x, 'haar', transform='swt', mode='zero'), ValueError, 'mode with swt')
    E.raises(lambda: P.mra2(X, 'haar', mode='zero'), ValueError, 'mode with swt2')
    E.raises(lambda: P.mran(X, 'haar', mode='zero'), ValueError, 'mode with swtn')
    E.raises(lambda: P.mra(x, 'haar', axis=1), ValueError, 'axis')
    E.raises(lambda: P.mra(x[:7], 'haar', level=1), ValueError, 'odd size')


def cases(tier, seed):
    rnd = random.Random(seed + 15)
    T = tier == 'thorough'
    out, seen = [], set()

    def add(nm, fn, **k):
        if nm not in seen:
            seen.add(nm)
            out.append((nm, fn, k))
    DT = ['f8', 'f8', 'f8', 'f4', 'c16', 'c8', 'i4']
    W = SHORT + ['sym5']
    for w in DISCRETE:
        F = flen(w)
        for r in range(3 if T else 1):
            n = rnd.choice([4, 6, 8, 12, 16, 24])
            add('s-%s-%d' % (w, r), 'm', api='mra', shape=[n], axes=[-1], wav=w, mode='periodization', level=rnd.randint(1, min(2, z2(n))), swt=True, spec=F < 25 or T)
            n, md = rnd.randint(2, 16), rnd.choice(MODES)
            add('d-%s-%d' % (w, r), 'm', api='mra', shape=[n], axes=[-1], wav=w, mode=md, level=rnd.randint(1, 2), swt=False, spec=F < 25 or T)
    k = 0
    for w in ['haar', 'db2', 'bior2.2']:
        for md in MODES:
            for n in ([2, 5, 9, 13, 16, 24] if T else [5, 9, 16]):
                L = rnd.randint(1, 3)
                if ok(n, flen(w), md, L):
                    add('ds-%s-%s-%d' % (w, md, n), 'm', api='mra', shape=[n], axes=[0], wav=w, mode=md, level=L, swt=False, dt=rnd.choice(DT), order=rnd.choice(LAYOUTS[:4]))
        for n in (8, 12, 16, 9):
            add('dd-%s-%d' % (w, n), 'm', api='mra', shape=[n], axes=[0], wav=w, mode='symmetric', level=None, swt=False, form='obj') if _lv(n, flen(w)) else None
            if n != 9:
                add('sd-%s-%d' % (w, n), 'm', api='mra', shape=[n], axes=[0], wav=w, mode='periodization', level=None, swt=True, form='obj')
        add('list-%s' % w, 'm', api='mra', shape=[8], axes=[-1], wav=w, mode='symmetric', level=1, swt=False, form='list')
        add('lists-%s' % w, 'm', api='mra', shape=[8], axes=[-1], wav=w, mode='periodization', level=1, swt=True, form='list')
    for s in [(8,), (4, 8), (4, 4), (6, 2), (3, 5), (4, 3, 2), (2, 4, 2), (2, 2, 2, 3)]:
        nd = len(s)
        for r in range(48 if T else 16):
            api = rnd.choice(['mra', 'mran'] + (['mra2'] * 2 if nd > 1 else []))
            swt = rnd.random() < .5
            pool = [a for a in range(nd) if s[a] % 2 == 0] if swt else list(range(nd))
            na = {'mra': 1, 'mra2': 2}.get(api, rnd.randint(1, max(1, min(3, len(pool)))))
            if len(pool) < na:
                continue
            axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(pool, na)]
            if api == 'mran' and len(pool) == nd and nd < 4 and rnd.random() < .4:
                axes, na = None, nd
            real = list(range(nd)) if axes is None else axes
            w = rnd.choice(W) if api == 'mra' else rnd.choice([rnd.choice(W), [rnd.choice(W) for _ in real]])
            md = 'periodization' if swt else rnd.choice(MODES) if api == 'mra' else rnd.choice([rnd.choice(MODES), [rnd.choice(MODES) for _ in real]])
            L = rnd.randint(1, min([2] + [z2(s[a]) for a in real])) if swt else rnd.randint(1, 2)
            if not swt and not all(ok(s[a], flen(q), mm, L) for a, q, mm in zip(real, peraxis(w, na), peraxis(md, na))):
                continue
            if not swt and na == 3:
                L = 1
            k += 1
            form = rnd.choice(['', '', '', 'obj', 'list'])
            dt = rnd.choice(DT)
            add('n-%d-%s-%s' % (k, api, 'x'.join(map(str, s))), 'm', api=api, shape=list(s), axes=axes, wav=w, mode=md, level=L, swt=swt, dt='f8' if form == 'list' else dt, order=rnd.choice(LAYOUTS), form=form)
    for api, s in (('mra', [5]), ('mra', [2, 3]), ('mra2', [3, 2]), ('mran', [2, 3]), ('mra2', [2, 3, 2])):
        for n in (1, 2, 3):
            add('arb-%s-%s-%d' % (api, 'x'.join(map(str, s)), n), 'arb', api=api, shape=s, n=n)
    for s, w in (((8, 8), 'haar'), ((8, 3, 8), 'haar'), ((12, 9), 'db2')):
        nd = len(s)
        for api in ('mra2', 'mran'):
            add('dn-%s-%s' % (api, 'x'.join(map(str, s))), 'm', api=api, shape=list(s), axes=[0, nd - 1], wav=w, mode='symmetric', level=None, swt=False)
            if s[-1] % 2 == 0:
                add('dsn-%s-%s' % (api, 'x'.join(map(str, s))), 'm', api=api, shape=[4 if v == 8 else v for v in s], axes=[0, nd - 1], wav=w, mode='periodization', level=None, swt=True)
    # default level over unequal sizes, and several levels
    for s, w in (((2, 8), 'haar'), ((8, 2), 'db2'), ((4, 3, 2), 'haar'), ((8, 4), 'db2'), ((8, 4), ['haar', 'db2']), ((4, 8), ['db2', 'haar']), ((4, 16), 'haar')):
        nd = len(s)
        for api in ('mra2', 'mran'):
            for swt in (True, False):
                if swt and s == (4, 16) and not T:
                    continue
                if swt or min(_lv(s[a], flen(q)) for a, q in zip((0, nd - 1), peraxis(w, 2))):
                    add('du-%s-%s-%s-%s' % (api, 'x'.join(map(str, s)), swt, w), 'm', api=api, shape=list(s), axes=[0, nd - 1], wav=w, mode='periodization' if swt else 'symmetric', level=None, swt=swt,
                        spec=not swt or max(s) < 16)
    for md in MODES:
        w = rnd.choice(['db2', 'bior2.2', 'sym3'])
        add('deep-%s' % md, 'm', api='mra', shape=[rnd.randint(17, 24)], axes=[0], wav=w, mode=md, level=4, swt=False, dt=rnd.choice(DT))
        add('deep2-%s' % md, 'm', api='mra2', shape=[rnd.randint(3, 6), rnd.randint(3, 6)], axes=[0, 1], wav='db2', mode=md, level=3, swt=False, dt=rnd.choice(DT))
    add('deeps', 'm', api='mra', shape=[16], axes=[0], wav='db2', mode='periodization', level=4, swt=True)
    add('deeps2', 'm', api='mra2', shape=[8, 8], axes=[0, 1], wav='haar', mode='periodization', level=3, swt=True)
    add('rej', 'rej')
    return out
