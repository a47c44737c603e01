"""C12: transforms along chosen axes act on every line independently, in every layout, with negative axes like positive; n-D transforms are
the successive 1-D transforms with keys in axis order; 2-D interfaces are the n-D transform with documented detail positions."""
from .common import *
from .c08 import flat, z2
from itertools import product

BOUNDS = ('arrays with 1..4 axes of length <= 9, every single axis and ordered axis pair/triple (both signs), nine modes, wavelets of 2..16 taps and arbitrary (symbolic) '
          'banks of length <= 6 per axis, all memory layouts, five dtypes; |x| <= 1024 exact reals')
OUTSIDE = 'larger arrays, floating-point rounding in the data path'


def lines(E, x, axis):
    """all 1-D lines of an array along an axis -> [(index without axis, 1-D array)]"""
    y = E.np.moveaxis(x, axis, -1)
    for ix in product(*[range(n) for n in y.shape[:-1]]):
        yield ix, y[ix]


def pick(E, c, axis, ix):
    return E.np.moveaxis(c, axis, -1)[ix]


def line1(E, shape, axis, wav, mode, api, level=1, dt='f8', order='C'):
    """api along an axis, against the same api on each line"""
    P = E.pywt
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    f = {'dwt': lambda v, a: list(P.dwt(v, wav, mode, axis=a)),
         'wavedec': lambda v, a: list(P.wavedec(v, wav, mode, level=level, axis=a)),
         'swt': lambda v, a: flat(P.swt(v, wav, level=level, axis=a)),
         'dwtn': lambda v, a: flat([P.dwtn(v, wav, mode, axes=(a,))]),
         'wavedecn': lambda v, a: flat(P.wavedecn(v, wav, mode, level=level, axes=(a,))),
         'swtn': lambda v, a: flat(P.swtn(v, wav, level, axes=(a,))),
         'fsw': lambda v, a: [P.fswavedecn(v, wav, mode, levels=level, axes=(a,)).coeffs],
         'mra': lambda v, a: list(P.mra(v, wav, level=level, axis=a, transform='dwt', mode=mode)),
         'mras': lambda v, a: list(P.mra(v, wav, level=level, axis=a, transform='swt')),
         'rt': lambda v, a: [P.waverec(P.wavedec(v, wav, mode, level=level, axis=a), wav, mode, axis=a)],
         'irt': lambda v, a: [P.iswt(P.swt(v, wav, level=level, axis=a), wav, axis=a)]}[api]
    full = f(x, axis)
    tol = tol_of('haar', dt, 4 ** level)
    for ix, v in lines(E, x, axis):
        one = f(v, -1)
        E.same(len(one), len(full), 'number of results')
        for i, (p, q) in enumerate(zip(full, one)):
            E.eq(pick(E, p, axis, ix), q, tol, '%s on line %r, result %d' % (api, ix, i))


def iline(E, shape, axis, wav, mode, api, missing='', dt='f8', order='C', order2=None):
    P = E.pywt
    a = E.arr('a', tup(shape), dt, order)
    d = E.arr('d', tup(shape), dt, order2 or order)
    if missing == 'a':
        A, D = None, d
    elif missing == 'd':
        A, D = a, None
    else:
        A, D = a, d

    def f(p, q, ax):
        if api == 'idwt':
            return P.idwt(p, q, wav, mode, axis=ax)
        if api == 'idwtn':
            return P.idwtn({'a': p, 'd': q}, wav, mode, axes=(ax,))
        if api == 'idwtnm':
            return P.idwtn({k: v for k, v in (('a', p), ('d', q)) if v is not None}, wav, mode, axes=(ax,))
        if api == 'waverec':
            return P.waverec([p, q], wav, mode, axis=ax)
        if api == 'iswt':
            return P.iswt([(p, q)], wav, axis=ax)
        return P.iswtn([p, {'d': q}], wav, axes=(ax,))
    y = f(A, D, axis)
    s = A if A is not None else D
    tol = tol_of('haar', dt)
    for ix, _ in lines(E, s, axis):
        one = f(None if A is None else pick(E, A, axis, ix), None if D is None else pick(E, D, axis, ix), -1)
        E.eq(pick(E, y, axis, ix), one, tol, '%s on line %r' % (api, ix))


def succ(E, shape, axes, wav, mode, dt='f8', order='C', symF=0):
    """dwtn against successive 1-D dwt calls, keys in axis order; idwtn against successive idwt"""
    P = E.pywt
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    nd = len(shape)
    real = list(range(nd)) if axes is None else axes
    deg = 1
    if symF:
        ws = [symbank(E, F, 'f%d_' % i)[0] for i, F in enumerate(symF)]
        w = tuple(ws)
        deg = 1 + len(ws)
    else:
        ws, w = peraxis(wav, len(real)), tup(wav)
    ms = peraxis(mode, len(real))
    c = P.dwtn(x, w, tup(mode), axes=None if axes is None else tup(axes))
    d = {'': x}
    for a, q, m in zip(real, ws, ms):
        n = {}
        for k, v in d.items():
            n[k + 'a'], n[k + 'd'] = P.dwt(v, q, m, axis=a)
        d = n
    tol = tol_of('haar', dt, 4)
    E.same(sorted(c), sorted(d), 'keys')
    for k in sorted(d):
        E.eq(c[k], d[k], tol, 'subband ' + k, deg=deg)
    if symF:
        return
    y = P.idwtn(c, w, tup(mode), axes=None if axes is None else tup(axes))
    for a, q, m in reversed(list(zip(real, ws, ms))):
        d = {k: P.idwt(d[k + 'a'], d[k + 'd'], q, m, axis=a) for k in {k[:-1] for k in d}}
    E.eq(y, d[''], tol, 'idwtn')


def two(E, shape, axes, wav, mode, level, dt='f8', order='C', dflt=False):
    """2-D interfaces are the n-D ones"""
    P = E.pywt
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    w, m = tup(wav), tup(mode)
    kw = {} if dflt else {'axes': tup(axes)}
    ax = tup(axes)
    tol = tol_of('haar', dt, 4 ** level)
    a, (h, v, d) = P.dwt2(x, w, m, **kw)
    n = P.dwtn(x, w, m, axes=ax)
    for nm, p, k in (('cA', a, 'aa'), ('cH', h, 'da'), ('cV', v, 'ad'), ('cD', d, 'dd')):
        E.eq(p, n[k], tol, 'dwt2 ' + nm)
    E.eq(P.idwt2((a, (h, v, d)), w, m, **kw), P.idwtn(n, w, m, axes=ax), tol, 'idwt2')
    for drop in range(4):
        q = [a, h, v, d]
        q[drop] = None
        k = ['aa', 'da', 'ad', 'dd'][drop]
        E.eq(P.idwt2((q[0], tuple(q[1:])), w, m, **kw), P.idwtn({z: n[z] for z in n if z != k}, w, m, axes=ax), tol, 'idwt2 without ' + k)
    c = P.wavedec2(x, w, m, level=level, **kw)
    e = P.wavedecn(x, w, m, level=level, axes=ax)
    E.eq(c[0], e[0], tol, 'wavedec2 approximation')
    for p, q in zip(c[1:], e[1:]):
        for g, k in zip(p, ('da', 'ad', 'dd')):
            E.eq(g, q[k], tol, 'wavedec2 detail ' + k)
    E.eq(P.waverec2(c, w, m, **kw), P.waverecn(e, w, m, axes=ax), tol, 'waverec2')


def twos(E, shape, axes, wav, level, trim, norm, dt='f8', order='C'):
    P = E.pywt
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    w, ax = tup(wav), tup(axes)
    tol = tol_of('haar', dt, 4 ** level)
    c = P.swt2(x, w, level, axes=ax, trim_approx=trim, norm=norm)
    e = P.swtn(x, w, level, axes=ax, trim_approx=trim, norm=norm)
    y, z = P.iswt2(c, w, axes=ax, norm=norm), P.iswtn(e, w, axes=ax, norm=norm)
    E.eq(y, z, tol, 'iswt2 and iswtn')
    if trim:
        E.eq(c[0], e[0], tol, 'approximation')
        c, e = c[1:], e[1:]
    for p, q in zip(c, e):
        if not trim:
            E.eq(p[0], q['aa'], tol, 'swt2 approximation')
            p = p[1]
        for g, k in zip(p, ('da', 'ad', 'dd')):
            E.eq(g, q[k], tol, 'swt2 detail ' + k)


def neg(E, shape, axes, api, wav='db2', mode='symmetric', level=1):
    """negative axes equal their positive counterparts"""
    P = E.pywt
    shape = tup(shape)
    nd = len(shape)
    x = E.arr('x', shape)
    na = [a - nd for a in axes]
    f = {'dwt': lambda ax: list(P.dwt(x, wav, mode, axis=ax[0])),
         'idwt': lambda ax: [P.idwt(x, x * 2.0, wav, mode, axis=ax[0])],
         'wavedec': lambda ax: P.wavedec(x, wav, mode, level=level, axis=ax[0]),
         'waverec': lambda ax: [P.waverec([x, x * 2.0], wav, mode, axis=ax[0])],
         'swt': lambda ax: flat(P.swt(x, wav, level=level, axis=ax[0])),
         'iswt': lambda ax: [P.iswt([(x, x * 2.0)], wav, axis=ax[0])],
         'mra': lambda ax: list(P.mra(x, wav, level=level, axis=ax[0], transform='dwt')),
         'dwtn': lambda ax: flat([P.dwtn(x, wav, mode, axes=ax)]),
         'wavedecn': lambda ax: flat(P.wavedecn(x, wav, mode, level=level, axes=ax)),
         'fsw': lambda ax: [P.fswavedecn(x, wav, mode, levels=level, axes=ax).coeffs],
         'swtn': lambda ax: flat(P.swtn(x, wav, level, axes=ax)),
         'mran': lambda ax: flat(P.mran(x, wav, level=level, axes=ax, transform='dwtn')),
         'idwtn': lambda ax: [P.idwtn({'a' * len(ax): x, 'd' * len(ax): x * 2.0}, wav, mode, axes=ax)],
         'waverecn': lambda ax: [P.waverecn([x, {'a' * (len(ax) - 1) + 'd': x, 'd' * len(ax): x * 2.0}], wav, mode, axes=ax)],
         'iswtn': lambda ax: [P.iswtn([{k: x for k in (''.join(p) for p in product('ad', repeat=len(ax)))}], wav, axes=ax)],
         'pack': lambda ax: [q.data for q in P.WaveletPacketND(x, wav, mode, maxlevel=1, axes=ax).get_level(1)],
         'dwt2': lambda ax: flat(P.dwt2(x, wav, mode, axes=ax)),
         'wavedec2': lambda ax: flat(P.wavedec2(x, wav, mode, level=level, axes=ax)),
         'swt2': lambda ax: flat(P.swt2(x, wav, level, axes=ax)),
         'mra2': lambda ax: flat(P.mra2(x, wav, level=level, axes=ax, transform='dwt2')),
         }[api]
    p, q = f(tuple(axes)), f(tuple(na))
    E.same(len(p), len(q), 'number of results')
    for a, b in zip(p, q):
        E.eq(a, b, 1e-9 * 4 ** level, api + ' with negative axes')


def cases(tier, seed):
    rnd = random.Random(seed + 12)
    T = tier == 'thorough'
    out, seen = [], set()

    def add(nm, fn, **k):
        if nm not in seen:
            seen.add(nm)
            out.append((nm, fn, k))
    W = SHORT + ['sym8']
    M = [m for m in MODES]
    k = 0
    for s in [(3, 5), (4, 4), (2, 6, 3), (5, 1, 4), (4, 2, 2, 3)]:
        nd = len(s)
        for ax in range(-nd, nd):
            for api in ['dwt', 'wavedec', 'swt', 'dwtn', 'wavedecn', 'swtn', 'fsw', 'mra', 'mras', 'rt', 'irt'] * (3 if T else 1):
                st = api in ('swt', 'swtn', 'mras', 'irt')
                if st and s[ax] % 2:
                    continue
                m = rnd.choice(M)
                if s[ax] == 1 and 'refl' in m:
                    m = 'smooth'
                w = rnd.choice(W)
                k += 1
                L = 1 if st or s[ax] < 3 else rnd.randint(1, 2)
                add('l-%d-%s-%s-%d' % (k, api, 'x'.join(map(str, s)), ax), 'line1', shape=list(s), axis=ax, wav=w, mode=m, api=api, level=L,
                    dt=rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8']), order=rnd.choice(LAYOUTS))
            for api in ['idwt', 'idwtn', 'idwtnm', 'waverec', 'iswt', 'iswtn'] * (3 if T else 1):
                if api.startswith('iswt') and s[ax] % 2:
                    continue
                w = rnd.choice(['haar', 'db2', 'bior3.1'] if s[ax] < 3 else W[:6])
                m = 'periodization' if 2 * s[ax] - flen(w) + 2 < 1 else rnd.choice(M)
                k += 1
                add('il-%d-%s-%s-%d' % (k, api, 'x'.join(map(str, s)), ax), 'iline', shape=list(s), axis=ax, wav=w, mode=m, api=api,
                    missing=rnd.choice(['', '', 'a', 'd']) if 'idwt' in api else '', dt=rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8']), order=rnd.choice(LAYOUTS))
                # the two arrays in different layouts
                o1 = rnd.choice(LAYOUTS)
                for oo in [(o1, rnd.choice([o for o in LAYOUTS if o != o1]))] + ([('C', 'F'), ('F', 'C')] if nd == 2 else []):
                    add('il2-%d-%s-%s-%d-%s' % (k, api, 'x'.join(map(str, s)), ax, '-'.join(oo)), 'iline', shape=list(s), axis=ax, wav=w, mode=m, api=api,
                        dt=rnd.choice(['f8', 'f4', 'c16', 'c8']), order=oo[0], order2=oo[1])
    for s in [(6,), (3, 5), (4, 7), (2, 3, 4), (3, 2, 2, 3)]:
        nd = len(s)
        for r in range(40 if T else 14):
            axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), rnd.randint(1, min(nd, 3)))]
            if r == 0:
                axes = None
            nn = nd if axes is None else len(axes)
            w = rnd.choice([rnd.choice(W), [rnd.choice(W) for _ in range(nn)]])
            m = rnd.choice([rnd.choice(M), [rnd.choice(M) for _ in range(nn)]])
            k += 1
            add('n-%d-%s' % (k, 'x'.join(map(str, s))), 'succ', shape=list(s), axes=axes, wav=w, mode=m, dt=rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8', 'i4']), order=rnd.choice(LAYOUTS))
    for s, axes, F in [((2, 3), [0, 1], [2, 4]), ((3, 2), [-1, 0], [3, 2]), ((4,), [0], [6]), ((2, 2), None, [4, 4]), ((3, 2), [-1], [5])]:
        for m in (MODES if T else rnd.sample(MODES, 4)):
            add('sym-%s-%s-%s' % ('x'.join(map(str, s)), m, axes), 'succ', shape=list(s), axes=axes, wav='', mode=m, symF=F)
    for s in [(4, 4), (5, 6), (3, 4, 6), (2, 3, 4)]:
        nd = len(s)
        for r in range(24 if T else 8):
            axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), 2)]
            w = rnd.choice([rnd.choice(W[:6]), [rnd.choice(W[:6]) for _ in axes]])
            m = rnd.choice([rnd.choice(M), [rnd.choice(M) for _ in axes]])
            k += 1
            kw = dict(dt=rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8', 'u1']), order=rnd.choice(LAYOUTS))
            add('t-%d-%s' % (k, 'x'.join(map(str, s))), 'two', shape=list(s), axes=axes if r else [-2, -1], dflt=r == 0, wav=w, mode=m, level=1 if min(s) < 3 else 2, **kw)
            ev = [a for a in range(nd) if s[a] % 2 == 0]
            if len(ev) > 1:
                axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(ev, 2)]
                add('ts-%d-%s' % (k, 'x'.join(map(str, s))), 'twos', shape=list(s), axes=axes, wav=w, level=min(2, min(z2(s[a]) for a in axes)), trim=rnd.random() < .5, norm=rnd.random() < .5, **kw)
    for api in ['dwt', 'idwt', 'wavedec', 'waverec', 'swt', 'iswt', 'mra', 'dwtn', 'wavedecn', 'fsw', 'swtn', 'mran', 'idwtn', 'waverecn', 'iswtn', 'pack', 'dwt2', 'wavedec2', 'swt2', 'mra2']:
        for s in [(4, 6), (4, 2, 6)]:
            nd = len(s)
            one = api in ('dwt', 'idwt', 'wavedec', 'waverec', 'swt', 'iswt', 'mra')
            na = 1 if one else 2
            for axes in ([[a] for a in range(nd)] if one else [list(p) for p in product(range(nd), repeat=2) if p[0] != p[1]] + ([] if api.endswith('2') else [[nd - 1]])):
                if api == 'wavedec2' and False:
                    continue
                add('neg-%s-%d-%s' % (api, nd, axes), 'neg', shape=list(s), axes=axes, api=api, wav='haar' if api in ('idwt', 'waverec', 'idwtn', 'waverecn') else 'db2', mode='symmetric')
    return out
