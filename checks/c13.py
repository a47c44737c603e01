"""C13: fswavedecn is the 1-D multilevel transform along each axis in turn, fswaverecn inverts it, and per-axis level indices read and
replace exactly the block they name."""
from .common import *
from itertools import product

BOUNDS = ('arrays with 1..4 axes of length <= 12 (1-D up to 24), 1..4 transformed axes in any order and sign, levels 0..3 per axis (or default), wavelet and mode per axis '
          '(2..16 taps, nine modes), five dtypes, all layouts; replaced blocks hold independent symbolic values')
OUTSIDE = 'larger arrays, floating-point rounding in the data path, level 0 on every axis with integer data'


def lv(n, F):
    L = 0
    while (F - 1) * 2 ** (L + 1) <= n:
        L += 1
    return L


def blocks(a, axis, b, mode, level):
    """1-D multilevel transform along an axis: list coarsest first"""
    out = []
    for _ in range(level):
        out.append(along(a, axis, lambda r: convdec(r, b[1], mode)))
        a = along(a, axis, lambda r: convdec(r, b[0], mode))
    out.append(a)
    return out[::-1]


def spec(E, x, axes, ws, ms, ls):
    import numpy as np
    a = objarr(E, x)
    sls = []
    for ax, w, m, l in zip(axes, ws, ms, ls):
        bs = blocks(a, ax, filters(E.pywt.Wavelet(w))[:2], m, l)
        off = [0]
        for b in bs:
            off.append(off[-1] + b.shape[ax])
        sls.append([slice(p, q) for p, q in zip(off, off[1:])])
        a = np.concatenate(bs, axis=ax)
    return a, sls


def inverse(E, a, sls, axes, ws, ms):
    """independent inverse of the packed array"""
    import numpy as np
    for ax, w, m, s in zip(axes, ws, ms, sls):
        g = filters(E.pywt.Wavelet(w))[2:]
        ix = [slice(None)] * a.ndim
        parts = []
        for q in s:
            ix[ax] = q
            parts.append(a[tuple(ix)])
        cur = parts[0]
        for d in parts[1:]:
            n = d.shape[ax]
            ix = [slice(None)] * a.ndim
            ix[ax] = slice(0, n)
            cur = cur[tuple(ix)]
            lo = along(cur, ax, lambda r: convrec(r, g[0], m))
            hi = along(d, ax, lambda r: convrec(r, g[1], m))
            cur = lo + hi
        a = cur
    return a


def call(E, x, axes, wav, mode, levels, form):
    w, m = tup(wav), tup(mode)
    ax = None if axes is None else tup(axes)
    if form == 'obj':
        nn = x.ndim if axes is None else len(axes)
        w = tuple(E.pywt.Wavelet(q) for q in peraxis(wav, nn))
        m = tuple(getattr(E.pywt.Modes, q) for q in peraxis(mode, nn))
    return E.pywt.fswavedecn(x, w, m, levels=tup(levels), axes=ax)


def prep(E, shape, axes, wav, mode, levels):
    nd = len(shape)
    real = list(range(nd)) if axes is None else [a % nd for a in axes]
    ws, ms = peraxis(wav, len(real)), peraxis(mode, len(real))
    ls = [levels] * len(real) if levels is None or isinstance(levels, int) else list(levels)
    ls = [lv(shape[a], flen(w)) if l is None else l for a, w, l in zip(real, ws, ls)]
    return real, ws, ms, ls


def rt(E, shape, axes, wav, mode, levels, dt='f8', order='C', form=''):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    s = E.snap(x)
    r = call(E, x, axes, wav, mode, levels, form)
    E.unchanged([x], s)
    real, ws, ms, ls = prep(E, shape, axes, wav, mode, levels)
    ex, sls = spec(E, x, real, ws, ms, ls)
    tol = tol_of('haar', dt, 2 ** sum(ls))
    if sum(ls):
        E.dtype(r.coeffs, outdt(dt), 'fswavedecn')
    E.eq(r.coeffs, ex, tol, 'separable coefficients')
    E.same([int(v) for v in r.levels], ls, 'levels')
    E.same(list(r.wavelet_names), ws, 'wavelet names')
    E.same(list(r.modes), ms, 'modes')
    E.same((r.ndim, r.ndim_transform), (len(shape), len(real)), 'dimensions')
    E.same([[(int(q.start), int(q.stop)) for q in t] for t in r.coeff_slices], [[(q.start, q.stop) for q in t] for t in sls], 'slices')
    keys = sorted(k for k in product(*[range(l + 1) for l in ls]) if any(k))
    E.same(r.detail_keys(), keys, 'detail_keys')
    for k in keys + [tuple([0] * len(ls))]:
        ix = [slice(None)] * len(shape)
        for a, l, t in zip(real, k, sls):
            ix[a] = t[l]
        E.eq(r[k], ex[tuple(ix)], tol, 'block %r' % (k,))
    E.eq(r.approx, ex[tuple(slice(0, sls[real.index(a)][0].stop) if a in real else slice(None) for a in range(len(shape)))], tol, 'approx')
    sc = E.snap(r.coeffs)
    y = E.pywt.fswaverecn(r)
    E.unchanged([r.coeffs], sc, 'coefficients unchanged')
    if odd_ok(E, y.shape, shape, real, 'fswaverecn'):
        E.eq(crop(E, y, shape), x, tol_of(ws, dt, 2 ** sum(ls)), 'fswaverecn(fswavedecn(x))')


def repl(E, shape, axes, wav, mode, levels, key, how='item', dt='f8'):
    """replacing a block changes exactly that block, and the inverse uses it"""
    import numpy as np
    x = E.arr('x', tup(shape), dt)
    r = call(E, x, axes, wav, mode, levels, '')
    real, ws, ms, ls = prep(E, shape, axes, wav, mode, levels)
    ex, sls = spec(E, x, real, ws, ms, ls)
    tol = tol_of('haar', dt, 2 ** sum(ls))
    if key == 'all':
        v = E.arr('v', tuple(ex.shape), dt)
        r.coeffs = v
        ex = objarr(E, v)
    else:
        key = tup(key)
        ix = [slice(None)] * len(shape)
        for a, l, t in zip(real, key, sls):
            ix[a] = t[l]
        v = E.arr('v', tuple(ex[tuple(ix)].shape), dt)
        if how == 'approx':
            r.approx = v
        else:
            r[key] = v
        ex = ex.copy()
        ex[tuple(ix)] = objarr(E, v)
    E.eq(r.coeffs, ex, tol, 'coefficients after replacement')
    y = E.pywt.fswaverecn(r)
    E.eq(y, inverse(E, ex, sls, real, ws, ms), tol_of('haar', dt, 4 ** sum(ls)), 'inverse of replaced coefficients')


def rej(E):
    P = E.pywt
    x = E.arr('x', (6, 8))
    r = P.fswavedecn(x, 'haar', levels=(1, 2))
    for bad, what in (((0,), 'too few'), ((0, 0, 0), 'too many'), ((-1, 0), 'negative'), ((0, 3), 'too large'), ((2, 0), 'too large'), ((0.5, 0), 'fractional'), (('a', 0), 'string')):
        E.raises(lambda: r[bad], (ValueError, TypeError), what)
    v = E.arr('v', (2, 2))
    E.raises(lambda: r.__setitem__((0, 0), E.np.zeros((5, 5))), ValueError, 'wrong shape')
    E.raises(lambda: setattr(r, 'approx', E.np.zeros((5, 5))), ValueError, 'wrong shape')
    E.raises(lambda: setattr(r, 'coeffs', E.np.zeros((5, 5))), ValueError, 'wrong shape')
    for sh in ((8, 6), (48,), (6, 8, 1), (4, 12), (1, 8), (6, 1), (1,), ()):
        E.raises(lambda: setattr(r, 'coeffs', E.np.zeros(sh)), ValueError, 'wrong shape')
    for sh in ((4,), (2, 3), (1, 2), (2, 1), (1,), (), (4, 1), (1, 4), (1, 2, 2)):
        if tuple(r[(0, 0)].shape) != sh:
            E.raises(lambda: setattr(r, 'approx', E.np.zeros(sh)), ValueError, 'wrong shape')
            E.raises(lambda: r.__setitem__((0, 0), E.np.zeros(sh)), ValueError, 'wrong shape')
    E.raises(lambda: P.fswavedecn(x, 'haar', levels=(1, 2, 1)), ValueError, 'number of levels')
    E.raises(lambda: P.fswavedecn(x, 'haar', levels=(1, -1)), ValueError, 'negative level')
    E.raises(lambda: P.fswavedecn(x, 'haar', axes=(0, 0)), ValueError, 'repeated axes')
    E.raises(lambda: P.fswavedecn(x, 'haar', axes=(0, -2)), ValueError, 'repeated axes')
    E.raises(lambda: P.fswavedecn(x, 'haar', axes=(0, 2)), ValueError, 'axis out of range')
    E.raises(lambda: P.fswavedecn(x, 'haar', axes=(0, -3)), ValueError, 'axis out of range')
    E.raises(lambda: P.fswavedecn(x, ('haar', 'db2', 'db2')), ValueError, 'number of wavelets')
    E.raises(lambda: P.fswavedecn(x, 'haar', ('zero', 'zero', 'zero')), ValueError, 'number of modes')


def cases(tier, seed):
    rnd = random.Random(seed + 13)
    T = tier == 'thorough'
    out, seen = [], set()

    def add(nm, fn, **k):
        if nm not in seen:
            seen.add(nm)
            out.append((nm, fn, k))

    def ok(shape, axes, ws, ms, ls):
        for a, w, m, l in zip(axes, ws, ms, ls):
            n = shape[a]
            for _ in range(l):
                if n == 1 and 'refl' in m:
                    return False
                n = dwt_len(n, flen(w), m)
        return True
    W = ['haar', 'db2', 'bior2.2', 'rbio1.3', 'sym3', 'coif1', 'db4', 'sym8']
    k = 0
    for s in [(7,), (16,), (24,), (5, 6), (8, 3), (12, 2), (1, 9), (4, 5, 3), (6, 1, 4), (2, 3, 2, 3)]:
        nd = len(s)
        for r in range(50 if T else 18):
            axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), rnd.randint(1, min(3, nd)))]
            if r % 5 == 0 and nd < 4:
                axes = None
            nn = nd if axes is None else len(axes)
            wav = rnd.choice([rnd.choice(W), [rnd.choice(W) for _ in range(nn)]])
            mode = rnd.choice([rnd.choice(MODES), [rnd.choice(MODES) for _ in range(nn)]])
            lev = rnd.choice([None, rnd.randint(0, 2), [rnd.randint(0, 3 if nd < 3 else 2) for _ in range(nn)], [rnd.randint(0, 2) for _ in range(nn)]])
            real = list(range(nd)) if axes is None else [a % nd for a in axes]
            ws, ms = peraxis(wav, nn), peraxis(mode, nn)
            ls = [lev] * nn if lev is None or isinstance(lev, int) else lev
            ls = [lv(s[a], flen(w)) if l is None else l for a, w, l in zip(real, ws, ls)]
            if not ok(s, real, ws, ms, ls) or (nd > 2 and sum(ls) > 4):
                continue
            k += 1
            dt = rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8', 'i4'])
            if sum(ls) == 0 and dt == 'i4':
                dt = 'f8'
            add('rt-%d-%s' % (k, 'x'.join(map(str, s))), 'rt', shape=list(s), axes=axes, wav=wav, mode=mode, levels=lev, dt=dt, order=rnd.choice(LAYOUTS), form=rnd.choice(['', '', 'obj']))
            if sum(ls):
                key = [rnd.randint(0, l) for l in ls]
                how = 'item'
                if r % 6 == 1:
                    key, how = [0] * nn, 'approx'
                if r % 7 == 2:
                    key = 'all'
                add('rp-%d-%s' % (k, 'x'.join(map(str, s))), 'repl', shape=list(s), axes=axes, wav=wav, mode=mode, levels=lev, key=key, how=how, dt=rnd.choice(['f8', 'c16', 'f4']))
    add('rej', 'rej')
    return out
