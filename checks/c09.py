"""C09: iswt/iswt2/iswtn of swt/swt2/swtn is the identity on the data; coefficient containers are unchanged."""
from .common import *
from .c08 import flat, z2

BOUNDS = ('1-D: all 106 built-in wavelets, N = 2^L*odd up to 48, levels <= 4; n-D: up to 4 axes of length <= 8, any axes, per-axis wavelets, levels <= 2; '
          'with and without norm and trim_approx; six dtypes and layouts; mixed coefficient precisions; |x| <= 1024 exact reals')
OUTSIDE = 'longer signals, floating-point rounding in the data path, coefficients obtained with start_level > 0 (no inverse is documented)'


def containers(c):
    r = [c]
    for q in c:
        if isinstance(q, (tuple, list, dict)):
            r.append(q)
            for v in (q.values() if isinstance(q, dict) else q):
                if isinstance(v, (tuple, list)):
                    r.append(v)
    return [q for q in r if not isinstance(q, tuple)] + flat(c)


def shape_of(c):
    return [(type(q).__name__, len(q) if isinstance(q, (tuple, list, dict)) else tuple(q.shape)) for q in c]


def back(E, c, inv, x, dt, tol, label):
    cs = containers(c)
    s = E.snap(*cs)
    y = inv(c)
    E.unchanged(cs, s, label + ': coefficients unchanged')
    E.dtype(y, outdt(dt), label)
    E.eq(y, x, tol, label)


def r1(E, n, wav, level, trim=False, norm=False, dt='f8', order='C', how='', tuples=False):
    x = E.arr('x', (n,), dt, order, **lohi(dt))
    w = E.pywt.Wavelet(wav) if how == 'obj' else wav
    c = E.pywt.swt(x, w, level=level, trim_approx=trim, norm=norm)
    if level is None:
        level = z2(n)
    if tuples and not trim:
        c = [[a, d] for a, d in c] if tuples == 'lists' else tuple(c)
    elif tuples:
        c = tuple(c)
    back(E, c, lambda q: E.pywt.iswt(q, w, norm=norm), x, dt, tol_of(wav, dt, 2 ** level), 'iswt(swt(x))')


def rax(E, shape, axis, wav, level, trim=False, norm=False, dt='f8', order='C'):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    c = E.pywt.swt(x, wav, level=level, axis=axis, trim_approx=trim, norm=norm)
    back(E, c, lambda q: E.pywt.iswt(q, wav, norm=norm, axis=axis), x, dt, tol_of(wav, dt, 2 ** level), 'iswt(swt(x)) along an axis')


def r2(E, shape, axes, wav, level, trim=False, norm=False, dt='f8', order='C', dflt=False):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    kw = {} if dflt else {'axes': tup(axes)}
    w = tup(wav)
    c = E.pywt.swt2(x, w, level, trim_approx=trim, norm=norm, **kw)
    back(E, c, lambda q: E.pywt.iswt2(q, w, norm=norm, **kw), x, dt, tol_of(wav, dt, 4 ** level), 'iswt2(swt2(x))')


def rn(E, shape, axes, wav, level, trim=False, norm=False, dt='f8', order='C', objs=False):
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    nd = len(shape)
    ax = None if axes is None else tup(axes)
    w = tup(wav)
    if objs:
        w = tuple(E.pywt.Wavelet(q) for q in peraxis(wav, nd if axes is None else len(axes)))
    c = E.pywt.swtn(x, w, level, 0, ax, trim, norm)
    back(E, c, lambda q: E.pywt.iswtn(q, w, axes=ax, norm=norm), x, dt, tol_of(wav, dt, 2 ** (level * (nd if axes is None else len(axes)))), 'iswtn(swtn(x))')


def mixed(E, n, wav, level, dts, trim, api):
    """details and approximation of different precision: nothing of the wider type is lost"""
    P = E.pywt
    sh = (n,) if api == 'iswt' else ((n, n) if api == 'iswt2' else (n, 2))
    x = E.arr('x', sh, 'c16')
    if api == 'iswt':
        c = P.swt(x, wav, level=level, trim_approx=trim)
        c = [tuple(q) for q in c] if not trim else c
    elif api == 'iswt2':
        c = P.swt2(x, wav, level, trim_approx=trim)
    else:
        c = P.swtn(x, wav, level, axes=(0,), trim_approx=trim)
    cast = {'f8': lambda v: v.real, 'c16': lambda v: v, 'f4': lambda v: v.real.astype('f4'), 'c8': lambda v: v.astype('c8')}
    # approximation in dts[0], details in dts[1]; the spec is the sum of separate reconstructions in double/complex
    da, dd = dts

    def build(fa, fd):
        if trim:
            h = [fa(c[0])]
            t = c[1:]
        else:
            h = []
            t = c
        for q in t:
            if isinstance(q, dict):
                h.append({k: (fa if set(k) == {'a'} else fd)(v) for k, v in q.items()})
            elif api == 'iswt':
                h.append(fd(q) if trim else (fa(q[0]), fd(q[1])))
            elif trim:
                h.append(tuple(fd(v) for v in q))
            else:
                h.append((fa(q[0]), tuple(fd(v) for v in q[1])))
        return h
    inv = {'iswt': lambda q: P.iswt(q, wav), 'iswt2': lambda q: P.iswt2(q, wav), 'iswtn': lambda q: P.iswtn(q, wav, axes=(0,))}[api]
    got = inv(build(cast[da], cast[dd]))
    wide = {'f8': lambda v: v.real + 0j * v, 'f4': lambda v: v.real + 0j * v, 'c16': lambda v: v, 'c8': lambda v: v}
    ref = inv(build(wide[da], wide[dd]))
    cplx = 'c' in da + dd
    E.check(got.dtype.kind == ('c' if cplx else 'f'), 'result kind of mixed coefficients')
    E.eq(got, ref if cplx else ref.real, 4e-5 * 4 ** level if '4' in da + dd or '8' in (da[1:] if da[0] == 'c' else '') + (dd[1:] if dd[0] == 'c' else '') else 1e-9 * 4 ** level, 'mixed precisions')


def cases(tier, seed):
    rnd = random.Random(seed + 9)
    T = tier == 'thorough'
    out, seen = [], set()

    def add(nm, fn, **k):
        if nm not in seen:
            seen.add(nm)
            out.append((nm, fn, k))
    k = 0
    for w in DISCRETE:
        F = flen(w)
        for r in range(5 if T else 2):
            n = rnd.choice([2, 4, 6, 8, 10, 12, 16, 20, 24, 32] if F < 40 else [2, 4, 6, 8, 12])
            L = rnd.randint(1, min(z2(n), 3))
            k += 1
            add('r1-%s-%d' % (w, k), 'r1', n=n, wav=w, level=L, trim=bool(r % 2), norm=rnd.random() < .4)
    for w in SHORT:
        for n in ([2, 4, 6, 8, 12, 16, 24, 48] if T else [2, 4, 6, 8, 16]):
            for L in range(1, min(z2(n), 4) + 1):
                for tr in (False, True):
                    for nm in (False, True):
                        if not T and rnd.random() < .5 and w not in ('haar', 'db2'):
                            continue
                        add('r1x-%s-%d-%d-%d%d' % (w, n, L, tr, nm), 'r1', n=n, wav=w, level=L, trim=tr, norm=nm)
        for n in (2, 6, 8, 12):
            add('r1d-%s-%d' % (w, n), 'r1', n=n, wav=w, level=None, how='obj', trim=n == 8, norm=n == 12)
        add('r1tl-%s' % w, 'r1', n=8, wav=w, level=2, tuples='lists')
        add('r1tt-%s' % w, 'r1', n=8, wav=w, level=2, tuples='tuple')
        add('r1tr-%s' % w, 'r1', n=8, wav=w, level=2, tuples='tuple', trim=True)
    for dt in ALLDT[1:]:
        for w in SHORT[:6]:
            add('r1t-%s-%s' % (dt, w), 'r1', n=rnd.choice([4, 8, 12]), wav=w, level=2, dt=dt, trim=rnd.random() < .5, norm=rnd.random() < .5)
    for s in [(8, 3), (2, 4), (4, 2, 6), (8, 1), (2, 4, 1, 2)]:
        for ax in range(-len(s), len(s)):
            z = z2(s[ax])
            if not z:
                continue
            for r in range(8 if T else 3):
                k += 1
                add('rax-%d-%s-%d' % (k, 'x'.join(map(str, s)), ax), 'rax', shape=list(s), axis=ax, wav=rnd.choice(SHORT), level=rnd.randint(1, z),
                    trim=rnd.random() < .5, norm=rnd.random() < .5, dt=rnd.choice(['f8', 'f4', 'c16', 'c8', 'i4']), order=rnd.choice(LAYOUTS))
    for s in [(4, 8), (4, 4), (2, 6), (8, 3, 4), (4, 2, 2), (2, 2, 2, 4), (8,)]:
        nd = len(s)
        for r in range(30 if T else 10):
            ev = [a for a in range(nd) if s[a] % 2 == 0]
            axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(ev, rnd.randint(1, min(len(ev), 3)))]
            if len(ev) == nd and nd < 4 and rnd.random() < .3:
                axes = None
            real = list(range(nd)) if axes is None else axes
            L = rnd.randint(1, min(min(z2(s[a]) for a in real), 2))
            w = rnd.choice([rnd.choice(SHORT), [rnd.choice(SHORT) for _ in real]])
            k += 1
            kw = dict(shape=list(s), wav=w, level=L, trim=rnd.random() < .5, norm=rnd.random() < .5,
                      dt=rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8', 'u1']), order=rnd.choice(LAYOUTS))
            add('rn-%d-%s-%s' % (k, 'x'.join(map(str, s)), axes), 'rn', axes=axes, objs=rnd.random() < .3, **kw)
            if len(ev) >= 2:
                axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(ev, 2)]
                L = rnd.randint(1, min(min(z2(s[a]) for a in axes), 2))
                kw.update(wav=rnd.choice([rnd.choice(SHORT), [rnd.choice(SHORT) for _ in axes]]), level=L)
                add('r2-%d-%s-%s' % (k, 'x'.join(map(str, s)), axes), 'r2', axes=axes, **kw)
    for s in [(4, 4), (8, 4), (2, 6), (4, 12)]:
        for r in range(8 if T else 4):
            k += 1
            L = rnd.randint(1, min(z2(a) for a in s))
            add('r2d-%d' % k, 'r2', shape=list(s), axes=[-2, -1], wav=rnd.choice([rnd.choice(SHORT), [rnd.choice(SHORT), rnd.choice(SHORT)]]), level=L, dflt=bool(r % 2),
                trim=rnd.random() < .5, norm=rnd.random() < .5, dt=rnd.choice(['f8', 'f8', 'f4', 'c16', 'c8', 'u1']))
    for api, n in (('iswt', 8), ('iswt2', 4), ('iswtn', 4)):
        for da in ('f8', 'c16', 'f4', 'c8'):
            for dd in ('f8', 'c16', 'f4', 'c8'):
                if da == dd:
                    continue
                add('mix-%s-%s-%s' % (api, da, dd), 'mixed', n=n, wav=rnd.choice(['haar', 'db2']), level=2, dts=[da, dd], trim=rnd.random() < .5, api=api)
    return out
