"""C16: soft, hard, greater, less, garrote and firm thresholding equal their piecewise formulas for every real or complex element, threshold and
substitute, at and around the threshold and zero, element by element; inputs unchanged."""
from .common import *

BOUNDS = ('elements and substitutes: all reals (real and imaginary part) in [-1024, 1024], integers as reals in the dtype range; thresholds: all reals in [0, 1024] '
          '([-1024, 1024] for hard/greater/less); each of 1-2 elements in every position relative to the threshold (all paths), arrays up to 24 elements with the '
          'elements in prescribed, mixed positions relative to the threshold')
OUTSIDE = 'NaN and infinite elements, negative thresholds for the shrinking rules, the lowest integer of a signed dtype (its magnitude is not representable), rounding in the data path'
MAX_PATHS = 20000


def mag(E, x):
    if hasattr(x, 'im') or isinstance(x, complex):
        return E.sqrt(x.real * x.real + x.imag * x.imag)
    return x if E.branch(x >= 0) else -x


def want(E, mode, x, m, v, s, v2=None):
    """(numerator-free) expected result r as pair (r, k): the requirement is result * k == r with k > 0"""
    if mode in ('soft', 'garrote', 'garotte'):
        if E.branch(m < v):
            return s, 1.0
        if E.branch(m == 0):
            return 0.0, 1.0
        if mode == 'soft':
            return x * (m - v), m
        return x * (m * m - v * v), m * m
    if mode == 'hard':
        return (s, 1.0) if E.branch(m < v) else (x, 1.0)
    if mode == 'greater':
        return (s, 1.0) if E.branch(x < v) else (x, 1.0)
    if mode == 'less':
        return (s, 1.0) if E.branch(x > v) else (x, 1.0)
    if mode == 'firm':
        if E.branch(m <= v):
            return 0.0, 1.0
        if v2 is None:
            return x * (m - v), m
        if E.branch(m > v2):
            return x, 1.0
        return x * v2 * (m - v), m * (v2 - v)


def regime(E, r, x, m, v, v2):
    if r == 'in':
        E.assume(m < v)
        E.assume(m > 0)
    elif r == 'zero':
        E.assume(m == 0)
    elif r == 'eq':
        E.assume(m == v)
    elif r == 'mid':
        E.assume(m > v)
        E.assume(m < v2)
    elif r == 'eq2':
        E.assume(m == v2)
    elif r == 'out':
        E.assume(m > (v if v2 is None else v2))


def rnd_d(E, y, dt):
    return y


def th(E, mode, shape, dt='f8', order='C', regimes=None, sub=None, val=None, val2=None, form='', sign=None):
    """sub/val/val2: None = symbolic, else the number used; val2 = 'inf' for an infinite upper threshold"""
    P = E.pywt
    lh = lohi(dt)
    firm = mode == 'firm'
    real_t = mode in ('hard', 'greater', 'less')
    v = E.scalar('v', -1024 if real_t else 0, 1024) if val is None else val
    x = E.arr('x', tup(shape), dt, order, **lh)
    s = 0
    if not firm:
        s = E.scalar('s') if sub is None else sub
    v2 = None
    if firm:
        if val2 == 'inf':
            v2 = float('inf')
        elif val2 is None:
            v2 = E.scalar('v2', 0, 1024)
            E.assume(v2 >= v)
        else:
            v2 = val2
            E.assume(v2 >= v)
    f = flatten(x)
    ms = []
    for i, e in enumerate(f):
        if sign and mode not in ('greater', 'less') and not hasattr(e, 'im') and not isinstance(e, complex):
            E.assume(e >= 0 if sign[i % len(sign)] == '+' else e <= 0)
        m = e if mode in ('greater', 'less') else mag(E, e)
        ms.append(m)
        if regimes:
            regime(E, regimes[i % len(regimes)], e, m, v, None if v2 is None or val2 == 'inf' else v2)
    sn = E.snap(x)
    X = E.nested(x) if form in ('list', 'scalar') else x
    if firm:
        y = P.threshold_firm(X, v, v2)
    elif form == 'kw':
        y = P.threshold(data=X, value=v, mode=mode, substitute=s)
    elif form == 'dflt':
        y = P.threshold(X, v)
    elif form == 'nosub':
        y = P.threshold(X, v, mode)
    else:
        y = P.threshold(X, v, mode, s)
    E.unchanged([x], sn)
    E.check(tuple(getattr(y, 'shape', ())) == tuple(shape), 'threshold %s: shape %r' % (mode, getattr(y, 'shape', ())))
    if hasattr(y, 'dtype') and dt in ('f4', 'f8', 'c8', 'c16') and form not in ('list', 'scalar'):
        E.dtype(y, dt, 'threshold %s' % mode)
    yf = flatten(y)
    got, exp = [], []
    for e, m, r in zip(f, ms, yf):
        w, k = want(E, mode, e, m, v, s, None if v2 is None or val2 == 'inf' else v2)
        got.append(r * k)
        exp.append(w)
    if got:
        # multiplied through by the (positive) denominators of the formula
        E.eq(E.np.array(got) if not hasattr(got[0], 't') and not hasattr(got[0], 're') else objl(got), objl(exp), 1e-9 if dt not in F4 else 1e-5, 'threshold %s' % mode, deg=3 if mode in ('garrote', 'garotte', 'firm') else 2 if mode == 'soft' else 1)


def objl(v):
    import numpy as np
    a = np.empty(len(v), object)
    for i, x in enumerate(v):
        a[i] = x
    return a


def flatten(a):
    import numpy as np
    p = np.asarray(a)
    if p.dtype == object or hasattr(a, '_vd'):
        q = np.ndarray.view(p, np.ndarray) if hasattr(a, '_vd') else p
        return [q[i] for i in np.ndindex(*q.shape)]
    return [p[i].item() for i in np.ndindex(*p.shape)]


def bad(E, mode, dt='f8'):
    P = E.pywt
    x = E.arr('x', (2,), dt)
    v = E.scalar('v', 0, 1024)
    if mode == 'cgreater':
        E.raises(lambda: P.threshold(x, v, 'greater'), ValueError, 'complex greater')
        E.raises(lambda: P.threshold(x, v, 'less'), ValueError, 'complex less')
    elif mode == 'mode':
        for m in ('Soft', 'firm', '', 'hardd', 'garot'):
            E.raises(lambda: P.threshold(x, v, m), ValueError, 'unknown mode %r' % m)
    elif mode == 'neglow':
        E.assume(v > 0)
        E.raises(lambda: P.threshold_firm(x, -v, v), ValueError, 'negative value_low')
    elif mode == 'order':
        w = E.scalar('w', 0, 1024)
        E.assume(v > w)
        E.raises(lambda: P.threshold_firm(x, v, w), ValueError, 'value_high < value_low')


def cases(tier, seed):
    rnd = random.Random(seed)
    T = tier == 'thorough'
    out = []
    k = [0]

    def add(nm, **cfg):
        k[0] += 1
        out.append(('%s-%d' % (nm, k[0]), 'th', cfg))
    MO = ['soft', 'hard', 'greater', 'less', 'garrote', 'garotte', 'firm']
    for mode in MO:
        cplx = mode not in ('greater', 'less')
        for dt in ['f8', 'f4', 'i4', 'u1', 'i1', 'f2'] + (['c16', 'c8'] if cplx else []):
            # one element, everything symbolic
            add('one-%s-%s' % (mode, dt), mode=mode, shape=[1], dt=dt)
            for val in [0, 0.0, 2, 2.5] + ([300, 70000] if dt[0] in 'iu' and mode not in ('greater', 'less', 'hard') else []):
                add('val-%s-%s' % (mode, dt), mode=mode, shape=[1], dt=dt, val=val, val2=(rnd.choice([None, 4.0]) if val < 5 else 100000) if mode == 'firm' else None)
            for sub in [0, 0.0, 1.5, -3, 7] + ([300, -70000] if dt[0] in 'iu' else []):
                if mode != 'firm':
                    add('sub-%s-%s' % (mode, dt), mode=mode, shape=[1], dt=dt, sub=sub, form=rnd.choice(['', 'kw']))
        for sh in ([], [0], [1, 1], [2, 0]):
            add('shp-%s' % mode, mode=mode, shape=sh)
        add('list-%s' % mode, mode=mode, shape=[1], form='list')
        add('list-%s' % mode, mode=mode, shape=[1, 1], form='list')
        add('scal-%s' % mode, mode=mode, shape=[], form='scalar')
        if mode == 'firm':
            for dt in ['f8', 'c16', 'f4', 'i4']:
                add('inf-%s' % dt, mode=mode, shape=[1], dt=dt, val2='inf')
                for a, b in [(0, 0), (2, 2), (0, 3), (1.5, 4), (0.0, 'inf'), (3, 3.0)]:
                    add('firm-%s' % dt, mode=mode, shape=[1], dt=dt, val=a, val2=b)
        else:
            add('nosub-%s' % mode, mode=mode, shape=[1], form='nosub', sub=0)
        # arrays with mixed positions
        R = ['in', 'zero', 'eq', 'out', 'out', 'in', 'eq'] + (['mid', 'mid', 'eq2'] if mode == 'firm' else [])
        for sh in [[2], [3], [5], [2, 3], [2, 2, 2], [3, 4], [7]] + ([[4, 6], [2, 3, 2, 2]] if T else [[2, 2, 3]]):
            n = 1
            for q in sh:
                n *= q
            for r in range(4 if T else 2):
                dt = rnd.choice(['f8', 'f8', 'f4', 'i4'] + (['c16'] if cplx and n <= 4 else []))
                rg = [rnd.choice(R) for _ in range(n)] if cplx else [rnd.choice(['in', 'eq', 'out']) for _ in range(n)]
                if not cplx:
                    rg = ['eq' if q == 'eq' else 'out' if q == 'out' else 'lt' for q in rg]
                add('arr-%s' % mode, mode=mode, shape=sh, dt=dt, order=rnd.choice(LAYOUTS[:5]), regimes=rg, sign=rnd.choice(['+-', '+--', '-', '+', '-++-']),
                    sub=rnd.choice([0, 0, 1.25, -2]), val=rnd.choice([None, 2, 1.5] if n <= 4 or mode != 'firm' else [2, 1.5]), val2=6.0 if mode == 'firm' else None)
        add('two-%s' % mode, mode=mode, shape=[2], sub=rnd.choice([0, 1.5]), val2=7.5 if mode == 'firm' else None, order='strided')
    add('dflt', mode='soft', shape=[1], form='dflt', sub=0)
    for m, dt in [('cgreater', 'c16'), ('cgreater', 'c8'), ('mode', 'f8'), ('mode', 'c8'), ('neglow', 'f8'), ('order', 'f8'), ('order', 'c16'), ('neglow', 'f4')]:
        out.append(('bad-%s-%s' % (m, dt), 'bad', dict(mode=m, dt=dt)))
    return out
