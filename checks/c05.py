"""C05: predicted coefficient lengths, inverse lengths and maximum levels equal their closed formulas for every 64-bit size
(bit-vector queries through the public functions, Cython and C), and the shapes of actual transforms equal the predicted ones."""
from .common import *

BOUNDS = ('lengths and filter lengths are 64-bit bit-vectors over their whole range (no-overflow assumption as in the statement); all nine modes by name and number; '
          'wavedecn_shapes with symbolic sizes up to 2^40 and levels <= 3; actual transforms on concrete shapes with axes <= 40')
OUTSIDE = 'sizes whose intermediate n+f-1 (or 2n+f) exceeds 2^64; float filter lengths'
M64 = 2 ** 64 - 1


def clen(E, mode, how='int', wav=None):
    n = E.integer('n', 1, M64)
    m = mode_arg(E, mode)
    if wav:
        f = flen(wav)
        r = E.pywt.dwt_coeff_len(n, E.pywt.Wavelet(wav) if how == 'obj' else f, m)
    else:
        f = E.integer('f', 1, M64)
        E.assume(n + f - 1 <= M64)
        r = E.pywt.dwt_coeff_len(n, f, m)
    if wav:
        E.assume(n + (f - 1) <= M64)
    if mode.split(':')[-1] == 'periodization':
        E.vcheck(r == (n + 1) // 2, 'dwt_coeff_len == ceil(n/2)')
    else:
        E.vcheck(r == (n + f - 1) // 2, 'dwt_coeff_len == floor((n+f-1)/2)')


def czero(E):
    n = E.integer('n', 0, M64)
    for m in MODES:
        E.raises(lambda: E.pywt.dwt_coeff_len(0, n, m), ValueError, 'zero data length')
        E.raises(lambda: E.pywt.dwt_coeff_len(n, 0, m), ValueError, 'zero filter length')
        E.raises(lambda: E.pywt.dwt_coeff_len(-1, 4, m), OverflowError, 'negative data length')
    E.raises(lambda: E.pywt.swt_max_level(0), ValueError, 'swt_max_level(0)')
    k = E.integer('k', -8, 1)
    E.raises(lambda: E.pywt.dwt_max_level(n, k), ValueError, 'filter length below 2')


def cinv(E, mode):
    """inverse lengths computed by the library for the C kernels (used for every buffer allocation)"""
    n = E.integer('n', 1, 2 ** 62)
    f = E.integer('f', 1, 2 ** 62)
    mi = MODENUM(E, mode)
    r = E.cfun('idwt_buffer_length', n, f, mi)
    if mode == 'periodization':
        E.vcheck(r == 2 * n, 'idwt_buffer_length')
    else:
        E.assume(2 * n - f + 2 >= 0)
        E.vcheck(r == 2 * n - f + 2, 'idwt_buffer_length')
    E.vcheck(E.cfun('reconstruction_buffer_length', n, f) == 2 * n + f - 2, 'reconstruction_buffer_length')
    E.vcheck(E.cfun('swt_buffer_length', n) == n, 'swt_buffer_length')
    c = E.cfun('dwt_buffer_length', n, f, mi)
    # a forward/backward round trip never loses samples and adds at most one
    if mode == 'periodization':
        b = E.cfun('idwt_buffer_length', c, f, mi)
    else:
        fe = 2 * ((f + 1) // 2)
        b = E.cfun('idwt_buffer_length', E.cfun('dwt_buffer_length', n, fe, mi), fe, mi)
    E.vcheck(b - n >= 0, 'inverse length covers the signal')
    E.vcheck(b - n <= 1, 'inverse length adds at most one sample')


def MODENUM(E, m):
    return int(getattr(E.pywt.Modes, m))


def maxlev(E, wav=None, how='int', api='dwt_max_level'):
    n = E.integer('n', 0, M64)
    if wav:
        f = flen(wav)
        L = E.pywt.dwt_max_level(n, {'int': f, 'name': wav, 'obj': E.pywt.Wavelet(wav) if how == 'obj' else 0}[how])
    else:
        f = E.integer('f', 2, M64)
        L = E.pywt.dwt_max_level(n, f)
    if E.branch(n < f - 1):
        E.vcheck(L == 0, 'level 0 when the data are shorter than f-1')
    else:
        E.vcheck(n - ((f - 1) << L) >= 0, '(f-1)*2^L <= n')
        E.vcheck(((f - 1) << (L + 1)) - n >= 1, 'n < (f-1)*2^(L+1)')


def swtlev(E, lo=1, hi=M64):
    n = E.integer('n', lo, hi)
    L = E.pywt.swt_max_level(n)
    q = n >> L
    E.vcheck((q << L) == n, '2^L divides n')
    E.vcheck(q % 2 == 1, '2^(L+1) does not divide n')
    E.vcheck(L >= 0, 'level is not negative')


def shapes_sym(E, nd, axes, wav, mode, level):
    ns = [E.integer('n%d' % i, 1, 2 ** 40) for i in range(nd)]
    ax = None if axes is None else tup(axes)
    s = E.pywt.wavedecn_shapes(tuple(ns), tup(wav), mode=tup(mode), level=level, axes=ax)
    real = list(range(nd)) if axes is None else [a % nd for a in axes]
    ws, ms = peraxis(wav, len(real)), peraxis(mode, len(real))
    keys = ['']
    for _ in real:
        keys = [k + c for k in keys for c in 'ad']
    cur = list(ns)
    ex = []
    for _ in range(level):
        for a, w, m in zip(real, ws, ms):
            cur[a] = (cur[a] + 1) // 2 if m == 'periodization' else (cur[a] + flen(w) - 1) // 2
        ex.append(list(cur))
    E.same(len(s), level + 1, 'entries of wavedecn_shapes')
    E.check(isinstance(s[0], tuple) and len(s[0]) == nd, 'approximation shape')
    for i in range(nd):
        E.vcheck(s[0][i] == cur[i], 'approximation shape')
    for j in range(level):
        d = s[j + 1]
        E.same(sorted(d), sorted(k for k in keys if 'd' in k), 'detail keys')
        for k in d:
            for i in range(nd):
                E.vcheck(d[k][i] == ex[level - 1 - j][i], 'detail shape %d %s' % (j + 1, k))


def lev_sym(E, nd, axes, wav, equal=False):
    """dwtn_max_level is the smallest per-axis maximum"""
    ns = [E.integer('n', 0, 2 ** 20)] * nd if equal else [E.integer('n%d' % i, 0, 2 ** 20) for i in range(nd)]
    L = E.pywt.dwtn_max_level(tuple(ns), tup(wav), axes=None if axes is None else tup(axes))
    real = list(range(nd)) if axes is None else [a % nd for a in axes]
    fs = [flen(w) for w in peraxis(wav, len(real))]
    L = L + 0
    some = None
    for a, f in zip(real, fs):
        # L must not exceed the axis maximum
        if not E.branch(ns[a] < f - 1):
            E.vcheck(((f - 1) << L) <= ns[a], 'dwtn_max_level is reachable on axis %d' % a)
        else:
            E.vcheck(L == 0, 'dwtn_max_level with a short axis')
        b = (((f - 1) << (L + 1)) > ns[a])
        some = b if some is None else (some | b)
    E.vcheck(some, 'dwtn_max_level is maximal')


def actual(E, shape, axes, wav, mode, level, dt='f8'):
    """actual coefficient shapes against wavedecn_shapes, wavedecn_size and the closed formula"""
    x = E.arr('x', tup(shape), dt)
    w, m, ax = tup(wav), tup(mode), None if axes is None else tup(axes)
    c = E.pywt.wavedecn(x, w, m, level=level, axes=ax)
    s = E.pywt.wavedecn_shapes(tup(shape), w, mode=m, level=level, axes=ax)
    real = list(range(len(shape))) if axes is None else [a % len(shape) for a in axes]
    ws, ms = peraxis(wav, len(real)), peraxis(mode, len(real))
    if level is None:
        L = min(lv(shape[a], flen(q)) for a, q in zip(real, ws))
        E.same(int(E.pywt.dwtn_max_level(tup(shape), w, axes=ax)), L, 'dwtn_max_level')
    else:
        L = level
    E.same(len(c), L + 1, 'entries of wavedecn')
    E.same(len(s), L + 1, 'entries of wavedecn_shapes')
    E.same(tuple(s[0]), tuple(c[0].shape), 'approximation shape')
    tot = 1
    for q in c[0].shape:
        tot *= q
    cur = list(shape)
    ex = []
    for _ in range(L):
        for a, q, mm in zip(real, ws, ms):
            cur[a] = dwt_len(cur[a], flen(q), mm)
        ex.append(tuple(cur))
    E.same(tuple(c[0].shape), ex[-1] if L else tuple(shape), 'approximation shape formula')
    for j in range(1, L + 1):
        E.same({k: tuple(v) for k, v in s[j].items()}, {k: tuple(v.shape) for k, v in c[j].items()}, 'detail shapes %d' % j)
        for k, v in c[j].items():
            E.same(tuple(v.shape), ex[L - j], 'detail shape formula')
            p = 1
            for q in v.shape:
                p *= q
            tot += p
    E.same(int(E.pywt.wavedecn_size(s)), tot, 'wavedecn_size of shapes')
    E.same(int(E.pywt.wavedecn_size(c)), tot, 'wavedecn_size of coefficients')
    E.eq(c[0].reshape(-1)[:1] * 0.0, [0.0], 1e-9, 'result defined')


def actual1(E, n, wav, mode):
    """single-level and inverse shapes of every 1-D interface"""
    x = E.arr('x', (n,))
    F = flen(wav)
    P = E.pywt
    k = int(P.dwt_coeff_len(n, F, mode))
    E.same(k, dwt_len(n, F, mode), 'dwt_coeff_len')
    a, d = P.dwt(x, wav, mode)
    E.same((a.shape, d.shape), ((k,), (k,)), 'dwt shapes')
    E.same(P.downcoef('a', x, wav, mode).shape, (k,), 'downcoef shape')
    E.same(P.idwt(a, d, wav, mode).shape, (2 * k if mode == 'periodization' else 2 * k - F + 2,), 'idwt shape')
    E.same(P.upcoef('a', a, wav).shape, (2 * k + F - 2,), 'upcoef shape')
    L = lv(n, F)
    E.same(int(P.dwt_max_level(n, wav)), L, 'dwt_max_level')
    c = P.wavedec(x, wav, mode)
    E.same(len(c), L + 1, 'default number of levels of wavedec')
    cur, ex = n, []
    for _ in range(L):
        cur = dwt_len(cur, F, mode)
        ex.append((cur,))
    E.same([tuple(q.shape) for q in c], ([ex[-1]] if L else [(n,)]) + ex[::-1], 'wavedec shapes')
    z = 0
    while n % 2 ** (z + 1) == 0:
        z += 1
    E.same(int(P.swt_max_level(n)), z, 'swt_max_level')
    if z:
        c = P.swt(x, wav)
        E.same(len(c), z, 'default number of levels of swt')
        E.check(all(p.shape == (n,) and q.shape == (n,) for p, q in c), 'swt shapes')
    E.eq(a * 0.0, [0.0] * k, 1e-9, 'result defined')


def fsw(E, shape, axes, wav, mode, levels):
    x = E.arr('x', tup(shape))
    ax = None if axes is None else tup(axes)
    r = E.pywt.fswavedecn(x, tup(wav), tup(mode), levels=tup(levels), axes=ax)
    real = list(range(len(shape))) if axes is None else [a % len(shape) for a in axes]
    ws, ms = peraxis(wav, len(real)), peraxis(mode, len(real))
    ls = [levels] * len(real) if levels is None or isinstance(levels, int) else levels
    sz = list(shape)
    for a, w, m, l in zip(real, ws, ms, ls):
        n, t = shape[a], 0
        for _ in range(lv(n, flen(w)) if l is None else l):
            n = dwt_len(n, flen(w), m)
            t += n
        sz[a] = t + n
    E.same(tuple(r.coeffs.shape), tuple(sz), 'fswavedecn shape')
    E.eq(r.coeffs.reshape(-1)[:1] * 0.0, [0.0], 1e-9, 'result defined')


def lv(n, F):
    L = 0
    while (F - 1) * 2 ** (L + 1) <= n:
        L += 1
    return L


def bad(ns, m):
    return 1 in ns and any('reflect' in q for q in ([m] if isinstance(m, str) else m))


def okseq(shape, real, ws, ms, L):
    for a, w, m in zip(real, ws, ms):
        n = shape[a]
        for _ in range(L):
            if n == 1 and 'reflect' in m:
                return False
            n = dwt_len(n, flen(w), m)
    return True


def cases(tier, seed):
    rnd = random.Random(seed)
    out, seen = [], set()
    T = tier == 'thorough'

    def add(nm, fn, **k):
        if nm not in seen:
            seen.add(nm)
            out.append((nm, fn, k))
    add('mx-sym', 'maxlev')
    for m in MODES:
        add('clen-%s' % m, 'clen', mode=m)
        add('clenI-%s' % m, 'clen', mode='int:' + m)
        add('clenO-%s' % m, 'clen', mode=m, wav=rnd.choice(DISCRETE), how='obj')
        add('cinv-%s' % m, 'cinv', mode=m)
    add('czero', 'czero')
    for w in (DISCRETE if T else rnd.sample(DISCRETE, 12) + ['haar', 'dmey', 'coif17', 'db38']):
        for how in ('int', 'name', 'obj'):
            add('mx-%s-%s' % (w, how), 'maxlev', wav=w, how=how)
    add('swt-64', 'swtlev')
    for nd, axes in [(1, None), (2, None), (2, [0]), (2, [1]), (2, [-1, 0]), (3, [2, 0]), (3, [-2])]:
        for r in range(4 if T else 2):
            na = nd if axes is None else len(axes)
            w = rnd.choice([rnd.choice(SHORT), [rnd.choice(DISCRETE) for _ in range(na)]])
            m = rnd.choice([rnd.choice(MODES), [rnd.choice(MODES) for _ in range(na)]])
            add('ss-%d-%s-%d' % (nd, axes, r), 'shapes_sym', nd=nd, axes=axes, wav=w, mode=m, level=rnd.randint(1, 3))
            add('ls-%d-%s-%d' % (nd, axes, r), 'lev_sym', nd=nd, axes=axes, wav=w)
            if na > 1:
                add('le-%d-%s-%d' % (nd, axes, r), 'lev_sym', nd=nd, axes=axes, wav=rnd.choice([['haar', 'db8'], ['db10', 'db2'], ['sym5', 'coif4']]) + ['db4'] * (na - 2), equal=True)
    for w in ['haar', 'db2', 'sym4', 'bior2.4']:
        for m in MODES:
            for n in (range(2, 41, 1) if T else [2, 3, 4, 7, 8, 12, rnd.randint(13, 40)]):
                L = lv(n, flen(w))
                if okseq([n], [0], [w], [m], max(L, 1)):
                    add('a1-%s-%s-%d' % (w, m, n), 'actual1', n=n, wav=w, mode=m)
    k = 0
    for s in [(9,), (7, 5), (12, 3), (16, 9), (3, 5, 4), (2, 3, 2, 3)]:
        nd = len(s)
        for r in range(30 if T else 12):
            axes = None if r == 0 else [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), rnd.randint(1, min(3, nd)))]
            real = list(range(nd)) if axes is None else axes
            w = rnd.choice([rnd.choice(SHORT[:6]), [rnd.choice(SHORT) for _ in real]])
            m = rnd.choice([rnd.choice(MODES), [rnd.choice(MODES) for _ in real]])
            L = rnd.choice([None, 1, 2]) if nd < 3 or len(real) < 3 else 1
            ws, ms = peraxis(w, len(real)), peraxis(m, len(real))
            if not okseq(s, real, ws, ms, L if L is not None else min(lv(s[a], flen(q)) for a, q in zip(real, ws))):
                continue
            k += 1
            add('an-%d-%s-%s' % (k, 'x'.join(map(str, s)), axes), 'actual', shape=list(s), axes=axes, wav=w, mode=m, level=L)
            ls = rnd.choice([None, 1, 2, [rnd.choice([1, 2, 3]) for _ in real]])
            lx = [lv(s[a], flen(q)) for a, q in zip(real, ws)] if ls is None else [ls] * len(real) if isinstance(ls, int) else ls
            if all(okseq(s, [a], [q], [mm], l) for a, q, mm, l in zip(real, ws, ms, lx)):
                add('fs-%d-%s-%s' % (k, 'x'.join(map(str, s)), axes), 'fsw', shape=list(s), axes=axes, wav=w, mode=m, levels=ls)
    return out
