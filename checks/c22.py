"""C22: invalid arguments are rejected, whatever the value of the axis, level, mode or size; valid ones are accepted identically in every form."""
import itertools
import re
from .common import *

BOUNDS = ('axes and pairs of axes: symbolic integers from 3 below the lowest to 3 above the highest valid one, arrays of 1-3 axes, every entry point that takes axes; levels: symbolic, '
          'from -3 to 5 (all 64-bit values for the stationary transforms and the size functions); sizes 0-9 for parity, emptiness and mismatches; all integer modes from -4 to 13; data symbolic')
OUTSIDE = ('scalars and non-numeric data; level-0 decompositions, which do nothing with empty data, unknown modes or mismatched detail sizes; level <= 0 of swt2 and swtn (not documented as an error: '
           'no coefficients); repeated axes of dwtn and idwtn (documented to transform repeatedly); axes beyond the stated range; the axis of cwt for 1-D data (ignored; an existing test relies on it); axes of ravel_coeffs (not used there); the wording of messages')
MAX_PATHS = 2000
TRACES = dict(quick=80, thorough=200)
BAD = (ValueError, TypeError, IndexError, AttributeError, OverflowError, RuntimeError, KeyError)
SHAPES = {1: (4,), 2: (4, 4), 3: (2, 4, 2)}


def leaves(E, r):
    """values of a result in a fixed order"""
    if r is None or isinstance(r, (int, float, str, slice)):
        return []
    if isinstance(r, dict):
        return [v for k in sorted(r) for v in leaves(E, r[k])]
    if isinstance(r, (list, tuple)):
        return [v for x in r for v in leaves(E, x)]
    if hasattr(r, 'coeffs') and hasattr(r, 'coeff_slices'):
        return E.list(r.coeffs)
    return E.list(r)


def spots(r):
    """integers of a result of sizes"""
    if isinstance(r, dict):
        return [v for k in sorted(r) for v in spots(r[k])]
    if isinstance(r, (list, tuple)):
        return [v for x in r for v in spots(x)]
    return [r]


class Data:
    def __init__(self, E, nd, shape=None, w='haar'):
        self.E, self.nd, self.w, self.p = E, nd, w, E.pywt
        self.sh = tuple(shape or SHAPES[nd])
        self.k = 0

    def a(self):
        self.k += 1
        return self.E.arr('x%d' % self.k, self.sh, 'f8')


def one(D):
    """entry points with a single axis -> function of the axis"""
    x, y, p, w = D.a(), D.a(), D.p, D.w
    f = dict(
        dwt=lambda a: p.dwt(x, w, axis=a), idwt=lambda a: p.idwt(x, y, w, axis=a), idwt_a=lambda a: p.idwt(x, None, w, axis=a), idwt_d=lambda a: p.idwt(None, y, w, axis=a),
        wavedec=lambda a: p.wavedec(x, w, level=1, axis=a), wavedec_default=lambda a: p.wavedec(x, w, axis=a), waverec=lambda a: p.waverec([x, y], w, axis=a),
        swt=lambda a: p.swt(x, w, 1, axis=a), swt_default=lambda a: p.swt(x, w, axis=a), swt_trim=lambda a: p.swt(x, w, 1, axis=a, trim_approx=True, norm=True),
        iswt=lambda a: p.iswt([(x, y)], w, axis=a), iswt_trim=lambda a: p.iswt([x, y], w, axis=a),
        mra=lambda a: p.mra(x, w, level=1, axis=a), mra_dwt=lambda a: p.mra(x, w, level=1, axis=a, transform='dwt'),
        cwt=lambda a: p.cwt(x, [1], 'gaus1', axis=a)[0],
        packet=lambda a: p.WaveletPacket(x, w, maxlevel=1, axis=a)['d'].data,
        dwtn1=lambda a: p.dwtn(x, w, axes=(a,)), idwtn1=lambda a: p.idwtn({'a': x, 'd': y}, w, axes=(a,)), wavedecn1=lambda a: p.wavedecn(x, w, level=1, axes=(a,)),
        wavedecn_int=lambda a: p.wavedecn(x, w, level=1, axes=a), waverecn_int=lambda a: p.waverecn([x, {'d': y}], w, axes=a),
        waverecn1=lambda a: p.waverecn([x, {'d': y}], w, axes=(a,)), fswavedecn1=lambda a: p.fswavedecn(x, w, levels=1, axes=(a,)), swtn1=lambda a: p.swtn(x, w, 1, axes=(a,)),
        iswtn1=lambda a: p.iswtn([{'a': x, 'd': y}], w, axes=(a,)), mran1=lambda a: p.mran(x, w, level=1, axes=(a,)), mran1_dwt=lambda a: p.mran(x, w, level=1, axes=(a,), transform='dwtn'),
        packetnd1=lambda a: p.WaveletPacketND(x, w, maxlevel=1, axes=(a,))['d'].data,
        pack1=lambda a: p.coeffs_to_array([x, {'d': y}], axes=(int(a),))[0])
    return f


def pair(D):
    x, y, z, v, p, w = D.a(), D.a(), D.a(), D.a(), D.p, D.w
    d = dict(ad=y, da=z, dd=v)
    f = dict(
        dwt2=lambda a: p.dwt2(x, w, axes=a), idwt2=lambda a: p.idwt2((x, (y, z, v)), w, axes=a), dwtn=lambda a: p.dwtn(x, w, axes=a), idwtn=lambda a: p.idwtn(dict(d, aa=x), w, axes=a),
        wavedec2=lambda a: p.wavedec2(x, w, level=1, axes=a), wavedec2_default=lambda a: p.wavedec2(x, w, axes=a), waverec2=lambda a: p.waverec2([x, (y, z, v)], w, axes=a),
        wavedecn=lambda a: p.wavedecn(x, w, level=1, axes=a), wavedecn_default=lambda a: p.wavedecn(x, w, axes=a), waverecn=lambda a: p.waverecn([x, dict(d)], w, axes=a),
        fswavedecn=lambda a: p.fswavedecn(x, w, levels=1, axes=a), fswavedecn_default=lambda a: p.fswavedecn(x, w, axes=a),
        swt2=lambda a: p.swt2(x, w, 1, axes=a), iswt2=lambda a: p.iswt2([(x, (y, z, v))], w, axes=a), iswt2_trim=lambda a: p.iswt2([x, (y, z, v)], w, axes=a),
        swtn=lambda a: p.swtn(x, w, 1, axes=a), iswtn=lambda a: p.iswtn([dict(d, aa=x)], w, axes=a), iswtn_trim=lambda a: p.iswtn([x, dict(d)], w, axes=a),
        mra2=lambda a: p.mra2(x, w, level=1, axes=a), mra2_dwt=lambda a: p.mra2(x, w, level=1, axes=a, transform='dwt2'),
        mran=lambda a: p.mran(x, w, level=1, axes=a), mran_dwt=lambda a: p.mran(x, w, level=1, axes=a, transform='dwtn'),
        packet2=lambda a: p.WaveletPacket2D(x, w, maxlevel=1, axes=a)['d'].data, packetnd=lambda a: p.WaveletPacketND(x, w, maxlevel=1, axes=a)['dd'].data,
        pack=lambda a: p.coeffs_to_array([x, dict(d)], axes=tuple(int(i) for i in a))[0])
    return f


REPEAT = ('dwt2', 'idwt2', 'dwtn', 'idwtn')


def call(E, f, valid, *args, what=''):
    """result of a valid call; an invalid one must raise"""
    if valid:
        return f(*args)
    try:
        f(*args)
    except BAD:
        E.ok('rejected ' + what)
        return None
    E.fail('raises', 'invalid %s accepted' % what)
    return None


def axis1(E, fn, nd):
    D = Data(E, nd)
    f = one(D)[fn]
    a = E.index('a', -nd - 3, nd + 2)
    valid = E.branch(a >= -nd) and E.branch(a < nd)
    r = call(E, f, valid, a, what='axis of ' + fn)
    if valid:
        k = int(a) % nd
        E.eq(leaves(E, r), leaves(E, f(k)), tol=1e-12, label='%s axis' % fn)


def axis2(E, fn, nd):
    D = Data(E, nd)
    f = pair(D)[fn]
    a, b = E.index('a', -nd - 2, nd + 1), E.index('b', -nd - 2, nd + 1)
    inr = E.branch(a >= -nd) and E.branch(a < nd) and E.branch(b >= -nd) and E.branch(b < nd)
    valid = inr and (fn in REPEAT or int(a) % nd != int(b) % nd)
    if fn == 'dwt2' and nd < 2 and inr:
        return E.check(True, 'unspecified')    # one axis of 1-D data twice
    r = call(E, f, valid, (a, b), what='axes of ' + fn)
    if valid:
        E.eq(leaves(E, r), leaves(E, f((int(a) % nd, int(b) % nd))), tol=1e-12, label='%s axes' % fn)


def axis3(E, fn):
    """three axes of three"""
    x = E.arr('x', (2, 2, 2), 'f8')
    p = E.pywt
    ax = [E.index('a%d' % i, -4, 3) for i in range(3)]
    f = dict(wavedecn=lambda a: p.wavedecn(x, 'haar', level=1, axes=a), fswavedecn=lambda a: p.fswavedecn(x, 'haar', levels=1, axes=a), swtn=lambda a: p.swtn(x, 'haar', 1, axes=a),
             packetnd=lambda a: p.WaveletPacketND(x, 'haar', maxlevel=1, axes=a)['ddd'].data, mran=lambda a: p.mran(x, 'haar', level=1, axes=a), dwtn=lambda a: p.dwtn(x, 'haar', axes=a),
             waverecn=lambda a: p.waverecn([x, {'ddd': x}], 'haar', axes=a), iswtn=lambda a: p.iswtn([x, {'ddd': x}], 'haar', axes=a))[fn]
    inr = True
    for a in ax:
        inr = inr and E.branch(a >= -3) and E.branch(a < 3)
    valid = inr and (fn == 'dwtn' or len({int(a) % 3 for a in ax}) == 3)
    r = call(E, f, valid, tuple(ax), what='axes of ' + fn)
    if valid:
        E.eq(leaves(E, r), leaves(E, f(tuple(int(a) % 3 for a in ax))), tol=1e-12, label='%s axes' % fn)


def sizes(E, fn, nd):
    """functions of sizes: wavedecn_shapes and dwtn_max_level"""
    sh = SHAPES[nd]
    p = E.pywt
    f = dict(shapes=lambda a: p.wavedecn_shapes(sh, 'haar', level=1, axes=a), shapes_int=lambda a: p.wavedecn_shapes(sh, 'haar', level=1, axes=a[0]))[fn]
    a, b = E.index('a', -nd - 3, nd + 2), E.index('b', -nd - 3, nd + 2)
    if fn == 'shapes_int':
        E.assume(b - 0 == 0)
    inr = E.branch(a >= -nd) and E.branch(a < nd) and E.branch(b >= -nd) and E.branch(b < nd)
    valid = inr and (fn == 'shapes_int' or int(a) % nd != int(b) % nd)
    r = call(E, f, valid, (a, b), what='axes of ' + fn)
    if valid:
        E.same(spots(r), spots(f((int(a) % nd, int(b) % nd))), fn)


def count(E, what):
    """wrong number of axes, wavelets or modes"""
    x = E.arr('x', (4, 4), 'f8')
    p = E.pywt
    y = dict(aa=x, ad=x, da=x, dd=x)
    for ax in ((), (0,), (0, 1, 0), (0, 1, -1)):
        for n, f in dict(dwt2=lambda: p.dwt2(x, 'haar', axes=ax), idwt2=lambda: p.idwt2((x, (x, x, x)), 'haar', axes=ax), wavedec2=lambda: p.wavedec2(x, 'haar', level=1, axes=ax),
                         swt2=lambda: p.swt2(x, 'haar', 1, axes=ax), packet2=lambda: p.WaveletPacket2D(x, 'haar', axes=ax, maxlevel=1)['a'],
                         idwtn=lambda: p.idwtn(y, 'haar', axes=ax), waverecn=lambda: p.waverecn([x, dict(ad=x, da=x, dd=x)], 'haar', axes=ax), iswtn=lambda: p.iswtn([y], 'haar', axes=ax),
                         iswt2=lambda: p.iswt2([(x, (x, x, x))], 'haar', axes=ax)).items():
            E.raises(f, BAD, '%s with axes %r' % (n, ax))
    for w, m in ((['haar'] * 3, 'zero'), (['haar'] * 2, ['zero'] * 3), ('haar', ['zero'] * 4), (['haar', 'nosuch'], 'zero'), ('haar', ['zero', 'nosuch']), ([], 'zero'), ('haar', [])):
        for n, f in dict(dwt2=lambda: p.dwt2(x, w, m), dwtn=lambda: p.dwtn(x, w, m), idwt2=lambda: p.idwt2((x, (x, x, x)), w, m), idwtn=lambda: p.idwtn(y, w, m),
                         wavedec2=lambda: p.wavedec2(x, w, m, level=1), wavedecn=lambda: p.wavedecn(x, w, m, level=1), waverec2=lambda: p.waverec2([x, (x, x, x)], w, m),
                         waverecn=lambda: p.waverecn([x, dict(dd=x)], w, m), fswavedecn=lambda: p.fswavedecn(x, w, m, levels=1), packet2=lambda: p.WaveletPacket2D(x, w, m, maxlevel=1)['a'],
                         packetnd=lambda: p.WaveletPacketND(x, w, m, maxlevel=1)['aa']).items():
            E.raises(f, BAD, '%s with wavelets %r and modes %r' % (n, w, m))
        if m == 'zero':
            for n, f in dict(swt2=lambda: p.swt2(x, w, 1), swtn=lambda: p.swtn(x, w, 1), iswt2=lambda: p.iswt2([(x, (x, x, x))], w), iswtn=lambda: p.iswtn([y], w)).items():
                E.raises(f, BAD, '%s with wavelets %r' % (n, w))
    E.raises(lambda: p.fswavedecn(x, 'haar', levels=(1, 1, 1)), BAD, 'three levels for two axes')
    E.raises(lambda: p.fswavedecn(x, 'haar', levels=(1, 1), axes=(0,)), BAD, 'two levels for one axis')


def level(E, fn):
    """levels of the multilevel transforms: negative ones are rejected, others give that many levels"""
    p = E.pywt
    x = E.arr('x', (6,), 'f8')
    x2 = E.arr('y', (4, 2), 'f8')
    lv = E.index('level', -4, 4)
    f = dict(wavedec=lambda l: p.wavedec(x, 'haar', level=l), wavedec_nd=lambda l: p.wavedec(x2, 'haar', 'zero', l, 0), wavedec2=lambda l: p.wavedec2(x2, 'haar', level=l),
             wavedecn=lambda l: p.wavedecn(x2, 'db2', level=l), wavedecn1=lambda l: p.wavedecn(x2, 'haar', level=l, axes=(1,)), shapes=lambda l: p.wavedecn_shapes((4, 2), 'haar', level=l),
             mra=lambda l: p.mra(x, 'haar', l, transform='dwt'), mra2=lambda l: p.mra2(x2, 'haar', l, transform='dwt2'), mran=lambda l: p.mran(x2, 'haar', l, transform='dwtn'))[fn]
    valid = E.branch(lv >= 0)
    r = call(E, f, valid, lv, what='level of ' + fn)
    if valid:
        E.same(len(r), int(lv) + 1, 'entries of ' + fn)


def fslevels(E):
    x = E.arr('x', (4, 2), 'f8')
    a, b = E.index('l0', -2, 3), E.index('l1', -2, 3)
    valid = E.branch(a >= 0) and E.branch(b >= 0)
    r = call(E, lambda: E.pywt.fswavedecn(x, 'haar', levels=(a, b)), valid, what='levels of fswavedecn')
    if valid:
        E.same(tuple(r.levels), (int(a), int(b)), 'levels')


def v2(n):
    return (n & -n).bit_length() - 1


def swtlevel(E, fn, n, m=8):
    """levels of the stationary transforms: the sum of level and start level is bounded by the powers of two in the sizes"""
    p = E.pywt
    lv, st = E.index('level', 1 if fn.startswith(('swt2', 'swtn')) else -2, 5), E.index('start', -2, 4)
    x = E.arr('x', (n,) if fn in ('swt', 'mra') else (n, m), 'f8')
    f = dict(swt=lambda: p.swt(x, 'haar', lv, st), swt_nd=lambda: p.swt(x, 'haar', lv, st, axis=0), swt_nd1=lambda: p.swt(x, 'haar', lv, st, axis=1, trim_approx=True),
             swt2=lambda: p.swt2(x, 'haar', lv, st), swtn=lambda: p.swtn(x, 'haar', lv, st), swtn1=lambda: p.swtn(x, 'haar', lv, st, axes=(1,)))[fn]
    mx = dict(swt=v2(n), swt_nd=v2(n), swt_nd1=v2(m), swt2=min(v2(n), v2(m)), swtn=min(v2(n), v2(m)), swtn1=v2(m))[fn]
    valid = E.branch(lv >= 1) and E.branch(st >= 0) and E.branch(lv + st <= mx)
    r = call(E, f, valid, what='level of %s, size %d' % (fn, n))
    if valid:
        E.same(len(r), int(lv) + (1 if fn == 'swt_nd1' else 0), 'levels')


def swthuge(E, nd, n):
    """every 64-bit level and start level"""
    p = E.pywt
    lv, st = E.integer('level', -2 ** 63, 2 ** 63 - 1), E.integer('start', -2 ** 63, 2 ** 63 - 1)
    u = E.integer('ulevel', 2 ** 63, 2 ** 64 - 1)
    x = E.arr('x', (n,) if nd == 1 else (2, n), 'f8')
    E.assume(z_or(lv, st, v2(n)))
    call(E, lambda: p.swt(x, 'haar', lv, st), False, what='level of swt')
    call(E, lambda: p.swt(x, 'haar', u, 1), False, what='level of swt')


def z_or(lv, st, mx):
    """level < 1, start < 0 or level + start > mx"""
    if isinstance(lv, int):
        return lv < 1 or st < 0 or lv + st > mx
    import z3
    from engine.sym import SymBool
    return SymBool(z3.Or((lv < 1).c, (st < 0).c, (lv + st > mx).c))


def coeflevel(E, fn):
    p = E.pywt
    x = E.arr('x', (5,), 'f8')
    lv = E.index('level', -3, 3)
    valid = E.branch(lv >= 1)
    r = call(E, lambda: p.downcoef('a', x, 'haar', level=lv) if fn == 'down' else p.upcoef('d', x, 'haar', level=lv), valid, what='level of ' + fn)
    if valid:
        E.check(r.ndim == 1, 'result')
    for part in ('', 'x', 'ad', 'A', None, 0):
        E.raises(lambda: p.downcoef(part, x, 'haar') if fn == 'down' else p.upcoef(part, x, 'haar'), BAD, 'part %r' % (part,))
    if fn == 'up':
        t = E.index('take', -3, 4)
        tv = E.branch(t >= 0)
        call(E, lambda: p.upcoef('a', x, 'haar', take=t), tv, what='take')


def packlevel(E, kind, order):
    p = E.pywt
    x = E.arr('x', (4,) if kind == 1 else (4, 4), 'f8')
    t = {1: p.WaveletPacket, 2: p.WaveletPacket2D, 'n': p.WaveletPacketND}[kind](x, 'haar', 'zero', maxlevel=2)
    lv = E.index('level', 0, 5)
    valid = E.branch(lv <= 2)
    f = (lambda: t.get_level(lv, order)) if kind != 'n' else (lambda: t.get_level(lv))
    r = call(E, f, valid, what='packet level')
    if valid:
        E.check(r is not None, 'level')
    if kind != 'n':
        for o in ('nosuch', 'Natural', None):
            E.raises(lambda: t.get_level(1, o), BAD, 'order %r' % o)
    c = {1: 'a', 2: 'a', 'n': 'aa'}[kind]
    for bad in (c * 3, 'x' * len(c), 'a' + 'q' * len(c), 3, None) + (('ad',) if kind == 2 else ()) * 0 + (('a', 'aad') if kind == 'n' else ()):
        E.raises(lambda: t[bad], BAD, 'path %r' % (bad,))
    leaf = t[c * 2]
    E.raises(lambda: leaf.decompose(), BAD, 'decomposition beyond the maximum level')


def mismatch(E, fn, big=4):
    """coefficient arrays whose sizes differ, along transformed and other axes"""
    p = E.pywt
    w = 'db2'
    A = {}

    def a(*s):
        if s not in A:
            A[s] = E.arr('x%s' % '_'.join(map(str, s)), s, 'f8')
        return A[s]
    n = big
    ok = 0
    if fn == 'idwt':
        for i, j in itertools.product(range(2, 7), repeat=2):
            for mode in ('zero', 'periodization'):
                f = lambda: p.idwt(a(i), a(j), w, mode)
                if i != j:
                    E.raises(f, BAD, 'idwt of %d and %d' % (i, j))
        sh = [s for s in itertools.product((2, 3, 4), repeat=2)] + [(4,), (4, 4, 1), (1, 4, 4)]
        for s, t, ax in itertools.product(sh, sh, (0, 1)):
            if s != t and (len(s) > ax):
                E.raises(lambda: p.idwt(a(*s), a(*t), w, axis=ax), BAD, 'idwt of %r and %r' % (s, t))
    if fn == 'waverec':
        for i, j in itertools.product(range(2, 7), repeat=2):
            if i - j not in (0, 1):
                E.raises(lambda: p.waverec([a(i), a(j)], w), BAD, 'waverec of %d and %d' % (i, j))
        for i in range(2, 10):
            if i not in (5, 6):
                E.raises(lambda: p.waverec([a(4), a(4), a(i)], w), BAD, 'waverec third of %d' % i)
        for s, ax in (((4, 3), 0), ((3, 4), 1), ((3, 4), -1), ((2, 4, 3), 1)):
            for t in itertools.product(*[(v - 1, v, v + 1, v + 2) for v in s]):
                k = ax % len(s)
                good = all(t[i] == s[i] for i in range(len(s)) if i != k) and t[k] - s[k] in (0, 1)
                if not good:
                    E.raises(lambda: p.waverec([a(*t), a(*s)], w, axis=ax), BAD, 'waverec of %r and %r axis %d' % (t, s, ax))
        for t in ((4,), (4, 3, 1), (1, 4, 3)):
            E.raises(lambda: p.waverec([a(*t), a(4, 3)], w, axis=0), BAD, 'waverec of %r' % (t,))
    if fn in ('waverec2', 'waverecn'):
        for s, ax in (((4, 4), (0, 1)), ((4, 3, 4), (0, 2)), ((3, 4, 4), (-2, -1))):
            for t in itertools.product(*[(v - 1, v, v + 1, v + 2) for v in s]) if len(s) < 3 else [tuple(s[i] + (q if i == k else 0) for i in range(3)) for k in range(3) for q in (-1, 1, 2)]:
                real = {v % len(s) for v in ax}
                d = [t[i] - s[i] for i in range(len(s))]
                top = 1 if fn == 'waverec2' else 0
                good = all(0 <= d[i] <= (top if i in real else 0) for i in range(len(s)))
                if not good:
                    E.raises(lambda: p.waverec2([a(*t), (a(*s),) * 3], w, axes=ax) if fn == 'waverec2' else p.waverecn([a(*t), dict(ad=a(*s), da=a(*s), dd=a(*s))], w, axes=ax), BAD,
                             '%s approximation %r details %r axes %r' % (fn, t, s, ax))
                if t != s:
                    for k in range(3):
                        D = [a(*(t if i == k else s)) for i in range(3)]
                        E.raises(lambda: p.waverec2([a(*s), tuple(D)], w, axes=ax) if fn == 'waverec2' else p.waverecn([a(*s), dict(ad=D[0], da=D[1], dd=D[2])], w, axes=ax), BAD,
                                 '%s detail %d %r others %r axes %r' % (fn, k, t, s, ax))
        s3 = (4, 3, 4)
        for t in ((7, 3, 6), (6, 3, 7), (6, 2, 6), (4, 3, 6), (6, 4, 6), (6, 3, 4)):
            E.raises(lambda: p.waverec2([a(*s3), (a(*s3),) * 3, (a(*t),) * 3], w, axes=(0, 2)) if fn == 'waverec2' else
                     p.waverecn([a(*s3), {k: a(*s3) for k in ('ad', 'da', 'dd')}, {k: a(*t) for k in ('ad', 'da', 'dd')}], w, axes=(0, 2)), BAD, '%s finer details %r' % (fn, t))
        for t in ((4,), (4, 4, 1), (1, 4, 4)):
            E.raises(lambda: p.waverec2([a(*t), (a(4, 4),) * 3], w) if fn == 'waverec2' else p.waverecn([a(*t), dict(ad=a(4, 4), dd=a(4, 4))], w), BAD, '%s of %r' % (fn, t))
        if fn == 'waverec2':
            for d in ((a(4, 4),) * 2, (a(4, 4),) * 4, a(4, 4), dict(dd=a(4, 4))):
                E.raises(lambda: p.waverec2([a(4, 4), d], w), BAD, 'details of waverec2')
        else:
            for d in ({'ddd': a(4, 4)}, {'d': a(4, 4), 'dd': a(4, 4)}, {'xd': a(4, 4)}, (a(4, 4),) * 3):
                E.raises(lambda: p.waverecn([a(4, 4), d], w), BAD, 'details of waverecn')
    if fn == 'idwtn':
        for t in [u for u in itertools.product((1, 3, 4, 5), repeat=2) if u != (4, 4)] + [(4,), (4, 4, 1), (1, 4, 4)]:
            o, q = a(4, 4), a(*t)
            for k in range(4):
                v = [q if i == k else o for i in range(4)]
                E.raises(lambda: p.idwt2((v[0], (v[1], v[2], v[3])), w), BAD, 'idwt2 %d %r' % (k, t))
                E.raises(lambda: p.idwtn(dict(zip(('aa', 'ad', 'da', 'dd'), v)), w), BAD, 'idwtn %d %r' % (k, t))
                if k:
                    E.raises(lambda: p.idwtn({'aa': o, ('aa', 'ad', 'da', 'dd')[k]: q}, w), BAD, 'idwtn %d only %r' % (k, t))
        for keys in (('aaa',), ('a', 'dd'), ('ax',)):
            E.raises(lambda: p.idwtn({k: a(4, 4) for k in keys}, w), BAD, 'keys %r' % (keys,))
        E.raises(lambda: p.idwtn({'aa': None, 'dd': None}, w), BAD, 'no coefficients')
        E.raises(lambda: p.idwt(None, None, w), BAD, 'no coefficients')
    if fn == 'iswt':
        for i, j in itertools.product((1, 2, 3, 4, 5, 6, 8), repeat=2):
            if i != j:
                E.raises(lambda: p.iswt([(a(i), a(j))], w), BAD, 'iswt of %d and %d' % (i, j))
                E.raises(lambda: p.iswt([a(i), a(j)], w), BAD, 'trimmed iswt of %d and %d' % (i, j))
        for i in (1, 2, 3, 8):
            E.raises(lambda: p.iswt([(a(4), a(4)), (a(i), a(i))], w), BAD, 'finer level of %d' % i)
            E.raises(lambda: p.iswt([a(4), a(4), a(i)], w), BAD, 'finer level of %d' % i)
        for t in ((4, 3), (2, 4), (8, 4), (4, 2), (4, 8), (1, 4), (4, 1), (4, 4, 1), (1, 4, 4)):
            for ax in (0, 1):
                E.raises(lambda: p.iswt([(a(4, 4), a(*t))], w, axis=ax), BAD, 'iswt n-D detail %r' % (t,))
                E.raises(lambda: p.iswt([(a(*t), a(4, 4))], w, axis=ax), BAD, 'iswt n-D approximation %r' % (t,))
    if fn == 'iswtn':
        for t in ((4, 3), (2, 4), (8, 4), (4, 2), (4, 8), (1, 4), (4, 1), (8, 8), (2, 2), (4, 4, 1), (1, 4, 4), (4,)):
            o, q = a(4, 4), a(*t)
            for k in range(4):
                v = [q if i == k else o for i in range(4)]
                E.raises(lambda: p.iswt2([(v[0], tuple(v[1:]))], w), BAD, 'iswt2 %d %r' % (k, t))
                E.raises(lambda: p.iswtn([dict(zip(('aa', 'ad', 'da', 'dd'), v))], w), BAD, 'iswtn %d %r' % (k, t))
                E.raises(lambda: p.iswt2([v[0], tuple(v[1:])], w), BAD, 'trimmed iswt2 %d %r' % (k, t))
                E.raises(lambda: p.iswtn([v[0], dict(zip(('ad', 'da', 'dd'), v[1:]))], w), BAD, 'trimmed iswtn %d %r' % (k, t))
            E.raises(lambda: p.iswt2([o, (o, o, o), (q, q, q)], w), BAD, 'finer level of iswt2 %r' % (t,))
            E.raises(lambda: p.iswtn([o, dict(dd=o), dict(dd=q)], w), BAD, 'finer level of iswtn %r' % (t,))
    if fn == 'packet':
        for i, j in ((2, 3), (3, 2), (1, 2), (4, 2)):
            t = p.WaveletPacket(None, 'haar', 'zero', maxlevel=1)
            t['a'] = a(i)
            t['d'] = a(j)
            E.raises(lambda: t.reconstruct(), BAD, 'packet nodes of %d and %d' % (i, j))
        for s, u in (((2, 2), (2, 3)), ((2, 2), (3, 2)), ((2, 2), (1, 2))):
            t = p.WaveletPacket2D(None, 'haar', 'zero', maxlevel=1)
            t['a'], t['d'] = a(*s), a(*u)
            E.raises(lambda: t.reconstruct(), BAD, 'packet nodes of %r and %r' % (s, u))
            t = p.WaveletPacketND(None, 'haar', 'zero', maxlevel=1, axes=(0, 1))
            t['aa'], t['dd'] = a(*s), a(*u)
            E.raises(lambda: t.reconstruct(), BAD, 'packet nodes of %r and %r' % (s, u))
    if fn == 'fsw':
        r = p.fswavedecn(a(4, 4), 'haar', levels=1)
        for t in ((4, 3), (3, 4), (5, 4), (4,), (4, 4, 1), (2, 2)):
            def put():
                r.coeffs = a(*t)
            E.raises(put, BAD, 'coeffs %r' % (t,))
        for t in ((1, 2), (2, 1), (3, 2), (2,), (2, 2, 1), (4, 4)):
            def put():
                r[(1, 1)] = a(*t)

            def put2():
                r.approx = a(*t)
            E.raises(put, BAD, 'detail %r' % (t,))
            E.raises(put2, BAD, 'approx %r' % (t,))
        for k in ((2, 0), (0, 2), (-1, 0), (0, 0, 0), (1,), (1.5, 0), 'aa'):
            E.raises(lambda: r[k], BAD, 'key %r' % (k,))
    if fn == 'pack':
        for t in ((5, 4), (4, 3), (4, 4, 1), (4,)):
            E.raises(lambda: p.coeffs_to_array([a(4, 4), dict(ad=a(4, 4), da=a(4, 4), dd=a(*t))], padding=None), BAD, 'coeffs_to_array %r' % (t,))
        s = p.wavedec2(a(8, 8), 'haar', level=1)
        arr, sl, sp = p.ravel_coeffs(s)
        for fmt in ('nosuch', None, 'WAVEDEC'):
            E.raises(lambda: p.unravel_coeffs(arr, sl, sp, output_format=fmt), BAD, 'format %r' % fmt)
        c, cs = p.coeffs_to_array(s)
        for fmt in ('nosuch', None):
            E.raises(lambda: p.array_to_coeffs(c, cs, output_format=fmt), BAD, 'format %r' % fmt)
        E.raises(lambda: p.array_to_coeffs(c, []), BAD, 'no slices')
        E.raises(lambda: p.unravel_coeffs(arr, [], sp), BAD, 'no slices')
        E.raises(lambda: p.unravel_coeffs(arr, sl, []), BAD, 'no shapes')
        E.raises(lambda: p.unravel_coeffs(arr, sl, sp[:-1]), BAD, 'fewer shapes')
        for mk in (lambda: [a(4, 4), (None, a(4, 4), a(4, 4))], lambda: [None, dict(dd=a(4, 4))]):
            E.raises(lambda: p.coeffs_to_array(mk()), BAD, 'missing coefficients')
            E.raises(lambda: p.ravel_coeffs(mk()), BAD, 'missing coefficients')
    E.check(True, fn)


def empty(E, fn):
    """data without samples along a transformed axis"""
    p = E.pywt
    z = E.np.zeros
    modes = MODES
    n = E.arr('n', (3,), 'f8')
    E.check(len(n) == 3, 'data')
    for m in modes:
        for w in ('haar', 'db2', 'bior3.1'):
            if fn == 'dwt':
                for f in (lambda: p.dwt(z(0), w, m), lambda: p.dwt([], w, m), lambda: p.wavedec(z(0), w, m, level=1), lambda: p.wavedec([], w, m, level=2), lambda: p.dwtn(z(0), w, m),
                          lambda: p.wavedecn(z(0), w, m, level=1), lambda: p.fswavedecn(z(0), w, m, levels=1), lambda: p.downcoef('a', z(0), w, m), lambda: p.downcoef('d', [], w, m),
                          lambda: p.mra(z(0), w, 1, transform='dwt', mode=m), lambda: p.WaveletPacket(z(0), w, m, maxlevel=1)['a'], lambda: p.WaveletPacketND(z(0), w, m, maxlevel=1)['a']):
                    E.raises(f, BAD, 'empty 1-D data %s' % m)
            if fn == 'dwtn':
                for s in ((0, 3), (3, 0), (0, 0)):
                    for f in (lambda: p.dwt2(z(s), w, m), lambda: p.dwtn(z(s), w, m), lambda: p.wavedec2(z(s), w, m, level=1), lambda: p.wavedecn(z(s), w, m, level=1),
                              lambda: p.fswavedecn(z(s), w, m, levels=1), lambda: p.dwt(z(s), w, m, axis=0 if not s[0] else 1), lambda: p.WaveletPacket2D(z(s), w, m, maxlevel=1)['a'],
                              lambda: p.WaveletPacketND(z(s), w, m, maxlevel=1)['aa'], lambda: p.mra2(z(s), w, 1, transform='dwt2', mode=m), lambda: p.mran(z(s), w, 1, transform='dwtn', mode=m)):
                        E.raises(f, BAD, 'empty data %r %s' % (s, m))
            if fn == 'idwt':
                for f in (lambda: p.idwt(z(0), z(0), w, m), lambda: p.idwt(z(0), None, w, m), lambda: p.idwt(None, z(0), w, m), lambda: p.idwt([], [], w, m), lambda: p.waverec([z(0), z(0)], w, m),
                          lambda: p.idwtn({'a': z(0), 'd': z(0)}, w, m), lambda: p.waverecn([z(0), {'d': z(0)}], w, m), lambda: p.upcoef('a', z(0), w), lambda: p.upcoef('d', [], w)):
                    E.raises(f, BAD, 'empty 1-D coefficients %s' % m)
                for s in ((0, 3), (3, 0), (0, 0)):
                    o = z(s)
                    ax = 0 if not s[0] else 1
                    for f in (lambda: p.idwt(o, o, w, m, axis=ax), lambda: p.idwt(o, None, w, m, axis=ax), lambda: p.idwt(None, o, w, m, axis=ax), lambda: p.idwt2((o, (o, o, o)), w, m),
                              lambda: p.idwtn(dict(aa=o, dd=o), w, m), lambda: p.waverec([o, o], w, m, axis=ax), lambda: p.waverec2([o, (o, o, o)], w, m), lambda: p.waverecn([o, dict(ad=o)], w, m)):
                        E.raises(f, BAD, 'empty coefficients %r %s' % (s, m))
    for w in ('haar', 'db2'):
        if fn == 'swt':
            for f in (lambda: p.swt(z(0), w, 1), lambda: p.swt([], w, 1), lambda: p.swtn(z(0), w, 1), lambda: p.mra(z(0), w, 1), lambda: p.iswt([(z(0), z(0))], w), lambda: p.iswt([z(0), z(0)], w),
                      lambda: p.iswtn([dict(a=z(0), d=z(0))], w), lambda: p.swt(z(0), w)):
                E.raises(f, BAD, 'empty 1-D data')
            for s in ((0, 4), (4, 0), (0, 0)):
                o = z(s)
                ax = 0 if not s[0] else 1
                for f in (lambda: p.swt(o, w, 1, axis=ax), lambda: p.swt2(o, w, 1), lambda: p.swtn(o, w, 1), lambda: p.mra2(o, w, 1), lambda: p.mran(o, w, 1), lambda: p.iswt([(o, o)], w, axis=ax),
                          lambda: p.iswt2([(o, (o, o, o))], w), lambda: p.iswtn([dict(aa=o, dd=o)], w), lambda: p.iswt2([o, (o, o, o)], w)):
                    E.raises(f, BAD, 'empty data %r' % (s,))
    if fn == 'cwt':
        for method in ('conv', 'fft'):
            for wav in ('gaus1', 'cmor1.5-1.0'):
                E.raises(lambda: p.cwt(z(0), [1, 2], wav, method=method), BAD, 'empty data')
                E.raises(lambda: p.cwt(z((3, 0)), [1, 2], wav, method=method), BAD, 'empty data')
    if fn == 'size':
        for k in (0, -1):
            for m in modes:
                E.raises(lambda: p.dwt_coeff_len(k, 4, m), BAD, 'size %d' % k)
        E.raises(lambda: p.Wavelet('x', filter_bank=([], [], [], [])), BAD, 'empty filters')


def short(E):
    """coefficients too short for the filter"""
    p = E.pywt
    for F, w in ((4, 'db2'), (8, 'db4'), (6, 'bior2.2')):
        for n in range(1, F // 2):
            a, b = E.arr('a%d_%d' % (F, n), (n,), 'f8'), E.arr('b%d_%d' % (F, n), (2, n), 'f8')
            for m in ('zero', 'symmetric', 'reflect'):
                if 2 * n - F + 2 < 1:
                    E.raises(lambda: p.idwt(a, a, w, m), BAD, 'idwt of %d with %s' % (n, w))
                    E.raises(lambda: p.idwt(b, b, w, m), BAD, 'idwt of %d with %s' % (n, w))
                    E.raises(lambda: p.waverec([a, a], w, m), BAD, 'waverec of %d with %s' % (n, w))


def allf(E, x, x2):
    """every entry point as a function of wavelet and mode (level 1)"""
    p = E.pywt
    d = dict(ad=x2, da=x2, dd=x2)
    W = dict(dwt=lambda w, m: p.dwt(x, w, m), idwt=lambda w, m: p.idwt(x, x, w, m), wavedec=lambda w, m: p.wavedec(x, w, m, level=1), waverec=lambda w, m: p.waverec([x, x], w, m),
             dwt2=lambda w, m: p.dwt2(x2, w, m), idwt2=lambda w, m: p.idwt2((x2, (x2, x2, x2)), w, m), dwtn=lambda w, m: p.dwtn(x2, w, m), idwtn=lambda w, m: p.idwtn(dict(d), w, m),
             wavedec2=lambda w, m: p.wavedec2(x2, w, m, level=1), waverec2=lambda w, m: p.waverec2([x2, (x2, x2, x2)], w, m), wavedecn=lambda w, m: p.wavedecn(x2, w, m, level=1),
             waverecn=lambda w, m: p.waverecn([x2, dict(d)], w, m), fswavedecn=lambda w, m: p.fswavedecn(x2, w, m, levels=1), downcoef=lambda w, m: p.downcoef('d', x, w, m, level=2),
             mra=lambda w, m: p.mra(x, w, 1, transform='dwt', mode=m), mra2=lambda w, m: p.mra2(x2, w, 1, transform='dwt2', mode=m), mran=lambda w, m: p.mran(x2, w, 1, transform='dwtn', mode=m),
             packet=lambda w, m: p.WaveletPacket(x, w, m, maxlevel=1)['d'].data, packet2=lambda w, m: p.WaveletPacket2D(x2, w, m, maxlevel=1)['h'].data,
             packetnd=lambda w, m: p.WaveletPacketND(x2, w, m, maxlevel=1)['ad'].data)
    S = dict(swt=lambda w: p.swt(x, w, 1), iswt=lambda w: p.iswt([(x, x)], w), swt2=lambda w: p.swt2(x2, w, 1), iswt2=lambda w: p.iswt2([(x2, (x2, x2, x2))], w), swtn=lambda w: p.swtn(x2, w, 1),
             iswtn=lambda w: p.iswtn([dict(d, aa=x2)], w), mra=lambda w: p.mra(x, w, 1), mra2=lambda w: p.mra2(x2, w, 1), mran=lambda w: p.mran(x2, w, 1), upcoef=lambda w: p.upcoef('a', x, w))
    return W, S


BADW = ['nosuch', 'mexh', 'gaus1', 'cmor1.5-1.0', 'db0', 'db39', 'db', '', 'sym1', 'sym21', 'coif18', 'bior1.2', 'bior', 'rbio', 'haar1', 'db-1', 'db1.5', 'dmey1', None, 3, b'db2']
BADM = ['nosuch', '', 'Symmetric', 'sym ', 'periodi', 'zeros', -1, 9, 100, -100, None, 1.5]


def unknown(E, what):
    x, x2 = E.arr('x', (4,), 'f8'), E.arr('x2', (4, 4), 'f8')
    W, S = allf(E, x, x2)
    if what == 'wavelet':
        cw = E.pywt.ContinuousWavelet('mexh')
        for w in BADW + [cw]:
            for n, f in W.items():
                E.raises(lambda: f(w, 'zero'), BAD, '%s with wavelet %r' % (n, w))
            for n, f in S.items():
                E.raises(lambda: f(w), BAD, '%s with wavelet %r' % (n, w))
        for w in ('nosuch', 'gaus0', 'gaus9', 'cgau9', 'gaus', '', 'cmor1-1-1', 'fbsp', 'fbsp1', 'fbsp0-1-1', 'fbsp1.5-1-1', 'shan1-1-1', 'mexh1', 'morl2', 'mexh-1'):
            if w not in ('fbsp',):
                E.raises(lambda: E.pywt.ContinuousWavelet(w), BAD, 'continuous wavelet %r' % w)
                E.raises(lambda: E.pywt.cwt(x, [1], w), BAD, 'cwt %r' % w)
        for w in ('haar', 'db2', 'sym3'):
            E.raises(lambda: E.pywt.ContinuousWavelet(w), BAD, 'continuous wavelet %r' % w)
    else:
        for m in BADM:
            for n, f in W.items():
                E.raises(lambda: f('haar', m), BAD, '%s with mode %r' % (n, m))
            E.raises(lambda: E.pywt.pad(x, 1, m), BAD, 'pad with mode %r' % (m,))
            E.raises(lambda: E.pywt.dwt_coeff_len(8, 4, m), BAD, 'dwt_coeff_len with mode %r' % (m,))
    for t in ('nosuch', None, 'dwt2', 'swt2', ''):
        E.raises(lambda: E.pywt.mra(x, 'haar', 1, transform=t), BAD, 'transform %r' % t)
    for t in ('nosuch', None, 'dwtn', 'swt', 'swtn'):
        E.raises(lambda: E.pywt.mra2(x2, 'haar', 1, transform=t), BAD, 'transform %r' % t)
    for t in ('nosuch', None, 'dwt2', 'swt', 'swt2'):
        E.raises(lambda: E.pywt.mran(x2, 'haar', 1, transform=t), BAD, 'transform %r' % t)
    for m in ('symmetric', 'zero', 'periodic'):
        E.raises(lambda: E.pywt.mra(x, 'haar', 1, mode=m), BAD, 'swt mode %s' % m)
        E.raises(lambda: E.pywt.mra2(x2, 'haar', 1, mode=m), BAD, 'swt2 mode %s' % m)
        E.raises(lambda: E.pywt.mran(x2, 'haar', 1, mode=m), BAD, 'swtn mode %s' % m)
    for m in ('nosuch', '', None, 'Soft'):
        E.raises(lambda: E.pywt.threshold(x, 1.0, m), BAD, 'threshold mode %r' % m)


def modeint(E, fn):
    """integer modes: exactly the nine defined values are accepted, with the meaning of their names"""
    x, x2 = E.arr('x', (4,), 'f8'), E.arr('x2', (4, 4), 'f8')
    W, S = allf(E, x, x2)
    m = E.index('mode', -4, 13)
    valid = E.branch(m >= 0) and E.branch(m <= 8)
    k = int(m)
    f = W[fn]
    r = call(E, lambda: f('db2', k), valid, what='mode %d of %s' % (k, fn))
    if valid:
        name = [n for n in MODES if int(getattr(E.pywt.Modes, n)) == k]
        E.same(len(name), 1, 'names of mode %d' % k)
        E.eq(leaves(E, r), leaves(E, f('db2', name[0])), tol=1e-12, label='mode %d' % k)
        E.same(int(E.pywt.Modes.from_object(name[0])), k, 'from_object')


def forms(E, fn, w):
    """a wavelet by name, by object, by an equal custom bank and in capitals; one mode, or one per axis"""
    x, x2 = E.arr('x', (4,), 'f8'), E.arr('x2', (4, 4), 'f8')
    W, S = allf(E, x, x2)
    p = E.pywt
    o = p.Wavelet(w)
    b = p.Wavelet('mine', filter_bank=o.filter_bank)
    fs = []
    if fn in W:
        for m in ('zero', 'symmetric', 'periodization'):
            fs.append((lambda v, m=m: W[fn](v, m), m))
    if fn in S:
        fs.append((S[fn], ''))
    for f, m in fs:
        ref = leaves(E, f(w))
        alts = [('object', o), ('capitals', w.upper()), ('bank', b), ('class', p.DiscreteContinuousWavelet(w))]
        if fn[-1] in '2n' and fn != 'packet2':
            alts += [('one per axis', [w, w]), ('tuple of objects', (o, o)), ('list of one', [w]), ('mixed', (w, o))]
        for n, v in alts:
            E.eq(leaves(E, f(v)), ref, tol=1e-12, label='%s wavelet %s %s' % (fn, n, m))
    if fn in W and fn[-1] in '2n' and fn != 'packet2':
        for m in MODES:
            ref = leaves(E, W[fn](w, m))
            for v in ([m, m], (m,), (int(getattr(p.Modes, m)), m), [getattr(p.Modes, m)] * 2):
                E.eq(leaves(E, W[fn](w, v)), ref, tol=1e-12, label='%s mode %r' % (fn, v))


def contforms(E, wav):
    x = E.arr('x', (5,), 'f8')
    p = E.pywt
    a, fa = p.cwt(x, [1, 2.3], wav)
    for n, v in (('object', p.ContinuousWavelet(wav)), ('capitals', wav.upper()), ('class', p.DiscreteContinuousWavelet(wav))):
        b, fb = p.cwt(x, [1, 2.3], v)
        E.eq(b, a, tol=1e-12, label='cwt %s' % n)
        E.eq(fb, fa, tol=1e-12, label='cwt frequencies %s' % n)
    b, fb = p.cwt(x, (1, 2.3), wav, 1)
    E.eq(b, a, tol=1e-12, label='cwt tuple of scales')


def values(E, what):
    """numeric arguments that are documented to be rejected"""
    p = E.pywt
    x = E.arr('x', (4,), 'f8')
    if what == 'scale':
        s = E.scalar('s', -8, 8)
        E.assume(s <= 0)
        for wav in ('gaus1', 'cmor1.5-1.0'):
            for m in ('conv', 'fft'):
                E.raises(lambda: p.cwt(x, E.np.array([1.0, s]), wav, method=m), BAD, 'non-positive scale')
                E.raises(lambda: p.cwt(x, E.np.array([s, 1.0]), wav, method=m), BAD, 'non-positive scale')
    if what == 'firm':
        lo, hi = E.scalar('lo', -8, 8), E.scalar('hi', -8, 8)
        bad = E.branch(lo < 0) or E.branch(hi < lo)
        call(E, lambda: p.threshold_firm(E.carr([0.0, 1.0]), lo, hi), not bad, what='firm thresholds')
    if what == 'pad':
        w, v = E.index('w', -3, 3), E.index('v', -3, 3)
        ok = E.branch(w >= 0) and E.branch(v >= 0)
        for m in MODES:
            call(E, lambda: p.pad(x, (int(w), int(v)), m), ok, what='pad width')
    E.check(True, what)


def names(W):
    return ['dwt', 'idwt', 'wavedec', 'waverec', 'dwt2', 'idwt2', 'dwtn', 'idwtn', 'wavedec2', 'waverec2', 'wavedecn', 'waverecn', 'fswavedecn', 'downcoef', 'mra', 'mra2', 'mran', 'packet', 'packet2', 'packetnd']


def cases(tier, seed):
    deep = tier == 'thorough'
    f1 = re.findall(r'(?:\(|, |\n        )(\w+)=lambda a', src('one'))
    f2 = re.findall(r'(?:\(|, |\n        )(\w+)=lambda a', src('pair'))
    for fn in f1:
        for nd in (1, 2, 3):
            if nd == 1 and fn == 'cwt':
                continue    # the axis of 1-D data is ignored
            yield 'axis %s %dd' % (fn, nd), 'axis1', dict(fn=fn, nd=nd)
    for fn in f2:
        for nd in (1, 2, 3):
            if nd == 3 and not deep and fn in ('mra2', 'mran', 'mra2_dwt', 'mran_dwt', 'iswt2', 'iswt2_trim'):
                continue
            yield 'axes %s %dd' % (fn, nd), 'axis2', dict(fn=fn, nd=nd)
    if deep:
        for fn in ('wavedecn', 'fswavedecn', 'swtn', 'packetnd', 'mran', 'dwtn', 'waverecn', 'iswtn'):
            yield 'axes %s three' % fn, 'axis3', dict(fn=fn)
    for fn in ('shapes', 'shapes_int'):
        for nd in (1, 2, 3):
            yield 'axes %s %dd' % (fn, nd), 'sizes', dict(fn=fn, nd=nd)
    yield 'counts', 'count', dict(what='')
    for fn in ('wavedec', 'wavedec_nd', 'wavedec2', 'wavedecn', 'wavedecn1', 'shapes', 'mra', 'mra2', 'mran'):
        yield 'level %s' % fn, 'level', dict(fn=fn)
    yield 'levels fswavedecn', 'fslevels', {}
    for fn in ('swt', 'swt_nd', 'swt_nd1', 'swt2', 'swtn', 'swtn1'):
        for n in range(1, 10) if fn == 'swt' or deep else (1, 2, 3, 4, 6, 8):
            for m in (4, 6) if fn not in ('swt', 'swt_nd') else (2,):
                yield 'stationary level %s %d %d' % (fn, n, m), 'swtlevel', dict(fn=fn, n=n, m=m)
    for nd in (1, 2):
        for n in (2, 4, 6, 8):
            yield 'stationary huge level %dd %d' % (nd, n), 'swthuge', dict(nd=nd, n=n)
    for fn in ('down', 'up'):
        yield 'level %scoef' % fn, 'coeflevel', dict(fn=fn)
    for kind in (1, 2, 'n'):
        for order in ('natural', 'freq') if kind != 'n' else ('natural',):
            yield 'packet level %s %s' % (kind, order), 'packlevel', dict(kind=kind, order=order)
    for fn in ('idwt', 'waverec', 'waverec2', 'waverecn', 'idwtn', 'iswt', 'iswtn', 'packet', 'fsw', 'pack'):
        yield 'mismatch %s' % fn, 'mismatch', dict(fn=fn)
    for fn in ('dwt', 'dwtn', 'idwt', 'swt', 'cwt', 'size'):
        yield 'empty %s' % fn, 'empty', dict(fn=fn)
    yield 'short coefficients', 'short', {}
    for what in ('wavelet', 'mode'):
        yield 'unknown %s' % what, 'unknown', dict(what=what)
    for fn in names(0):
        yield 'integer mode %s' % fn, 'modeint', dict(fn=fn)
    for fn in names(0) + ['swt', 'iswt', 'swt2', 'iswt2', 'swtn', 'iswtn', 'upcoef']:
        for w in ('db2', 'bior3.1') if fn in ('dwt', 'dwt2', 'idwtn', 'swtn') or deep else ('db2',):
            yield 'forms %s %s' % (fn, w), 'forms', dict(fn=fn, w=w)
    for wav in ('gaus1', 'mexh', 'cmor1.5-1.0', 'cgau2'):
        yield 'forms cwt %s' % wav, 'contforms', dict(wav=wav)
    for what in ('scale', 'firm', 'pad'):
        yield 'numeric arguments %s' % what, 'values', dict(what=what)


def src(name):
    import inspect
    return inspect.getsource(globals()[name])
