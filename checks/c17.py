"""C17: the filter tables of all 106 built-in discrete wavelets satisfy perfect reconstruction for every signal, the stated (bi)orthogonality, vanishing moments for
every polynomial, the alternating-sign mirror, time reversal of the reverse-biorthogonal families and agreement of the two precisions; user-made filter banks
(qmf, orthogonal_filter_bank, Wavelet) satisfy the same relations for every real filter."""
import math
from .common import *

BOUNDS = ('all 106 built-in discrete wavelets, single and double tables as read by the compiled kernels; every signal of length 2 with every alignment '
          '(the identities are linear and invariant under shifts by two), every polynomial of degree below the stated number of vanishing moments with coefficients in [-1, 1]; '
          'qmf: every real and complex filter of length 0..9, orthogonal_filter_bank: every real filter of even length 2..10 whose sum is at least 1/8; '
          'Wavelet objects: every real bank of four filters of length 1..8')
OUTSIDE = ('residuals below the tolerances (4e-11; 5e-3 for dmey, which is an FIR approximation); vanishing_moments_phi of bior5.5/rbio5.5 (documented only as a property of the scaling '
           'function; the dual high-pass has four vanishing moments, the attribute says five); rounding in the data path')
SQ2 = math.sqrt(2)


def res(W):
    return 5e-3 if W == 'dmey' else 4e-11


def moments(W):
    """documented (psi, phi) numbers of vanishing moments"""
    if W == 'haar':
        return 1, 0
    if W.startswith('db'):
        return int(W[2:]), 0
    if W.startswith('sym'):
        return int(W[3:]), 0
    if W.startswith('coif'):
        return 2 * int(W[4:]), 2 * int(W[4:]) - 1
    if W == 'dmey':
        return None, None
    a, b = W[4:].split('.')
    return int(a), int(b)


def table(E, W):
    w = E.pywt.Wavelet(W)
    dl, dh, rl, rh = fb = [list(f) for f in w.filter_bank]
    F = flen(W)
    E.same([len(f) for f in fb] + [w.dec_len, w.rec_len, len(w)], [F] * 7, W + ' lengths')
    orth = W[:3] not in ('bio', 'rbi')
    E.same((bool(w.orthogonal), bool(w.biorthogonal)), (orth, True), W + ' flags')
    ifb = [list(f) for f in w.inverse_filter_bank]
    t = res(W)
    c = E.scalar('c', -1, 1)
    # the whole bank reconstructs every signal with a delay of F - 1
    x = [E.scalar('x%d' % i, -1, 1) for i in range(2)]
    n = 2 + 2 * F
    y = [0.0] * n
    alias = [0.0] * n
    for d, r in ((dl, rl), (dh, rh)):
        s = [sum(x[j] * d[i - j] for j in range(2) if 0 <= i - j < F) for i in range(F + 1)]
        for i, v in enumerate(s):
            for k in range(F):
                if i % 2:
                    y[i + k] = y[i + k] + v * r[k]
                else:
                    alias[i + k] = alias[i + k] + v * r[k]
    want = [0.0] * n
    want[F - 1], want[F] = x
    E.eq(y, want, tol=t, label=W + ' perfect reconstruction (odd phase)')
    E.eq(alias, want, tol=t, label=W + ' perfect reconstruction (even phase)')
    # low-pass gain, mirror relations
    E.eq([c * sum(dl), c * sum(rl)], [c * SQ2] * 2, tol=1e-3 if W == 'dmey' else t, label=W + ' low-pass gain')
    E.eq([c * v for v in dh], [c * rl[k] * (-1) ** (k + 1) for k in range(F)], tol=1e-14, label=W + ' dec_hi mirrors rec_lo')
    E.eq([c * v for v in rh], [c * dl[k] * (-1) ** k for k in range(F)], tol=1e-14, label=W + ' rec_hi mirrors dec_lo')
    for k in range(4):
        E.eq([c * v for v in ifb[k]], [c * v for v in fb[(k + 2) % 4][::-1]], tol=0, label=W + ' inverse filter bank')
    # biorthogonality / orthogonality of the shifted filters for every combination of coefficients
    def inner(a, b, m):
        return sum(a[k] * b[k + 2 * m] for k in range(F) if 0 <= k + 2 * m < F)
    rev = [f[::-1] for f in fb]
    pairs = [(rl, rev[0], 1), (rh, rev[1], 1), (rl, rev[1], 0), (rh, rev[0], 0)]
    if orth:
        pairs += [(dl, dl, 1), (dh, dh, 1), (dl, dh, 0), (rl, rl, 1), (rh, rh, 1), (rl, rh, 0)]
        E.eq([c * v for v in rl], [c * v for v in dl[::-1]], tol=t, label=W + ' rec_lo reverses dec_lo')
        E.eq([c * v for v in rh], [c * v for v in dh[::-1]], tol=t, label=W + ' rec_hi reverses dec_hi')
    M = range(-(F // 2) + 1, F // 2)
    for q, (a, b, one) in enumerate(pairs):
        E.eq([c * inner(a, b, m) for m in M], [c * float(one and m == 0) for m in M], tol=t, label='%s inner products %d' % (W, q))
    # vanishing moments for every polynomial
    psi, phi = moments(W)
    if psi is not None:
        E.same((w.vanishing_moments_psi, w.vanishing_moments_phi), (psi, phi), W + ' stated moments')
        hi = [dh, rh] if orth else [rh if W[0] == 'r' else dh]
        for f in hi:
            vanish(E, W, f, psi, 't%d' % (f is rh))
        if orth and phi:
            m1 = sum(k * v for k, v in enumerate(dl)) / SQ2
            m2 = sum(k * v for k, v in enumerate(rl)) / SQ2
            for f, m in ((dl, m1), (rl, m2)):
                pc = [E.scalar('p%d_%d' % (f is rl, j), -1, 1) for j in range(1, phi + 1)]
                E.eq([sum(p * sum(v * ((k - m) / F) ** (j + 1) for k, v in enumerate(f)) for j, p in enumerate(pc))], [0.0], tol=2e-10, label=W + ' scaling function moments')
        if not orth and not W.endswith('5.5'):
            vanish(E, W, dh if W[0] == 'r' else rh, phi, 'q')
    if W.startswith('rbio'):
        o = E.pywt.Wavelet(W[1:2] + 'ior' + W[4:])
        for a, b, nm in ((w.rec_lo, o.dec_lo, 'rec_lo'), (w.dec_lo, o.rec_lo, 'dec_lo'), (w.rec_hi, o.dec_hi, 'rec_hi'), (w.dec_hi, o.rec_hi, 'dec_hi')):
            E.eq([c * v for v in a], [c * v for v in list(b)[::-1]], tol=1e-14, label='%s %s is the time reversal' % (W, nm))
    if w.symmetry == 'symmetric' and W != 'dmey':
        for f in (dl, rl):
            z = [v for v in f]
            while z and z[0] == 0 and len(z) > 1:
                z.pop(0)
            while z and z[-1] == 0 and len(z) > 1:
                z.pop()
            E.eq([c * v for v in z], [c * v for v in z[::-1]], tol=1e-10, label=W + ' symmetric')


def vanish(E, W, f, p, nm):
    F = len(f)
    pc = [E.scalar('%s_%d' % (nm, j), -1, 1) for j in range(p)]
    E.eq([sum(q * sum(v * ((k - (F - 1) / 2) / F) ** j for k, v in enumerate(f)) for j, q in enumerate(pc))], [0.0], tol=1e-10, label='%s vanishing moments' % W)


def precision(E, W):
    """the single precision tables, read through the single precision kernels, are the double precision ones rounded"""
    p = E.pywt
    w = p.Wavelet(W)
    F = w.dec_len
    c = E.arr('c', (1,), 'f4', lo=0.5, hi=1)
    cv = E.list(c)[0]
    dl, dh, rl, rh = [list(f) for f in w.filter_bank]
    for part, f in (('a', rl), ('d', rh)):
        r = p.upcoef(part, c, W, level=1)
        E.dtype(r, 'f4', 'upcoef')
        rel(E, cv, E.list(r), f, '%s single precision rec %s' % (W, part))
    z = E.np.zeros(1, 'f4')
    for ph in (0, 1):
        x = E.np.concatenate([c, z] if ph == 0 else [z, c])
        a, d = p.dwt(x, W, 'zero')
        for r, f, nm in ((a, dl, 'lo'), (d, dh, 'hi')):
            E.dtype(r, 'f4', 'dwt')
            r = E.list(r)
            ks = [1 + 2 * i - ph for i in range(len(r))]
            rel(E, cv, [v for v, k in zip(r, ks) if 0 <= k < F], [f[k] for k in ks if 0 <= k < F], '%s single precision dec %s' % (W, nm))


def rel(E, c, got, tab, label):
    E.same(len(got), len(tab), label + ' length')
    E.eq([g * (1.0 / t) if t else g + c for g, t in zip(got, tab)], [c] * len(tab), tol=3e-7, label=label)


def own(E, W, how, dt):
    """a wavelet rebuilt from its own, or twice from its inverse bank, has the same filters, and transforms any data identically"""
    p = E.pywt
    w = p.Wavelet(W)
    c = E.scalar('c', -1, 1)
    if how == 'own':
        v, want = p.Wavelet('again', filter_bank=w.filter_bank), w.filter_bank
    elif how == 'obj':
        v, want = p.Wavelet('again', filter_bank=w), w.filter_bank
    else:
        v, want = p.Wavelet('again', filter_bank=w.inverse_filter_bank), [list(w.rec_lo)[::-1], list(w.rec_hi)[::-1], list(w.dec_lo)[::-1], list(w.dec_hi)[::-1]]
    for a, b in zip(v.filter_bank, want):
        E.eq([c * q for q in a], [c * q for q in b], tol=0, label='%s rebuilt from %s' % (W, how))
    E.same((v.name, v.dec_len, v.rec_len), ('again', w.dec_len, w.rec_len), 'attributes')
    x = E.arr('x', (5,), dt, lo=-1, hi=1)
    if how != 'inv':
        for a, b in zip(p.dwt(x, v), p.dwt(x, W)):
            E.eq(a, b, tol=1e-6, label='dwt of the rebuilt wavelet')


class Bank:
    pass


def custom(E, F, form):
    """any bank of four filters: attributes, inverse bank, and both precisions of the stored copy"""
    p = E.pywt
    fs = [E.arr('f%d' % i, (F,), 'f8', lo=-1, hi=1) for i in range(4)]
    s = E.snap(*fs)
    vals = [E.list(f) for f in fs]
    if form == 'list':
        arg = [E.list(f) for f in fs]
    elif form == 'tuple':
        arg = tuple(tuple(E.list(f)) for f in fs)
    elif form == 'attr':
        arg = Bank()
        arg.filter_bank = tuple(fs)
    else:
        arg = fs
    w = p.Wavelet('mine', filter_bank=arg)
    L = F + F % 2
    vals = [v + [0.0] * (L - F) for v in vals] if w.dec_len == L else vals
    E.unchanged(fs, s)
    E.same((w.name, w.orthogonal, w.biorthogonal, len(w)), ('mine', False, False, w.dec_len), 'attributes')
    for got, v, nm in zip(w.filter_bank, vals, ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi')):
        E.eq(list(got), v, tol=1e-12, label=nm)
        E.eq(list(getattr(w, nm)), v, tol=1e-12, label=nm + ' attribute')
    inv = [vals[2][::-1], vals[3][::-1], vals[0][::-1], vals[1][::-1]]
    for got, v in zip(w.inverse_filter_bank, inv):
        E.eq(list(got), v, tol=1e-12, label='inverse bank')
    u = p.Wavelet(filter_bank=w.inverse_filter_bank)
    for got, v in zip(u.inverse_filter_bank, vals):
        E.eq(list(got), v, tol=1e-12, label='inverse of the inverse')
    # single precision copy, through the single precision kernels
    one = E.np.ones(1, 'f4')
    for part, k in (('a', 2), ('d', 3)):
        E.eq(p.upcoef(part, one, w, level=1), vals[k], tol=1e-6, label='single precision copy %s' % part)
    for ph in (0, 1):
        x = E.np.zeros(2, 'f4')
        x[ph] = 1
        for r, f in zip(p.dwt(x, w, 'zero'), vals[:2]):
            r = E.list(r)
            ks = [(i, 1 + 2 * i - ph) for i in range(len(r)) if 0 <= 1 + 2 * i - ph < len(f)]
            E.eq([r[i] for i, k in ks], [f[k] for i, k in ks], tol=1e-6, label='single precision copy of a decomposition filter')


def qmf(E, F, dt='f8', form='arr', order='C'):
    f = E.arr('f', (F,), dt, order, lo=-1, hi=1)
    s = E.snap(f)
    v = E.list(f)
    r = E.pywt.qmf(f if form == 'arr' else E.list(f) if form == 'list' else tuple(E.list(f)))
    E.unchanged([f], s)
    E.shape(r, (F,), 'qmf')
    E.eq(r, [v[F - 1 - k] * (-1) ** k for k in range(F)], tol=1e-12, label='qmf')


def ofb(E, F, form='arr', order='C', dt='f8'):
    f = E.arr('f', (F,), dt, order, lo=-1, hi=1)
    s = E.snap(f)
    v = E.list(f)
    S = sum(v)
    E.assume(S >= 0.125)
    r = E.pywt.orthogonal_filter_bank(f if form == 'arr' else E.list(f))
    E.unchanged([f], s)
    E.same(len(r), 4, 'four filters')
    for a in r:
        E.shape(a, (F,), 'filter')
    dl, dh, rl, rh = [E.list(a) for a in r]
    E.eq([a * S for a in rl], [b * SQ2 for b in v], tol=1e-9, label='normalised scaling filter', deg=2)
    for k in range(F):
        # signs and orders are compared on the numerators
        E.eq([dl[k] * S], [v[F - 1 - k] * SQ2], tol=1e-9, label='dec_lo', deg=2)
        E.eq([rh[k] * S], [v[F - 1 - k] * SQ2 * (-1) ** k], tol=1e-9, label='rec_hi', deg=2)
        E.eq([dh[k] * S], [v[k] * SQ2 * (-1) ** (F - 1 - k)], tol=1e-9, label='dec_hi', deg=2)


def odd(E, F):
    f = E.arr('f', (F,), 'f8', lo=0.5, hi=1)
    E.raises(lambda: E.pywt.orthogonal_filter_bank(f), (ValueError,), 'odd scaling filter')


def badbank(E, lens, extra=None):
    fs = [E.arr('f%d' % i, (n,), 'f8', lo=-1, hi=1) for i, n in enumerate(lens)]
    E.raises(lambda: E.pywt.Wavelet('bad', filter_bank=fs), (ValueError,), 'filter bank of lengths %r' % (lens,))


def names(E):
    """the documented lists: every discrete name builds, belongs to its family, in upper case too"""
    p = E.pywt
    fam = {'haar': 'Haar', 'db': 'Daubechies', 'sym': 'Symlets', 'coif': 'Coiflets', 'bior': 'Biorthogonal', 'rbio': 'Reverse biorthogonal', 'dmey': 'Discrete Meyer (FIR Approximation)'}
    E.same(sorted(p.wavelist(kind='discrete')), sorted(DISCRETE), 'wavelist(discrete)')
    E.same(sorted(p.wavelist()), sorted(p.wavelist(kind='discrete') + p.wavelist(kind='continuous')), 'wavelist')
    for s, l in fam.items():
        g = p.wavelist(s)
        E.same(sorted(g), sorted(w for w in DISCRETE if w.rstrip('0123456789.') == s), 'wavelist(%s)' % s)
        for W in g:
            w = p.Wavelet(W)
            E.same((w.name, w.short_family_name, w.family_name), (W, s, l), 'family of ' + W)
            E.same(p.Wavelet(W.upper()).filter_bank == w.filter_bank, True, W.upper())
    for a, b in zip(p.families(), p.families(short=False)):
        E.same(fam.get(a, b), b, 'family name')


def cases(tier, seed):
    deep = tier == 'thorough'
    for W in DISCRETE:
        yield 'table %s' % W, 'table', dict(W=W)
    for W in DISCRETE:
        yield 'precision %s' % W, 'precision', dict(W=W)
    for i, W in enumerate(DISCRETE):
        for how in ('own', 'obj', 'inv') if deep or i % 5 == 0 else (('own', 'obj', 'inv')[i % 3],):
            yield 'rebuilt %s %s' % (W, how), 'own', dict(W=W, how=how, dt=('f4', 'f8', 'f4')[i % 3])
    for F in (1, 2, 3, 4, 5, 6, 8) + ((7, 10, 16) if deep else ()):
        for form in ('list', 'tuple', 'arr', 'attr'):
            yield 'custom %d %s' % (F, form), 'custom', dict(F=F, form=form)
    for F in range(0, 10 if not deep else 20):
        for form in ('arr', 'list', 'tuple'):
            yield 'qmf %d %s' % (F, form), 'qmf', dict(F=F, form=form)
        for dt in ('c16', 'f4', 'i4'):
            yield 'qmf %d %s' % (F, dt), 'qmf', dict(F=F, dt=dt)
    for o in ('strided', 'neg', 'ro', 'bc'):
        yield 'qmf %s' % o, 'qmf', dict(F=5, order=o)
        yield 'ofb %s' % o, 'ofb', dict(F=4, order=o)
    for F in (2, 4, 6, 8, 10) + ((12, 14, 20) if deep else ()):
        for form in ('arr', 'list'):
            yield 'ofb %d %s' % (F, form), 'ofb', dict(F=F, form=form)
        yield 'ofb %d f4' % F, 'ofb', dict(F=F, dt='f4')
    for F in (1, 3, 5, 7):
        yield 'ofb odd %d' % F, 'odd', dict(F=F)
    for lens in ([2, 2, 2], [2, 2, 2, 2, 2], [4, 4, 4, 2], [2, 4, 2, 2], [4, 2, 4, 4], [4, 4, 2, 4], [0, 0, 0, 0], [2]):
        yield 'bank %r' % (lens,), 'badbank', dict(lens=lens)
    yield 'names', 'names', {}
