"""C11: coeffs_to_array/array_to_coeffs and ravel_coeffs/unravel_coeffs are exact inverses for independent symbolic coefficients in every
structure a decomposition produces; slices are disjoint, exact and the rest is padding; predicted shapes and sizes are the actual ones."""
from .common import *
from itertools import product

BOUNDS = ('every coefficient is an independent symbolic value; structures of wavedec, wavedec2, wavedecn, swt, swt2, swtn (trim_approx) and fswavedecn for shapes with up to 4 axes '
          'of length <= 40 (1-D), <= 9 (n-D), levels <= 4, 1-3 transformed axes in any order and sign, filters of 2..16 taps, nine modes, symbolic padding')
OUTSIDE = 'coefficient lists of one entry (returned as they are), array dtypes other than f8/f4/c16/c8'


def struct(shape, axes, wavs, modes, level, swt=False):
    """list of shapes: [approx, {key: shape}, ...] coarsest first; computed from the documented formulas"""
    keys = [''.join(p) for p in product('ad', repeat=len(axes))]
    cur = list(shape)
    out = []
    for _ in range(level):
        if not swt:
            for a, w, m in zip(axes, wavs, modes):
                cur[a] = dwt_len(cur[a], flen(w), m)
        out.append({k: tuple(cur) for k in keys if 'd' in k})
    out.append(tuple(cur))
    return out[::-1]


def build(E, st, dts, fmt, order='C'):
    """independent symbolic coefficients of the given structure, in the public format"""
    c = [E.arr('a', st[0], dts[0], order)]
    for i, d in enumerate(st[1:]):
        dt = dts[(i + 1) % len(dts)]
        q = {k: E.arr('d%d%s' % (i, k), s, dt, order) for k, s in d.items()}
        if fmt in ('wavedec', 'swt'):
            q = q['d']
        elif fmt in ('wavedec2', 'swt2'):
            q = (q['da'], q['ad'], q['dd'])
        c.append(q)
    return c


def same_coeffs(E, got, c, label, tol):
    E.same(len(got), len(c), label + ': entries')
    E.eq(got[0], c[0], tol, label + ': approximation')
    for i in range(1, len(c)):
        g, e = got[i], c[i]
        if isinstance(e, dict):
            E.same(sorted(g), sorted(e), label + ': keys')
            for k in sorted(e):
                E.eq(g[k], e[k], tol, '%s: entry %d %s' % (label, i, k))
        elif isinstance(e, tuple):
            E.check(isinstance(g, tuple) and len(g) == 3, label + ': 3-tuple')
            for p, q in zip(g, e):
                E.eq(p, q, tol, '%s: entry %d' % (label, i))
        else:
            E.eq(g, e, tol, '%s: entry %d' % (label, i))


def asdict(e, i):
    if isinstance(e, dict):
        return e
    if isinstance(e, tuple):
        return {'da': e[0], 'ad': e[1], 'dd': e[2]}
    return {'d': e}


def norm_slices(sl, shape):
    return tuple(range(*s.indices(n)) for s, n in zip(sl, shape))


def common(dts):
    c = any(d[0] == 'c' for d in dts)
    w = any(d in ('f8', 'c16') for d in dts)
    return {(0, 0): 'f4', (0, 1): 'f8', (1, 0): 'c8', (1, 1): 'c16'}[(int(c), int(w))]


def pack(E, shape, axes, wav, mode, level, fmt, dts=('f8',), pad='sym', order='C', none_axes=False, swt=False, drop=None):
    import numpy as np
    shape = tup(shape)
    nd = len(shape)
    real = [a % nd for a in axes]
    st = struct(shape, real, peraxis(wav, len(real)), peraxis(mode, len(real)), level, swt)
    dts = [dts] if isinstance(dts, str) else list(dts)
    c = build(E, st, dts, fmt, order)
    if drop:
        for d in c[1:]:
            if isinstance(d, dict):
                d.pop(drop, None)
    conts = [c] + [d for d in c if isinstance(d, dict)] + [v for i, e in enumerate(c) for v in ([e] if i == 0 else list(asdict(e, i).values()))]
    s = E.snap(*conts)
    ax = None if none_axes else tup(axes)
    tol = 1e-9 if common(dts) not in F4 else 4e-5
    # ---- one vector
    if not drop and tuple(axes) != ():
        pass
    used = dts if level + 1 >= len(dts) else dts[:level + 1]
    v, vs, vsh = E.pywt.ravel_coeffs(c, axes=ax)
    E.unchanged(conts, s)
    E.dtype(v, common(used), 'ravel_coeffs')
    tot = 0
    for i, e in enumerate(c):
        for x in ([e] if i == 0 else list(asdict(e, i).values())):
            tot += int(np.prod(x.shape))
    E.same(tuple(v.shape), (tot,), 'length of the raveled vector')
    E.same((len(vs), len(vsh)), (len(c), len(c)), 'bookkeeping length')
    seen = np.zeros(tot, int)
    for i, e in enumerate(c):
        for k, x in ([(None, e)] if i == 0 else sorted(asdict(e, i).items())):
            sl = vs[i] if k is None else vs[i][k]
            sh = vsh[i] if k is None else vsh[i][k]
            E.same(tuple(sh), tuple(x.shape), 'recorded shape')
            seen[sl] += 1
            E.eq(v[sl].reshape(x.shape), x, tol, 'ravel slot %d %s' % (i, k))
    E.check(bool((seen == 1).all()), 'ravel slices are disjoint and complete')
    sv = E.snap(v)
    same_coeffs(E, E.pywt.unravel_coeffs(v, vs, vsh, output_format=fmt), c, 'unravel_coeffs', tol)
    E.unchanged([v], sv)
    if not drop:
        # ravel of the wavedecn form gives the same vector
        E.same(int(E.pywt.wavedecn_size([c[0]] + [asdict(e, 1) for e in c[1:]])), tot, 'wavedecn_size')
    # ---- one array
    full = list(st[0])
    for d in st[1:]:
        for a in real:
            full[a] += d['d' * len(real)][a]
    full = tuple(full)
    tight = int(np.prod(full)) == tot
    if pad == 'sym':
        pv = E.scalar('pad', -8, 8)
        kw = dict(padding=pv)
    elif pad == 'cplx':
        pv = complex(1.5, -2.25)
        kw = dict(padding=pv)
    elif pad == 'none':
        kw = dict(padding=None)
    else:
        kw, pv = {}, 0.0
    if pad == 'none' and not tight:
        E.raises(lambda: E.pywt.coeffs_to_array(c, axes=ax, **kw), ValueError, 'padding=None without tight packing')
        return
    arr, sl = E.pywt.coeffs_to_array(c, axes=ax, **kw)
    E.unchanged(conts, s)
    E.dtype(arr, common(used), 'coeffs_to_array')
    E.same(tuple(arr.shape), full, 'shape of the packed array')
    E.same(len(sl), len(c), 'number of slices')
    cnt = np.zeros(full, int)
    for i, e in enumerate(c):
        if i:
            E.same(sorted(sl[i]), sorted(asdict(e, i)), 'keys of the slices')
        for k, x in ([(None, e)] if i == 0 else sorted(asdict(e, i).items())):
            q = sl[i] if k is None else sl[i][k]
            cnt[q] += 1
            E.eq(arr[q], x, tol, 'packed slot %d %s' % (i, k))
    E.check(bool((cnt <= 1).all()), 'packed slices are disjoint')
    free = np.argwhere(cnt == 0)
    if pad != 'none':
        E.eq([arr[tuple(int(q) for q in p)] for p in free], [pv] * len(free), tol, 'padding value')
    else:
        E.check(len(free) == 0, 'tight packing leaves no gap')
    af = {'swt': 'wavedec', 'swt2': 'wavedec2', 'swtn': 'wavedecn'}.get(fmt, fmt)
    sa = E.snap(arr)
    back = E.pywt.array_to_coeffs(arr, sl, output_format=af)
    same_coeffs(E, back, c, 'array_to_coeffs', tol)
    E.unchanged([arr], sa)


def actual(E, shape, axes, wav, mode, level, fmt):
    """through real transforms: pack, unpack, reconstruct; predicted shapes are the actual ones"""
    P = E.pywt
    shape = tup(shape)
    nd = len(shape)
    x = E.arr('x', shape)
    w, m, ax = tup(wav), tup(mode), tup(axes)
    real = [a % nd for a in axes]
    if fmt == 'wavedec':
        c = P.wavedec(x, w, m, level=level, axis=ax[0])
        rec = lambda q: P.waverec(q, w, m, axis=ax[0])
    elif fmt == 'wavedec2':
        c = P.wavedec2(x, w, m, level=level, axes=ax)
        rec = lambda q: P.waverec2(q, w, m, axes=ax)
    elif fmt == 'wavedecn':
        c = P.wavedecn(x, w, m, level=level, axes=ax)
        rec = lambda q: P.waverecn(q, w, m, axes=ax)
    elif fmt == 'swt':
        c = P.swt(x, w, level=level, axis=ax[0], trim_approx=True)
        rec = lambda q: P.iswt(q, w, axis=ax[0])
    elif fmt == 'swt2':
        c = P.swt2(x, w, level, axes=ax, trim_approx=True)
        rec = lambda q: P.iswt2(q, w, axes=ax)
    else:
        c = P.swtn(x, w, level, axes=ax, trim_approx=True)
        rec = lambda q: P.iswtn(q, w, axes=ax)
    tol = tol_of(wav, 'f8', 4 ** level)
    one = fmt in ('wavedec', 'swt') and nd > 1
    d = [c[0]] + [{'d': q} for q in c[1:]] if one else c
    rf = {'wavedec': 'wavedecn', 'swt': 'swtn'}[fmt] if one else fmt
    if not fmt.startswith('swt'):
        st = P.wavedecn_shapes(shape, w, m, level=level, axes=ax)
        E.same(tuple(st[0]), tuple(c[0].shape), 'predicted approximation shape')
        for p, q in zip(st[1:], d[1:]):
            E.same({k: tuple(v) for k, v in p.items()}, {k: tuple(v.shape) for k, v in asdict(q, 1).items()}, 'predicted detail shapes')
    v, s1, s2 = P.ravel_coeffs(d, axes=ax)
    if not fmt.startswith('swt'):
        E.same(int(P.wavedecn_size(st)), int(v.shape[0]), 'predicted size')
    back = P.unravel_coeffs(v, s1, s2, output_format=rf)
    a, s = P.coeffs_to_array(d, axes=ax)
    back2 = P.array_to_coeffs(a, s, output_format={'swt': 'wavedec', 'swt2': 'wavedec2', 'swtn': 'wavedecn'}.get(rf, rf))
    if one:
        back = [back[0]] + [q['d'] for q in back[1:]]
        back2 = [back2[0]] + [q['d'] for q in back2[1:]]
    for b, nm in ((back, 'raveled'), (back2, 'packed')):
        y = rec(b)
        if odd_ok(E, y.shape, shape, axes, nm):
            E.eq(crop(E, y, shape), x, tol, 'reconstruction from ' + nm)


def fsw(E, shape, axes, wav, mode, levels):
    """bookkeeping of the fully separable transform: disjoint complete slices, each addressing its block"""
    import numpy as np
    P = E.pywt
    shape = tup(shape)
    nd = len(shape)
    x = E.arr('x', shape)
    r = P.fswavedecn(x, tup(wav), tup(mode), levels=tup(levels), axes=tup(axes))
    sls = r.coeff_slices
    cnt = np.zeros(tuple(r.coeffs.shape), int)
    full = [slice(None)] * nd
    for lv in product(*[range(len(s)) for s in sls]):
        q = list(full)
        for a, l, s in zip([b % nd for b in axes], lv, sls):
            q[a] = s[l]
        cnt[tuple(q)] += 1
        E.eq(r[lv if len(lv) > 1 else (lv[0],)], r.coeffs[tuple(q)], 1e-9, 'block %r' % (lv,))
    E.check(bool((cnt == 1).all()), 'fswavedecn slices are disjoint and complete')


def single(E, shape):
    a = E.arr('a', tup(shape))
    arr, sl = E.pywt.coeffs_to_array([a])
    E.eq(arr, a, 1e-9, 'single entry')
    same_coeffs(E, E.pywt.array_to_coeffs(arr, sl), [a], 'single entry', 1e-9)
    v, s1, s2 = E.pywt.ravel_coeffs([a])
    E.eq(v, a.reshape(-1), 1e-9, 'single entry')
    same_coeffs(E, E.pywt.unravel_coeffs(v, s1, s2), [a], 'single entry', 1e-9)


def rej(E):
    P = E.pywt
    a, d = E.arr('a', (3,)), E.arr('d', (3,))
    A = E.arr('A', (2, 2))
    for f in (P.coeffs_to_array, P.ravel_coeffs):
        E.raises(lambda: f([]), ValueError, 'empty list')
        E.raises(lambda: f([None, d]), ValueError, 'missing approximation')
        E.raises(lambda: f([a, None]), ValueError, 'missing details')
        E.raises(lambda: f([a, d, None]), Exception, 'missing details')
        E.raises(lambda: f([A, (A, None, A)]), ValueError, 'missing details')
        E.raises(lambda: f([A, {'ad': A, 'da': None, 'dd': A}]), Exception, 'missing details')
        E.raises(lambda: f([A, (A, A)]), ValueError, 'two details')
        E.raises(lambda: f([A, {'d': A}]), ValueError, 'axes required')
        E.raises(lambda: f([A, {'d': A}], axes=(0, 1)), ValueError, 'number of axes')
    arr, sl = P.coeffs_to_array([a, d])
    E.raises(lambda: P.array_to_coeffs(arr, []), ValueError, 'no slices')
    E.raises(lambda: P.array_to_coeffs(arr, sl, output_format='foo'), ValueError, 'unknown format')
    v, s, h = P.ravel_coeffs([a, d])
    E.raises(lambda: P.unravel_coeffs(v, [], h), ValueError, 'no slices')
    E.raises(lambda: P.unravel_coeffs(v, s, []), ValueError, 'no shapes')
    E.raises(lambda: P.unravel_coeffs(v, s, h[:1]), ValueError, 'unequal bookkeeping')
    E.raises(lambda: P.unravel_coeffs(v, s, h, output_format='foo'), ValueError, 'unknown format')


def cases(tier, seed):
    rnd = random.Random(seed + 11)
    T = tier == 'thorough'
    out, seen = [], set()

    def add(nm, fn, **k):
        if nm not in seen:
            seen.add(nm)
            out.append((nm, fn, k))
    W = ['haar', 'db2', 'bior2.2', 'db4', 'sym8', 'coif1']
    DT = ['f8', 'f8', 'f4', 'c16', 'c8', ['f8', 'c16'], ['f4', 'f8'], ['f4', 'c8', 'f8'], ['c8', 'f8'], ['f8', 'f4']]
    PD = ['sym', 'sym', 'none', 'default']
    for n in (range(2, 41) if T else range(2, 24)):
        for m in ('symmetric', 'periodization'):
            add('p1-%d-%s' % (n, m), 'pack', shape=[n], axes=[0], wav=rnd.choice(W), mode=m, level=rnd.randint(1, 4), fmt=rnd.choice(['wavedec', 'wavedecn']), dts=rnd.choice(DT),
                pad=rnd.choice(PD), none_axes=rnd.random() < .5, order=rnd.choice(LAYOUTS[:4]))
    k = 0
    for s in [(4, 4), (5, 7), (8, 6), (1, 9), (3, 2), (5, 4, 3), (2, 2, 2), (4, 1, 5), (2, 3, 2, 3)]:
        nd = len(s)
        for r in range(40 if T else 16):
            na = rnd.randint(1, min(nd, 3))
            axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), na)]
            fmt = 'wavedecn'
            none = False
            if nd == 2 and r % 3 == 0:
                axes, fmt, none = [0, 1], rnd.choice(['wavedec2', 'wavedec2', 'wavedecn']), r % 2 == 0
                if rnd.random() < .3 and not none:
                    axes = rnd.choice([[1, 0], [-1, 0], [-2, -1]])
            elif na == 2 and rnd.random() < .5:
                fmt = 'wavedec2'
            elif na == nd and rnd.random() < .5:
                axes, none = list(range(nd)), True
            w = rnd.choice([rnd.choice(W), [rnd.choice(W) for _ in axes]])
            m = rnd.choice([rnd.choice(MODES), 'periodization', [rnd.choice(MODES) for _ in axes]])
            k += 1
            add('pn-%d-%s-%s' % (k, 'x'.join(map(str, s)), fmt), 'pack', shape=list(s), axes=axes, wav=w, mode=m, level=rnd.randint(1, 3 if nd < 3 else 2), fmt=fmt, dts=rnd.choice(DT),
                pad=rnd.choice(PD), none_axes=none, order=rnd.choice(LAYOUTS))
            if r % 4 == 0:
                axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), na)]
                fmt = {1: 'swtn', 2: rnd.choice(['swt2', 'swtn'])}.get(na, 'swtn')
                add('ps-%d-%s-%s' % (k, 'x'.join(map(str, s)), fmt), 'pack', shape=list(s), axes=axes, wav='haar', mode='symmetric', level=rnd.randint(1, 2), fmt=fmt, swt=True, pad=rnd.choice(PD))
            if r % 4 == 1 and na > 1:
                add('pd-%d-%s' % (k, 'x'.join(map(str, s))), 'pack', shape=list(s), axes=axes, wav='db2', mode='zero', level=2, fmt='wavedecn', drop=rnd.choice(['ad', 'da'] if na == 2 else ['add', 'dda', 'ada']), pad='sym')
    # complex padding of complex arrays; padding=None on tight and on loose one-level packings
    for n, (s, fmt, m, lev) in enumerate([((5,), 'wavedec', 'zero', 1), ((9,), 'wavedec', 'symmetric', 2), ((5, 4), 'wavedec2', 'smooth', 1), ((3, 4), 'wavedecn', 'zero', 1), ((3, 2, 3), 'wavedecn', 'constant', 1),
                                          ((7, 5), 'wavedec2', 'antisymmetric', 2)]):
        for w in ('db2', 'haar'):
            ax = list(range(len(s)))
            for pd, dts in (('cplx', ['c16']), ('cplx', ['c8', 'c16']), ('cplx', ['c8']), ('none', ['f8']), ('none', ['c16'])):
                add('pp-%d-%s-%s-%s' % (n, w, pd, '-'.join(dts)), 'pack', shape=list(s), axes=ax, wav=w, mode=m, level=lev, fmt=fmt, dts=dts, pad=pd)
                if len(s) == 1 and pd == 'none' and n == 0:
                    add('pq-%d-%s-%s' % (n, w, dts[0]), 'pack', shape=[4, 5], axes=[1], wav=w, mode=m, level=2, fmt='wavedecn', dts=dts, pad=pd)
    for n, (s, lev) in enumerate([((4, 3), 1), ((5, 4), 2), ((2, 3, 2), 1)]):
        for pd in ('none', 'default'):
            add('pr-%d-%s' % (n, pd), 'pack', shape=list(s), axes=list(range(len(s))), wav='haar', mode='zero', level=lev, fmt='wavedecn', drop='ad' + 'd' * (len(s) - 2), pad=pd)
    # wavelet and mode per axis, periodization on one axis only
    for n, s in enumerate([(8, 9), (9, 8), (7, 7), (5, 6, 7), (8, 8, 4)]):
        for r in range(6 if T else 3):
            nd = len(s)
            axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), nd)]
            m = [rnd.choice(['zero', 'symmetric', 'smooth']) for _ in axes]
            m[r % nd] = 'periodization'
            add('am-%d-%d' % (n, r), 'actual', shape=list(s), axes=axes, wav=[rnd.choice(W[1:4]) for _ in axes], mode=m, level=rnd.randint(1, 2), fmt='wavedecn' if nd > 2 else rnd.choice(['wavedec2', 'wavedecn']))
    for s in [(8,), (9,), (16,), (6, 7), (8, 4), (4, 3, 5), (4, 4, 2)]:
        nd = len(s)
        for r in range(16 if T else 8):
            fmt = rnd.choice(['wavedec', 'wavedecn'] + (['wavedec2'] * 2 if nd > 1 else []))
            na = {'wavedec': 1, 'wavedec2': 2}.get(fmt, rnd.randint(1, min(nd, 3)))
            axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), na)]
            w = rnd.choice(W[:4]) if fmt == 'wavedec' else [rnd.choice(W[:4]) for _ in axes]
            m = rnd.choice([x for x in MODES if 'refl' not in x])
            if fmt != 'wavedec' and r % 2:
                m = [rnd.choice([m, 'periodization']) for _ in axes]
            k += 1
            add('ac-%d-%s-%s' % (k, 'x'.join(map(str, s)), fmt), 'actual', shape=list(s), axes=axes, wav=w, mode=m, level=rnd.randint(1, 3 if nd < 3 else 2), fmt=fmt)
            ev = [a for a in range(nd) if s[a] % 2 == 0]
            fmt = rnd.choice(['swt', 'swtn'] + (['swt2'] if len(ev) > 1 else []))
            na = {'swt': 1, 'swt2': 2}.get(fmt, rnd.randint(1, min(len(ev), 3)) if ev else 0)
            if not ev:
                continue
            axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(ev, na)]
            add('as-%d-%s-%s' % (k, 'x'.join(map(str, s)), fmt), 'actual', shape=list(s), axes=axes, wav=rnd.choice(W[:4]), mode='symmetric', level=1, fmt=fmt)
    for s in [(9,), (5, 6), (3, 4, 5)]:
        nd = len(s)
        for r in range(12 if T else 5):
            axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), rnd.randint(1, nd))]
            k += 1
            add('fs-%d' % k, 'fsw', shape=list(s), axes=axes, wav=[rnd.choice(W[:4]) for _ in axes], mode=[rnd.choice(['symmetric', 'zero', 'periodization']) for _ in axes],
                levels=[rnd.randint(0, 2) for _ in axes])
        add('one-%d' % nd, 'single', shape=list(s))
    add('rej', 'rej')
    return out
