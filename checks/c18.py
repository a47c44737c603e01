"""C18: every transform, inverse, packing, packet-tree and thresholding call leaves the arrays, lists, tuples and dicts it was given as they were; results
share no memory with the inputs; result dtypes follow the documented rule and no value is narrowed on the way."""
from .common import *
from itertools import product

BOUNDS = ('every public transform, inverse, packing and thresholding function; 1-D lengths <= 24 and arrays of up to 3 axes of length <= 8; levels 1..3; ten dtypes '
          '(f8 f4 f2 c16 c8 longdouble i1 i4 i8 u1), seven memory layouts (C, F, strided, negative, transposed, read-only, byte-swapped) and lists / tuples / dicts; '
          '|x| <= 1024; every conversion of a symbolic value to a narrower dtype carries an unknown rounding error of up to one unit in the last place')
OUTSIDE = ('level 0 and single-array coefficient lists (the input itself is returned), array_to_coeffs and unravel_coeffs results (views of the packed array), '
           'packet trees keeping the array given to them, rounding other than dtype conversions, larger arrays')


MAX_PATHS = 3000


def leaves(o, out=None):
    out = [] if out is None else out
    if isinstance(o, dict):
        for v in o.values():
            leaves(v, out)
    elif isinstance(o, (list, tuple)):
        for v in o:
            leaves(v, out)
    elif hasattr(o, 'flags') and hasattr(o, 'shape'):
        out.append(o)
    return out


def struct(o):
    """containers with the identity of what they hold"""
    if isinstance(o, dict):
        return ('dict', id(o), [(k, struct(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, id(o), [struct(v) for v in o])
    return id(o) if hasattr(o, 'shape') else repr(o) if isinstance(o, (int, float, str, slice, type(None))) else id(o)


def run(E, fn, args, label, dt=None, alias=True):
    """call fn(*args) and check containers, values, aliasing and dtypes"""
    ins = leaves(list(args))
    st = [struct(a) for a in args]
    sn = E.snap(*ins)
    r = fn(*args)
    E.unchanged(ins, sn, label + ' modifies its input')
    E.check(st == [struct(a) for a in args], '%s changes the containers it was given' % label)
    rs = leaves(r if isinstance(r, (list, tuple, dict)) else [r])
    E.check(bool(rs), label + ' returns no array')
    for y in rs:
        if dt is not None:
            E.dtype(y, dt, label)
    for y in rs:
        E.eq(y, y, 1e-9, label + ' result')      # recorded
    if alias:
        keep = [objarr(E, y) for y in rs]
        for y in rs:
            if y.flags.writeable and y.size:
                y[...] = 3
        E.unchanged(ins, sn, label + ' result aliases its input')
        return r, keep
    return r, None


def narrow(E, got, ref, label, dt):
    """values equal those of the exact computation, so nothing was narrowed on the way"""
    for i, (a, b) in enumerate(zip(got, ref)):
        E.eq(a, b, (2e-5 if outdt(dt) in F4 else 1e-9) * 8, '%s: result %d against the double-precision computation' % (label, i))


def wide(E, x):
    """the same values as a plain double / complex double array"""
    dt = np_kind(x)
    return E.np.array(x, dtype='c16' if dt == 'c' else 'f8', order='C')


def np_kind(x):
    return x.dtype.kind


FWD = {
    'dwt': lambda P, x, w, m, L: P.dwt(x, w, m),
    'dwt0': lambda P, x, w, m, L: P.dwt(x, w, m, axis=0),
    'wavedec': lambda P, x, w, m, L: P.wavedec(x, w, m, level=L),
    'wavedec0': lambda P, x, w, m, L: P.wavedec(x, w, m, level=L, axis=0),
    'downa': lambda P, x, w, m, L: P.downcoef('a', x, w, m, level=L),
    'downd': lambda P, x, w, m, L: P.downcoef('d', x, w, m, level=L),
    'upa': lambda P, x, w, m, L: P.upcoef('a', x, w, level=L),
    'upd': lambda P, x, w, m, L: P.upcoef('d', x, w, level=L, take=len(x)),
    'swt': lambda P, x, w, m, L: P.swt(x, w, level=L),
    'swtT': lambda P, x, w, m, L: P.swt(x, w, level=L, trim_approx=True, norm=True),
    'swt0': lambda P, x, w, m, L: P.swt(x, w, level=L, axis=0),
    'mra': lambda P, x, w, m, L: P.mra(x, w, level=L),
    'mrad': lambda P, x, w, m, L: P.mra(x, w, level=L, transform='dwt', mode=m),
    'dwt2': lambda P, x, w, m, L: P.dwt2(x, w, m),
    'dwt2a': lambda P, x, w, m, L: P.dwt2(x, w, m, axes=(0, 1)),
    'wavedec2': lambda P, x, w, m, L: P.wavedec2(x, w, m, level=L),
    'swt2': lambda P, x, w, m, L: P.swt2(x, w, L),
    'swt2T': lambda P, x, w, m, L: P.swt2(x, w, L, trim_approx=True, norm=True),
    'mra2': lambda P, x, w, m, L: P.mra2(x, w, level=L),
    'mra2d': lambda P, x, w, m, L: P.mra2(x, w, level=L, transform='dwt2', mode=m),
    'dwtn': lambda P, x, w, m, L: P.dwtn(x, w, m),
    'dwtna': lambda P, x, w, m, L: P.dwtn(x, w, m, axes=(0,)),
    'wavedecn': lambda P, x, w, m, L: P.wavedecn(x, w, m, level=L),
    'wavedecna': lambda P, x, w, m, L: P.wavedecn(x, w, m, level=L, axes=(-1,)),
    'swtn': lambda P, x, w, m, L: P.swtn(x, w, L),
    'swtnT': lambda P, x, w, m, L: P.swtn(x, w, L, trim_approx=True, axes=(0,)),
    'mran': lambda P, x, w, m, L: P.mran(x, w, level=L),
    'mrand': lambda P, x, w, m, L: P.mran(x, w, level=L, transform='dwtn', mode=m),
    'fsw': lambda P, x, w, m, L: P.fswavedecn(x, w, m, levels=L).coeffs,
    'fswr': lambda P, x, w, m, L: P.fswaverecn(P.fswavedecn(x, w, m, levels=L)),
    'wp': lambda P, x, w, m, L: [n.data for n in P.WaveletPacket(x, w, m, maxlevel=L).get_level(L)],
    'wp2': lambda P, x, w, m, L: [n.data for n in P.WaveletPacket2D(x, w, m, maxlevel=L).get_level(L)],
    'wpn': lambda P, x, w, m, L: [n.data for n in P.WaveletPacketND(x, w, m, maxlevel=L).get_level(L)],
    'wpr': lambda P, x, w, m, L: wprec(P.WaveletPacket(x, w, m, maxlevel=L), L),
    'wp2r': lambda P, x, w, m, L: wprec(P.WaveletPacket2D(x, w, m, maxlevel=L), L),
    'wpnr': lambda P, x, w, m, L: wprec(P.WaveletPacketND(x, w, m, maxlevel=L), L),
}
ONE = ('downa', 'downd', 'upa', 'upd')
TWO = ('dwt2', 'dwt2a', 'wavedec2', 'swt2', 'swt2T', 'mra2', 'mra2d', 'wp2', 'wp2r')
STAT = ('swt', 'swtT', 'swt0', 'mra', 'swt2', 'swt2T', 'mra2', 'swtn', 'swtnT', 'mran')


def wprec(t, L):
    t.get_level(L)
    return t.reconstruct(update=False)


def fwd(E, api, shape, dt, order='C', wav='db2', mode='symmetric', level=1, form=''):
    P = E.pywt
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    w = P.Wavelet(wav)
    f = FWD[api]
    X = E.nested(x) if form == 'list' else x
    o = outdt(dt) if form != 'list' else ('c16' if dt[0] == 'c' else 'f8')
    r, keep = run(E, lambda a: f(P, a, w, mode, level), [X], api, o)
    ref = leaves(f(P, wide(E, x), w, mode, level))
    narrow(E, keep, ref, api, 'f8' if form == 'list' else dt)


INV = {
    # name: (builder of the coefficients from block shapes, call)
    'idwt': (lambda A, L: (A(0), A(0)), lambda P, c, w, m: P.idwt(c[0], c[1], w, m)),
    'idwtA': (lambda A, L: A(0), lambda P, c, w, m: P.idwt(c, None, w, m)),
    'idwtD': (lambda A, L: A(0), lambda P, c, w, m: P.idwt(None, c, w, m)),
    'waverec': (lambda A, L: [A(L - 1)] + [A(j) for j in reversed(range(L))], lambda P, c, w, m: P.waverec(c, w, m)),
    'waverecN': (lambda A, L: [A(L - 1), None] + [A(j) for j in reversed(range(L - 1))], lambda P, c, w, m: P.waverec(c, w, m)),
    'idwt2': (lambda A, L: (A(0), (A(0), A(0), A(0))), lambda P, c, w, m: P.idwt2(c, w, m)),
    'idwt2N': (lambda A, L: (A(0), (A(0), None, A(0))), lambda P, c, w, m: P.idwt2(c, w, m)),
    'waverec2': (lambda A, L: [A(L - 1)] + [(A(j), A(j), A(j)) for j in reversed(range(L))], lambda P, c, w, m: P.waverec2(c, w, m)),
    'waverec2l': (lambda A, L: [A(L - 1)] + [[A(j), None, A(j)] for j in reversed(range(L))], lambda P, c, w, m: P.waverec2(c, w, m)),
    'idwtn': (lambda A, L: {k: A(0) for k in keysn(A)}, lambda P, c, w, m: P.idwtn(c, w, m)),
    'idwtnN': (lambda A, L: {k: (A(0) if i != 1 else None) for i, k in enumerate(keysn(A))}, lambda P, c, w, m: P.idwtn(c, w, m)),
    'waverecn': (lambda A, L: [A(L - 1)] + [{k: A(j) for k in keysn(A)[1:]} for j in reversed(range(L))], lambda P, c, w, m: P.waverecn(c, w, m)),
    'waverecnN': (lambda A, L: [A(L - 1)] + [{k: A(j) for i, k in enumerate(keysn(A)[1:]) if i or A.nd == 1} for j in reversed(range(L))], lambda P, c, w, m: P.waverecn(c, w, m)),
    'iswt': (lambda A, L: [(A(0), A(0)) for j in range(L)], lambda P, c, w, m: P.iswt(c, w)),
    'iswtT': (lambda A, L: [A(0) for j in range(L + 1)], lambda P, c, w, m: P.iswt(c, w, norm=True)),
    'iswt2': (lambda A, L: [(A(0), (A(0), A(0), A(0))) for j in range(L)], lambda P, c, w, m: P.iswt2(c, w)),
    'iswt2T': (lambda A, L: [A(0)] + [(A(0), A(0), A(0)) for j in range(L)], lambda P, c, w, m: P.iswt2(c, w, norm=True)),
    'iswtn': (lambda A, L: [{k: A(0) for k in keysn(A)} for j in range(L)], lambda P, c, w, m: P.iswtn(c, w)),
    'iswtnT': (lambda A, L: [A(0)] + [{k: A(0) for k in keysn(A)[1:]} for j in range(L)], lambda P, c, w, m: P.iswtn(c, w)),
    'imra': (lambda A, L: [A(0) for j in range(L + 1)], lambda P, c, w, m: P.imra(c)),
    'imra2': (lambda A, L: [A(0)] + [(A(0), A(0), A(0)) for j in range(L)], lambda P, c, w, m: P.imra2(c)),
    'imran': (lambda A, L: [A(0)] + [{k: A(0) for k in keysn(A)[1:]} for j in range(L)], lambda P, c, w, m: P.imran(c)),
    'pack': (lambda A, L: [A(L - 1)] + [{k: A(j) for k in keysn(A)[1:]} for j in reversed(range(L))], lambda P, c, w, m: P.coeffs_to_array(c)[0]),
    'pack1': (lambda A, L: [A(L - 1)] + [A(j) for j in reversed(range(L))], lambda P, c, w, m: P.coeffs_to_array(c)[0]),
    'pack2': (lambda A, L: [A(L - 1)] + [(A(j), A(j), A(j)) for j in reversed(range(L))], lambda P, c, w, m: P.coeffs_to_array(c)[0]),
    'ravel': (lambda A, L: [A(L - 1)] + [{k: A(j) for k in keysn(A)[1:]} for j in reversed(range(L))], lambda P, c, w, m: P.ravel_coeffs(c)[0]),
    'ravel2': (lambda A, L: [A(L - 1)] + [(A(j), A(j), A(j)) for j in reversed(range(L))], lambda P, c, w, m: P.ravel_coeffs(c)[0]),
}
INV1 = ('idwt', 'idwtA', 'idwtD', 'waverec', 'waverecN', 'iswt', 'iswtT', 'imra', 'pack1')
INV2 = ('idwt2', 'idwt2N', 'waverec2', 'waverec2l', 'iswt2', 'iswt2T', 'imra2', 'pack2', 'ravel2')
RAW = ('imra', 'imra2', 'imran', 'pack', 'pack1', 'pack2', 'ravel', 'ravel2')     # no precision rule of their own: numpy's


def keysn(A):
    return [''.join(k) for k in product('ad', repeat=A.nd)]


def inv(E, api, shape, dt, order='C', wav='haar', mode='periodization', level=1, mixed=None):
    """coefficients are independent arrays; shape = finest block"""
    P = E.pywt
    w = P.Wavelet(wav)
    n = [0]

    def A(j):
        sh = [s // 2 ** j for s in shape]
        d = dt if mixed is None or n[0] % 2 == 0 else mixed
        n[0] += 1
        return E.arr('c%d' % n[0], tuple(sh), d, order, **lohi(d))
    A.nd = len(shape)
    bld, call = INV[api]
    c = bld(A, level)
    ins = leaves(c)
    dts = [a.dtype.newbyteorder('=').name for a in ins]
    if api in RAW:
        o = str(E.np.result_type(*dts))
        dk = 'f4' if o in ('float32', 'complex64', 'float16') else 'f8'
    else:
        ds = {outdt({'float32': 'f4', 'complex64': 'c8', 'float16': 'f2', 'complex128': 'c16'}.get(d, d)) for d in dts}
        o = ds.pop() if len(ds) == 1 else 'c16' if any(d[0] == 'c' for d in ds) else 'f8'
        # a pair of single-precision blocks is combined in single precision
        dk = 'f4' if any(d in ('float32', 'complex64', 'float16') for d in dts) else 'f8'
    r, keep = run(E, lambda q: call(P, q, w, mode), [c], api, o, alias=True)
    r2 = call(P, conv_struct(c, lambda a: wide(E, a)), w, mode)
    narrow(E, keep, leaves([r2]), api, dk)


def conv_struct(o, f):
    if isinstance(o, dict):
        return {k: conv_struct(v, f) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(conv_struct(v, f) for v in o)
    return o if o is None else f(o)


def unp(E, shape, dt, fmt, order='C', level=2):
    """unpacking and n-D results leave the packed array and the slice lists alone"""
    P = E.pywt
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    w = P.Wavelet('haar')
    c = {'wavedec': P.wavedec, 'wavedec2': P.wavedec2, 'wavedecn': P.wavedecn}[fmt](x, w, 'symmetric', level=level)
    a, sl = P.coeffs_to_array(c)
    run(E, lambda p, q: P.array_to_coeffs(p, q, fmt), [a, sl], 'array_to_coeffs', outdt(dt), alias=False)
    v, sl, sh = P.ravel_coeffs(c)
    run(E, lambda p, q, r: P.unravel_coeffs(p, q, r, fmt), [v, sl, sh], 'unravel_coeffs', outdt(dt), alias=False)


def misc(E, what, dt='f8', order='C', form=''):
    P = E.pywt
    x = E.arr('x', (5,) if what != 'pad2' else (2, 3), dt, order, **lohi(dt))
    if what.startswith('pad'):
        for m in EXTMODES if what == 'pad' else ['symmetric', 'zero']:
            if dt[0] in 'iu' and m in ('smooth', 'antireflect', 'antisymmetric'):
                continue
            wd = [(2, 3)] if what == 'pad' else [(1, 0), (2, 1)]
            run(E, lambda a, q: P.pad(a, q, m), [x, wd], 'pad %s' % m, None)
            run(E, lambda a: P.pad(a, 0, m), [x], 'pad %s by nothing' % m, None)
    elif what == 'qmf':
        c = E.list(x)
        run(E, lambda a: P.qmf(a), [c], 'qmf', None)
        run(E, lambda a: P.qmf(a), [x], 'qmf', None)
    elif what == 'ofb':
        y = E.arr('y', (6,), dt, order, **lohi(dt))
        q = E.list(y)
        E.assume(sum(q[1:], q[0]) > 1)
        run(E, lambda a: P.orthogonal_filter_bank(a), [y], 'orthogonal_filter_bank', None)
        c = E.list(y)
        run(E, lambda a: P.orthogonal_filter_bank(a), [c], 'orthogonal_filter_bank', None)
    elif what == 'bank':
        y = [E.arr('b%d' % i, (4,), 'f8', lo=-1, hi=1) for i in range(4)]
        c = [E.list(b) for b in y] if form == 'list' else y
        s = E.snap(*y)
        st = struct(c)
        W = P.Wavelet('mine', filter_bank=c)
        for f, b in zip((W.dec_lo, W.dec_hi, W.rec_lo, W.rec_hi), y):
            f[0] = 5.0
        E.unchanged(y, s, 'Wavelet filter bank')
        E.check(form == 'list' or st == struct(c), 'Wavelet changes the filter bank container')
        for q, b in zip(W.filter_bank, y):
            E.eq(E.np.array(q), b, 1e-12, 'filters are copies')
            q[1] = 7.0
        for q, b in zip(W.filter_bank, y):
            E.eq(E.np.array(q), b, 1e-12, 'filters handed out are copies')
        k = [objarr(E, b) for b in y]
        for b in y:
            b[...] = 9.0
        for q, b in zip(W.filter_bank, k):
            E.eq(E.np.array(q), b, 1e-12, 'editing the given filters later')
        x1 = E.arr('x1', (6,), 'f8')
        sn = E.snap(x1)
        P.dwt(x1, W)
        E.unchanged([x1], sn)
    elif what == 'order':
        # the caller's axes, modes, wavelets and levels are left alone
        z = E.arr('z', (4, 4), dt)
        ax, ws, ms = [-1, 0], ['haar', 'db2'], ['zero', 'symmetric']
        run(E, lambda a, q, r, s: P.dwtn(a, r, s, axes=q), [z, ax, ws, ms], 'dwtn', None)
        run(E, lambda a, q, r, s: P.wavedecn(a, r, s, level=1, axes=q), [z, ax, ws, ms], 'wavedecn', None)
        run(E, lambda a, q, r, s: P.dwt2(a, r, s, axes=q), [z, ax, ws, ms], 'dwt2', None)
        run(E, lambda a, q, r, s: P.wavedec2(a, r, s, level=1, axes=q), [z, ax, ws, ms], 'wavedec2', None)
        run(E, lambda a, q, r: P.swtn(a, r, 1, axes=q), [z, ax, ws], 'swtn', None)
        run(E, lambda a, q, r: P.swt2(a, r, 1, axes=q), [z, ax, ws], 'swt2', None)
        run(E, lambda a, q, r, s: P.fswavedecn(a, r, s, levels=[1, 1], axes=q).coeffs, [z, ax, ws, ms], 'fswavedecn', None)
        c = P.dwtn(z, 'haar')
        run(E, lambda a, q, r, s: P.idwtn(a, ['haar', 'haar'], s, axes=q), [c, ax, ws, ms], 'idwtn', None)
        c = P.wavedecn(z, 'haar', level=2)
        run(E, lambda a, q, r, s: P.waverecn(a, 'haar', axes=[0, 1]), [c, ax, ws, ms], 'waverecn', None)
        run(E, lambda a, q: P.coeffs_to_array(a, axes=[0, 1])[0], [c, ax], 'coeffs_to_array', None)
        run(E, lambda a, q: P.ravel_coeffs(a, axes=[0, 1])[0], [c, ax], 'ravel_coeffs', None)
    elif what.startswith('thr'):
        m = what[3:]
        y = E.arr('t', (2,), dt, order, **lohi(dt))
        o = dt if dt[0] in 'fc' else None
        if m == 'firm':
            run(E, lambda a: P.threshold_firm(a, 1.5, 2.5), [y], 'threshold_firm', o)
        else:
            run(E, lambda a: P.threshold(a, 2.5, m), [y], 'threshold ' + m, o)
            run(E, lambda a: P.threshold(a, 2.5, m, 7.0), [y], 'threshold ' + m, o)


DTS = ['f8', 'f4', 'c16', 'c8', 'f2', 'i4', 'i8', 'u1', 'i1', 'g']
LAY = LAYOUTS + ['ro', 'swap']


def cases(tier, seed):
    rnd = random.Random(seed)
    T = tier == 'thorough'
    out = []
    k = 0
    W = ['haar', 'db2', 'bior3.1', 'sym3']
    for api in FWD:
        two = api in TWO
        one = api in ONE
        st = api in STAT
        shapes = [[6], [8]] if one else [[4, 4], [2, 4, 4]] if two else [[4], [4, 4]] if st else [[7], [8], [4, 6], [5, 3]]
        if api in ('wp2', 'wp2r'):
            shapes = [[4, 6]]
        combos = [(dt, 'C') for dt in DTS] + [('f8', o) for o in LAY] + [(dt, o) for dt in ('f4', 'c16', 'i4') for o in (LAY if T else rnd.sample(LAY, 2))]
        for dt, o in combos:
            for s in (shapes if T else [rnd.choice(shapes)]):
                k += 1
                L = rnd.choice([1, 2]) if not (st and min(s) < 4) else 1
                w = rnd.choice(W) if not api.startswith('wp') else 'haar'
                out.append(('%s-%s-%s-%d' % (api, dt, o, k), 'fwd', dict(api=api, shape=s, dt=dt, order=o, wav=w, mode=rnd.choice(['symmetric', 'zero', 'periodization', 'smooth']), level=L)))
        if not api.startswith('wp') and not api.startswith('up') and not api.startswith('down'):
            for dt in ('f8', 'c16'):
                k += 1
                out.append(('%s-list-%s' % (api, dt), 'fwd', dict(api=api, shape=rnd.choice(shapes), dt=dt, form='list', level=1)))
    for api in INV:
        shapes = [[4], [8]] if api in INV1 else [[4, 4], [2, 4, 4]] if api in INV2 else [[4], [4, 4]]
        if api in ('waverec2', 'waverec2l', 'pack2', 'ravel2', 'iswt2', 'iswt2T', 'idwt2', 'idwt2N'):
            shapes = [[4, 4]]
        for dt, o in [(dt, 'C') for dt in DTS] + [('f8', o) for o in LAY] + [(dt, o) for dt in ('f4', 'c8') for o in (LAY if T else rnd.sample(LAY, 2))]:
            if api in RAW and (o == 'swap' or dt[0] in 'iu' or dt == 'f2'):
                continue
            k += 1
            s = rnd.choice(shapes)
            out.append(('%s-%s-%s-%d' % (api, dt, o, k), 'inv', dict(api=api, shape=s, dt=dt, order=o, wav=rnd.choice(['haar', 'haar', 'db2']) if api not in RAW else 'haar', level=2 if min(s) >= 4 else 1)))
        for a, b in [('f4', 'f8'), ('f8', 'f4'), ('f8', 'c16'), ('c16', 'f8'), ('c16', 'f4'), ('c8', 'f8'), ('f4', 'c16'), ('i4', 'f4')]:
            k += 1
            s = rnd.choice(shapes)
            out.append(('%s-mix-%s-%s' % (api, a, b), 'inv', dict(api=api, shape=s, dt=a, mixed=b, level=2 if min(s) >= 4 else 1)))
    for fmt, s in [('wavedec', [7]), ('wavedec2', [4, 5]), ('wavedecn', [4, 5]), ('wavedecn', [2, 3, 4])]:
        for dt in ['f8', 'f4', 'c16', 'i4']:
            out.append(('unp-%s-%d-%s' % (fmt, len(s), dt), 'unp', dict(shape=s, dt=dt, fmt=fmt, order=rnd.choice(LAYOUTS), level=1 if len(s) > 2 else 2)))
    for what in ['pad', 'pad2', 'qmf', 'ofb', 'order'] + ['thr' + m for m in ('soft', 'hard', 'garrote', 'greater', 'less', 'firm')]:
        for dt, o in [('f8', 'C'), ('f4', 'C'), ('f8', 'strided'), ('f8', 'ro'), ('f8', 'neg')] + ([('c16', 'C'), ('i4', 'C')] if what not in ('qmf', 'ofb', 'thrgreater', 'thrless') else []):
            out.append(('%s-%s-%s' % (what, dt, o), 'misc', dict(what=what, dt=dt, order=o)))
    for f in ('list', 'arr'):
        out.append(('bank-%s' % f, 'misc', dict(what='bank', form=f)))
    return out
