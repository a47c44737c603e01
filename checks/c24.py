"""C24: every call is a pure function of its arguments: sequences of calls (other wavelets, modes, sizes and dtypes in between, failing calls, shared objects, arguments edited in place between calls, earlier results overwritten) give what each call gives on a newly loaded package, and a call preempted at any point by another call in another thread, on the same objects or others, returns what it returns alone, as does the other."""
import numpy

from .common import *

BOUNDS = ('about 40 public operations (discrete, stationary, separable, packet, continuous, thresholding, packing, sampling); data symbolic, lengths <= 16 and arrays of up to 3 axes of length <= 4; histories of up to eight calls over two argument '
          'sets which differ in wavelet (same name with other filters or parameters included), mode, level, dtype, size or data; schedules: two threads, one preemption of the first call at a symbolic event (any line of the Python and Cython layers, any '
          'C function entry, any access to C memory that outlives the call or belongs to the shared wavelet), the other call running to completion there; also the other call at the first two visits of every such program point of one execution')
OUTSIDE = 'more than two threads, more than one preemption by different calls, packet trees shared between threads (mutable objects), weak-memory effects, changes made by the user to the package itself, lists that are documented attributes of the package (Modes.modes)'
ASSUMPTIONS = 'statements of the Cython layer and accesses to memory private to a call are atomic with respect to other threads (they commute)'
FORK_JOBS = True
STRESS = 6
MAX_REPLAY = 8
MAX_PATHS = 3000
CASE_LIMIT = dict(quick=200, thorough=600)
TRACES = dict(quick=40, thorough=80)

BANKS = {'A': [[.25, .75, .75, -.25], [.25, .5, -.5, .25], [-.25, .75, .5, .25], [.5, -.75, .25, -.25]],
         'B': [[.5, .25, -.125, .75], [.5, -.5, .25, -.25], [.75, .25, .5, -.5], [-.25, .5, -.25, .75]],
         'C': [[.5, .25], [.75, -.5], [.25, .5], [-.5, .25]]}


def mk(P, get, spec):
    """wavelet object, shared by all calls of a sequence that name it"""
    spec = tup(spec)
    if isinstance(spec, str):
        return get(('w', spec), lambda: P.Wavelet(spec))
    if spec[0] == 'name':
        return spec[1]
    if spec[0] == 'bank':
        return get(('w', spec), lambda: P.Wavelet(spec[1], BANKS[spec[2]]))
    if spec[0] == 'cont' and getattr(get, 'pin', False):
        def new():
            w = P.ContinuousWavelet(spec[1], numpy.dtype(spec[2]))
            for k, v in (spec[3] if len(spec) > 3 else ()):
                setattr(w, k, v)
            return w
        return get(spec, new)
    if spec[0] == 'cont':           # a shared object whose attributes the caller changes between calls
        w = get(('c', spec[1], spec[2] if len(spec) > 2 else ''), lambda: P.ContinuousWavelet(spec[1], *[numpy.dtype(s) for s in spec[2:3]]))
        for k, v in (spec[3] if len(spec) > 3 else ()):
            setattr(w, k, v)
        return w
    if spec[0] == 'tuple':
        return tuple(mk(P, get, s) for s in spec[1:])
    raise KeyError(spec)


def L(*a):
    """flat list of the arrays in nested results"""
    out = []
    for x in a:
        if isinstance(x, dict):
            for k in sorted(x):
                out += L(x[k])
        elif isinstance(x, (list, tuple)):
            out += L(*x)
        elif x is not None:
            out.append(x)
    return out


def op(P, get, name, x, v):
    g = dict(v)
    w = mk(P, get, g.pop('w')) if 'w' in g else None
    m = g.pop('mode', 'symmetric')
    ax = g.pop('axes', None)
    ax = {} if ax is None else dict(axes=tup(ax))
    f = getattr(P, name, None)
    if name in ('dwt', 'dwt2'):
        return L(f(x, w, mode=m))
    if name == 'dwtn':
        return L(f(x, w, mode=m, **ax))
    if name == 'idwt':
        return L(f(x[:x.shape[0] // 2], x[x.shape[0] // 2:], w, mode=m))
    if name == 'idwt2':
        return L(f((x, (x, None, x)), w, mode=m))
    if name == 'idwtn':
        return L(f({'aa': x, 'ad': x, 'dd': x}, w, mode=m))
    if name in ('wavedec', 'wavedec2'):
        return L(f(x, w, mode=m, level=g.get('level')))
    if name == 'wavedecn':
        return L(f(x, w, mode=m, level=g.get('level'), **ax))
    if name == 'waverec':
        n = x.shape[0] // 4
        return L(f([x[:n], x[n:2 * n], x[2 * n:]], P.Wavelet('haar') if g.get('haar') else w, mode='periodization'))
    if name == 'fswavedecn':
        r = f(x, w, mode=m, levels=g.get('level'))
        return L(r.coeffs, P.fswaverecn(r))
    if name in ('swt', 'swt2', 'swtn'):
        return L(f(x, w, level=g.get('level', 1), start_level=g.get('start', 0), norm=g.get('norm', False), trim_approx=g.get('trim', False)))
    if name == 'iswt':
        n = x.shape[0] // 2
        return L(f([x[:n], x[n:]], w, norm=g.get('norm', False)))
    if name == 'iswtn':
        return L(f([{'a': x, 'd': x[::-1]}, {'d': x}], w, axes=(0,), norm=g.get('norm', False)))
    if name in ('mra', 'mra2', 'mran'):
        return L(f(x, w, level=g.get('level', 1), transform=g.get('tr', 'dwt' + name[3:])))
    if name == 'downcoef':
        return L(f(g.get('part', 'a'), x, w, mode=m, level=g.get('level', 1)))
    if name == 'upcoef':
        return L(f(g.get('part', 'a'), x, w, level=g.get('level', 1), take=g.get('take', 0)))
    if name == 'pad':
        return L(f(x, g.get('pw', 2), m))
    if name == 'threshold':
        return L(f(x, g['value'], mode=g['rule'], substitute=g.get('sub', 0)))
    if name == 'threshold_firm':
        return L(f(x, g['lo'], g['hi']))
    if name == 'packet':
        t = {1: P.WaveletPacket, 2: P.WaveletPacket2D}[x.ndim](x, w, mode=m, maxlevel=g.get('level', 2))
        nodes = t.get_level(g.get('level', 2), 'natural') if x.ndim == 1 else t.get_level(1, 'natural')
        out = [n.data for n in nodes]
        t2 = type(t)(None, w, mode=m, maxlevel=g.get('level', 2))
        for n in nodes:
            t2[n.path] = n.data
        return L(out, t2.reconstruct(update=False))
    if name == 'packetn':
        t = P.WaveletPacketND(x, w, mode=m, maxlevel=1)
        return L([n.data for n in t.get_level(1)])
    if name == 'cwt':
        return L(f(x, g['scales'], w, sampling_period=g.get('sp', 1.), method=g.get('method', 'conv'), axis=g.get('axis', -1)))
    if name == 'wavefun':
        return L(w.wavefun(level=g['level']) if g.get('len') is None else w.wavefun(level=g['level'], length=g['len']))
    if name == 'integrate':
        return L(P.integrate_wavelet(w, precision=g['level']))
    if name == 'central':
        return L(P.scale2frequency(w, g.get('scale', 1), precision=g['level']))
    if name == 'attrs':
        return L(list(w.filter_bank), list(w.inverse_filter_bank), w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi, w.dec_len, w.rec_len, w.vanishing_moments_psi, w.vanishing_moments_phi,
                 int(w.orthogonal), int(w.biorthogonal))
    if name == 'pack':
        c = P.wavedec2(x, w, mode=m, level=g.get('level', 1))
        a, s = P.coeffs_to_array(c, padding=g.get('pad', 0))
        r = P.ravel_coeffs(c)
        return L(a, r[0], P.array_to_coeffs(a, s, 'wavedec2'), P.unravel_coeffs(*r, output_format='wavedec2'))
    if name == 'sizes':
        return L(P.dwt_max_level(g['n'], w), P.dwt_coeff_len(g['n'], w, m), P.swt_max_level(g['n'] * 2), P.dwtn_max_level((g['n'], g['n'] + 3), w),
                 [P.wavedecn_size(P.wavedecn_shapes((g['n'], 5), w, mode=m, level=1))])
    if name == 'bank':
        return L(list(P.orthogonal_filter_bank(g['s'])), P.qmf(g['s']))
    raise KeyError(name)


def bad(E, P, get, name, x, v):
    """a call that fails part of the way"""
    for b in (dict(v, mode='nonsense'), dict(v, level=-3), dict(v, rule='nonsense'), dict(v, method='nonsense')):
        if set(b) == set(v):
            try:
                op(P, get, name, x, b)
            except (ValueError, TypeError, AttributeError, OverflowError, RuntimeError):
                pass


def num(E, a):
    return hasattr(a, 'shape') and not isinstance(a, (int, float, complex)) and len(a.shape)


def data(E, nm, shape, dtype):
    return None if shape is None else E.arr(nm, tup(shape), dtype, **(lohi(dtype) if dtype[0] in 'iu' or dtype == 'f2' else {}))


def nothing(k, mkv):
    return mkv()


def hist(E, name, v1, v2, sh1, sh2, dt1='f8', dt2=None, op2=None, tol=1e-9):
    E.opaque_math()
    P = E.pywt
    dt2 = dt2 or dt1
    op2 = op2 or name
    x = data(E, 'x', sh1, dt1)
    y = data(E, 'y', sh2, dt2)
    e1 = E.fresh(lambda Q: op(Q, nothing, name, x, v1))
    e2 = E.fresh(lambda Q: op(Q, nothing, op2, y, v2))
    S = {}

    def get(k, mkv):
        if k not in S:
            S[k] = mkv()
        return S[k]

    def cmp(r, e, label):
        E.same(len(r), len(e), label + ' number of results')
        for k, (p, q) in enumerate(zip(r, e)):
            if num(E, p) and hasattr(q, 'dtype'):
                E.dtype(p, q.dtype, label)
            E.eq(p, q, tol=tol, label='%s result %d' % (label, k), deg=0 if sh1 is None else 1)
    r1 = op(P, get, name, x, v1)
    cmp(r1, e1, 'first call')
    s1 = E.snap(*r1)
    r2 = op(P, get, op2, y, v2)
    cmp(r2, e2, 'second call with other arguments')
    E.unchanged(r1, s1, 'earlier results')
    bad(E, P, get, name, x, v1)
    r1b = op(P, get, name, x, v1)
    cmp(r1b, e1, 'first call repeated')
    cmp(op(P, get, op2, y, v2), e2, 'second call repeated')
    E.unchanged(r1, s1, 'earlier results')
    # the caller overwrites what was returned
    for r in r1 + r2 + r1b:
        if num(E, r) and not isinstance(r, list) and r.flags.writeable:
            r[...] = 55
    if x is not None:
        cmp(op(P, get, name, x, v1), e1, 'call after earlier results were overwritten')
        if tup(sh1) == tup(sh2) and dt1 == dt2 and op2 == name:
            e3 = E.fresh(lambda Q: op(Q, nothing, name, y, v1))
            x[...] = y
            cmp(op(P, get, name, x, v1), e3, 'call after the data was edited in place')
    else:
        cmp(op(P, get, name, x, v1), e1, 'call after earlier results were overwritten')


def inter(E, name, v1, v2, sh1, sh2, dt1='f8', dt2=None, op2=None, tol=1e-9, every=False, same=False):
    E.opaque_math()
    P = E.pywt
    op2 = op2 or name
    x = data(E, 'x', sh1, dt1)
    y = x if same else data(E, 'y', sh2, dt2 or dt1)
    S = {}

    def get(k, mkv):
        if k not in S:
            S[k] = mkv()
        return S[k]
    get.pin = True
    fa = lambda: op(P, get, name, x, v1)
    fb = lambda: op(P, get, op2, y, v2)
    ra0, rb0 = fa(), fb()
    E.share(*S.values())
    ra, rbs = E.interleave(fa, fb, every)
    deg = 0 if sh1 is None else 1
    for j, (r, e, label) in enumerate([(ra, ra0, 'preempted call')] + [(rb, rb0, 'preempting call') for rb in rbs]):
        E.same(len(r), len(e), label + ' number of results')
        for k, (p, q) in enumerate(zip(r, e)):
            E.eq(p, q, tol=tol, label='%s result %d' % (label, k), deg=deg, record=j < 2)


def queries(E, which):
    """what query functions return belongs to the caller"""
    P = E.pywt
    x = E.arr('x', (4,))
    w = P.Wavelet('db2')
    u = P.Wavelet('mine', BANKS['A'])

    def look():
        fam = [list(P.wavelist(f)) for f in ('db', 'haar', 'bior', 'cmor')] + [list(P.wavelist(kind=k)) for k in ('all', 'discrete', 'continuous')]
        return fam + [list(P.families()), list(P.families(short=False)), list(P.Modes.modes),
                list(w.dec_lo), list(w.rec_hi), [list(a) for a in w.filter_bank], [list(a) for a in w.inverse_filter_bank], list(u.dec_lo), [list(a) for a in u.filter_bank],
                w.name, w.family_name, str(u), list(P.DiscreteContinuousWavelet('db2').dec_lo)]

    def spoil():
        for l in (P.wavelist(), P.wavelist(kind='continuous'), P.wavelist(kind='discrete'), P.wavelist('db'), P.wavelist('haar'), P.wavelist('bior'), P.wavelist('cmor'), P.families(), P.families(short=False), w.dec_lo, w.rec_hi, w.dec_hi, u.dec_lo, u.rec_lo):
            if isinstance(l, list):
                l[:] = [7] * 3
        for b in (w.filter_bank, w.inverse_filter_bank, u.filter_bank, u.inverse_filter_bank):
            for a in b:
                if isinstance(a, list):
                    a[:] = [9.0]
                elif hasattr(a, 'flags') and a.flags.writeable:
                    a[...] = 9.0
    e = E.fresh(lambda Q: L(Q.dwt(x, Q.Wavelet('db2')), Q.dwt(x, Q.Wavelet('mine', BANKS['A']))))
    a = look()
    spoil()
    b = look()
    for k, (p, q) in enumerate(zip(a, b)):
        E.same(p, q, 'query %d' % k)
    for p, q in zip(L(P.dwt(x, w), P.dwt(x, u)), e):
        E.eq(p, q, label='transform after the query results were overwritten')


def bankargs(E, how):
    """filters given to a wavelet object are copied"""
    P = E.pywt
    x = E.arr('x', (6,))
    fb = [E.np.asarray(f) if how == 'array' else list(f) for f in BANKS['A']]
    e = E.fresh(lambda Q: L(Q.dwt(x, Q.Wavelet('mine', BANKS['A'])), Q.idwt(x, x, Q.Wavelet('mine', BANKS['A']))))
    w = P.Wavelet('mine', tuple(fb) if how != 'object' else type('Bank', (), {'filter_bank': property(lambda s: fb)})())
    for f in fb:
        for k in range(4):
            f[k] = 0.0
    for p, q in zip(L(P.dwt(x, w), P.idwt(x, x, w)), e):
        E.eq(p, q, label='transform after the given filters were edited')


W2 = ('bank', 'mine', 'A'), ('bank', 'mine', 'B')
CM = ('cont', 'cmor1.5-1.0', 'f8', (('bandwidth_frequency', 1.5), ('center_frequency', 1.))), ('cont', 'cmor1.5-1.0', 'f8', (('bandwidth_frequency', .5), ('center_frequency', .25)))
GA = ('cont', 'gaus1', 'f8'), ('cont', 'gaus2', 'f8')
MX = ('cont', 'mexh', 'f8', (('lower_bound', -8.), ('upper_bound', 8.))), ('cont', 'mexh', 'f8', (('lower_bound', -2.), ('upper_bound', 3.)))


def pairs():
    """(tag, op, variant 1, variant 2, shape 1, shape 2, dtype 1, dtype 2)"""
    b1, b2 = dict(w=W2[0]), dict(w=W2[1])
    r = []

    def a(tag, name, v1, v2, s1, s2=None, d1='f8', d2='f8', **k):
        r.append((tag, name, v1, v2, s1, s2 or s1, d1, d2, k))
    for nm, s in (('dwt', (6,)), ('dwt', (3, 4)), ('dwtn', (4, 3)), ('idwt', (8,)), ('idwt2', (4, 4)), ('idwtn', (4, 4)), ('wavedec', (12,)), ('wavedec2', (6, 5)), ('wavedecn', (6, 4)),
                  ('waverec', (8,)), ('fswavedecn', (4, 6)), ('swt', (8,)), ('swt2', (4, 4)), ('swtn', (4, 2)), ('iswt', (8,)), ('iswtn', (4,)), ('mra', (8,)), ('mra2', (4, 4)),
                  ('mran', (4, 4)), ('downcoef', (7,)), ('upcoef', (5,)), ('packet', (8,)), ('packet', (4, 4)), ('packetn', (4, 4)), ('pack', (5, 6))):
        lv = {} if nm in ('dwt', 'dwtn', 'idwt', 'idwt2', 'idwtn', 'waverec', 'iswt', 'iswtn', 'packet', 'packetn') else dict(level=1)
        a('bank', nm, dict(b1, **lv), dict(b2, **lv), s)
        a('name', nm, dict(w=('name', 'db2'), **lv), dict(w=('name', 'haar'), **lv), s)
    for nm, s, s2 in (('dwt', (6,), (3,)), ('dwtn', (4, 3), (3, 4)), ('wavedec', (9,), (12,)), ('swt', (4,), (8,)), ('idwt', (8,), (12,)), ('fswavedecn', (4, 3), (3, 4)), ('wavedecn', (4, 5), (2, 3, 4)),
                      ('upcoef', (3,), (5,)), ('packet', (8,), (4,)), ('mra', (8,), (5,))):
        a('size', nm, dict(w='haar'), dict(w='haar'), s, s2)
        a('dtype', nm, dict(w='db2') if nm not in ('swt',) else dict(w='haar'), dict(w='db2') if nm != 'swt' else dict(w='haar'), s, s, 'f4', 'f8')
        a('cplx', nm, dict(w='haar'), dict(w='haar'), s, s, 'c16', 'f8')
    for nm, s in (('dwt', (5,)), ('dwtn', (3, 4)), ('wavedec', (9,)), ('idwt', (8,)), ('pad', (4,)), ('downcoef', (6,)), ('fswavedecn', (4, 4))):
        a('mode', nm, dict(w='db2', mode='symmetric'), dict(w='db2', mode='periodization' if nm != 'pad' else 'reflect'), s)
        a('mode2', nm, dict(w='db2', mode='zero'), dict(w='db2', mode='smooth'), s)
    a('int', 'dwt', dict(w='haar'), dict(w='haar'), (4,), (4,), 'i8', 'f8')
    for nm, s in (('wavedec', (16,)), ('swt', (8,)), ('mra', (8,)), ('upcoef', (4,)), ('downcoef', (9,)), ('wavedec2', (8, 8)), ('fswavedecn', (8, 4))):
        a('level', nm, dict(w='haar', level=1), dict(w='haar', level=2), s)
    a('start', 'swt', dict(w='haar', level=1), dict(w='haar', level=1, start=1), (8,))
    a('norm', 'swt', dict(w='db2', level=2), dict(w='db2', level=2, norm=True, trim=True), (8,))
    a('norm', 'swtn', dict(w='db2', level=1), dict(w='db2', level=1, norm=True), (4, 4))
    a('norm', 'swt2', dict(w='db2', level=1, norm=True), dict(w='db2', level=1), (4, 4))
    a('norm', 'iswt', dict(w='db2'), dict(w='db2', norm=True), (8,))
    a('norm', 'iswtn', dict(w='db2', norm=True), dict(w='db2'), (4,))
    for nm, s in (('swt', (8,)), ('swt2', (4, 4)), ('swtn', (4, 2)), ('iswt', (8,)), ('iswtn', (4,))):
        a('normbank', nm, dict(b1, norm=True), dict(b2, norm=True), s)
        a('normlen', nm, dict(b1, norm=True), dict(w=('bank', 'mine', 'C'), norm=True), s)
    for nm, s in (('mra', (8,)), ('mra2', (2, 2)), ('mran', (2, 2))):
        a('bankswt', nm, dict(b1, tr='swt' + nm[3:]), dict(b2, tr='swt' + nm[3:]), s)
        a('banklen', nm, dict(b1), dict(w=('bank', 'mine', 'C')), s)
    for nm, s in (('dwt', (6,)), ('wavedec', (12,)), ('idwt', (8,)), ('fswavedecn', (4, 4)), ('packet', (8,)), ('downcoef', (7,)), ('upcoef', (5,))):
        a('banklen', nm, dict(b1), dict(w=('bank', 'mine', 'C')), s)
    a('bank1', 'pad', dict(pw=3, mode='antireflect'), dict(pw=1, mode='antisymmetric'), (3,))
    a('part', 'downcoef', dict(w='db2', part='a', level=2), dict(w='db2', part='d', level=2), (9,))
    a('part', 'upcoef', dict(w='db2', part='d', level=2, take=4), dict(w='db2', part='a', level=2, take=5), (4,))
    a('tr', 'mra', dict(w='haar', level=2, tr='swt'), dict(w='haar', level=2, tr='dwt'), (8,))
    a('axes', 'dwtn', dict(w='haar', axes=[0]), dict(w='haar', axes=[-1]), (3, 4))
    a('axes', 'wavedecn', dict(w=['tuple', 'haar', 'db2'], axes=[0, 1], level=1), dict(w=['tuple', 'db2', 'haar'], axes=[1, 0], level=1), (4, 4))
    a('pw', 'pad', dict(pw=2), dict(pw=[[1, 3]]), (4,))
    a('padv', 'pack', dict(w='haar', pad=0, level=2), dict(w='haar', pad=7, level=2), (5, 5))
    for r1 in ('soft', 'hard', 'garrote', 'greater', 'less'):
        a(r1, 'threshold', dict(value=300., rule=r1), dict(value=200., rule=r1, sub=5 if r1 != 'garrote' else 0), (1,))
    a('two', 'threshold_firm', dict(lo=200., hi=300.), dict(lo=100., hi=500.), (1,))
    for t, (c1, c2) in (('attr', CM), ('fam', GA), ('bounds', MX)):
        a(t, 'cwt', dict(w=c1, scales=[1., 2.]), dict(w=c2, scales=[1., 2.]), (6,))
        a(t + 'fft', 'cwt', dict(w=c1, scales=[1.], method='fft'), dict(w=c2, scales=[1.], method='fft'), (5,))
        for nm in ('integrate', 'central'):
            a(t, nm, dict(w=c1, level=4), dict(w=c2, level=4), None)
        a(t, 'wavefun', dict(w=c1, level=2, len=7), dict(w=c2, level=2, len=7), None)
    a('scales', 'cwt', dict(w=GA[0], scales=[1., 3.]), dict(w=GA[0], scales=[2.5]), (6,))
    a('sp', 'cwt', dict(w=GA[0], scales=[1.], sp=.5), dict(w=GA[0], scales=[1.]), (4,))
    a('axis', 'cwt', dict(w=GA[0], scales=[1.], axis=0), dict(w=GA[0], scales=[1.], axis=1), (3, 4))
    a('dtype', 'cwt', dict(w=('cont', 'gaus1', 'f8'), scales=[1.]), dict(w=('cont', 'gaus1', 'f8'), scales=[1.]), (4,), (4,), 'f4', 'f8', tol=1e-4)
    a('cname', 'cwt', dict(w=('name', 'morl'), scales=[2.]), dict(w=('name', 'mexh'), scales=[2.]), (5,))
    a('cname', 'integrate', dict(w=('name', 'cmor1.5-1.0'), level=4), dict(w=('name', 'cmor0.5-1.0'), level=4), None)
    a('prec', 'integrate', dict(w=GA[0], level=4), dict(w=GA[0], level=5), None)
    a('prec', 'central', dict(w=GA[0], level=5), dict(w=GA[0], level=6, scale=2), None)
    a('prec', 'wavefun', dict(w=GA[0], level=3, len=None), dict(w=GA[0], level=4, len=None), None)
    a('single', 'wavefun', dict(w=('cont', 'gaus1', 'f4'), level=3), dict(w=('cont', 'gaus1', 'f8'), level=3), None, tol=1e-6)
    a('dwf', 'wavefun', dict(w=W2[0], level=2), dict(w=W2[1], level=2), None)
    a('dwfl', 'wavefun', dict(w='db2', level=2), dict(w='db2', level=3), None)
    a('dwfn', 'wavefun', dict(w='bior2.2', level=2), dict(w='db2', level=2), None)
    a('dint', 'integrate', dict(w=W2[0], level=3), dict(w=W2[1], level=3), None)
    a('dcen', 'central', dict(w='db2', level=4), dict(w='bior2.2', level=4), None)
    a('bank', 'attrs', dict(w=W2[0]), dict(w=W2[1]), None)
    a('name', 'attrs', dict(w='db2'), dict(w='bior2.2'), None)
    a('sizes', 'sizes', dict(w='db2', n=9), dict(w='haar', n=16), None)
    a('sizem', 'sizes', dict(w=W2[0], n=9, mode='symmetric'), dict(w=('bank', 'mine', 'C'), n=9, mode='periodization'), None)
    a('filt', 'bank', dict(s=[1., 2., 3., 4.]), dict(s=[4., 3., 2., 2.]), None)
    return r


def cases(tier, seed):
    out = []
    ps = pairs()
    for k, (tag, nm, v1, v2, s1, s2, d1, d2, kw) in enumerate(ps):
        sh = '' if s1 is None else 'x'.join(map(str, s1))
        out.append(('hist-%s-%s-%s-%s' % (nm, tag, sh, d1), 'hist', dict(name=nm, v1=v1, v2=v2, sh1=s1, sh2=s2, dt1=d1, dt2=d2, **kw)))
        out.append(('histr-%s-%s-%s-%s' % (nm, tag, sh, d1), 'hist', dict(name=nm, v1=v2, v2=v1, sh1=s2, sh2=s1, dt1=d2, dt2=d1, **kw)))
        if nm in ('sizes', 'bank', 'attrs'):
            continue
        if tier == 'quick' and tag in ('banklen', 'normlen'):
            continue
        out.append(('every-%s-%s-%s-%s' % (nm, tag, sh, d1), 'inter', dict(name=nm, v1=v1, v2=v2, sh1=s1, sh2=s2, dt1=d1, dt2=d2, every=True, **kw)))
        if tier != 'quick':
            out.append(('everyr-%s-%s-%s-%s' % (nm, tag, sh, d1), 'inter', dict(name=nm, v1=v2, v2=v1, sh1=s2, sh2=s1, dt1=d2, dt2=d1, every=True, **kw)))
        small = s1 is None or (nm in ('dwt', 'swt', 'idwt', 'dwtn', 'downcoef', 'upcoef', 'pad', 'iswt', 'waverec', 'idwtn', 'wavedec') and len(s1) <= 2)
        heavy = nm in ('dwtn', 'idwtn') and tag not in ('bank', 'cplx')
        if tier != 'quick' or (small and not heavy and tag in ('bank', 'size', 'dtype', 'mode', 'cplx', 'attr')):
            out.append(('one-%s-%s-%s-%s' % (nm, tag, sh, d1), 'inter', dict(name=nm, v1=v1, v2=v2, sh1=s1, sh2=s2, dt1=d1, dt2=d2, **kw)))
        if d1 == d2 and s1 == s2 and tag in ('bank', 'mode', 'norm', 'attr', 'fam', 'level'):
            out.append(('same-%s-%s-%s-%s' % (nm, tag, sh, d1), 'inter', dict(name=nm, v1=v1, v2=v1 if tag == 'bank' else v2, sh1=s1, sh2=s2, dt1=d1, dt2=d2, every=True, same=True, **kw)))
    # different operations on shared wavelet objects
    b = dict(w=W2[0])
    for p, q, s, t in (('dwt', 'idwt', (6,), (8,)), ('swt', 'dwt', (4,), (5,)), ('dwt', 'attrs', (6,), None), ('idwt', 'upcoef', (8,), (3,)), ('swt', 'iswt', (4,), (8,)), ('wavedec', 'packet', (8,), (8,)),
                       ('swtn', 'dwtn', (4, 4), (3, 4)), ('dwt', 'wavefun', (5,), None)):
        v2 = dict(b, level=2) if q == 'wavefun' else b
        v1 = dict(b, norm=True) if p.startswith('swt') else b
        out.append(('mix-%s-%s' % (p, q), 'hist', dict(name=p, v1=v1, v2=v2, sh1=s, sh2=t, op2=q)))
        out.append(('mixr-%s-%s' % (q, p), 'hist', dict(name=q, v1=v2, v2=v1, sh1=t, sh2=s, op2=p)) if t else ('mixr-%s-%s' % (q, p), 'hist', dict(name=p, v1=v1, v2=v2, sh1=s, sh2=t, op2=q)))
        out.append(('emix-%s-%s' % (p, q), 'inter', dict(name=p, v1=v1, v2=v2, sh1=s, sh2=t, op2=q, every=True)))
    out.append(('queries', 'queries', dict(which=0)))
    for h in ('list', 'array', 'object'):
        out.append(('bankargs-' + h, 'bankargs', dict(how=h)))
    return out
