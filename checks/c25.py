"""C25: copies (copy, deepcopy, pickle) of wavelet objects, packet trees, nodes and decomposition results have the same attributes and give the same results as the originals, and changing a deep copy leaves the original alone."""
from .common import *
import numpy

BOUNDS = ('built-in wavelets of every family (quick: one to three orders of each, thorough: all), custom wavelets with four symbolic filters of up to 5 taps and every setting of the attributes, continuous wavelets with user-set '
          'attributes; packet trees of 1 to 3 dimensions with symbolic data of up to 16 samples and two levels, with assigned, deleted and partially decomposed nodes, every kind of axis')
OUTSIDE = 'pickles written by other versions of the library; the byte format of pickles (the executor runs the copy protocol, the replay and the traces run pickle itself)'
TRACES = dict(quick=60, thorough=200)


def attributes(E, c, w):
    names = ['name', 'dec_lo', 'dec_hi', 'rec_lo', 'rec_hi', 'dec_len', 'rec_len', 'family_number', 'family_name', 'short_family_name', 'orthogonal', 'biorthogonal', 'symmetry', 'vanishing_moments_psi',
             'vanishing_moments_phi']
    if not hasattr(w, 'dec_lo'):
        names = ['name', 'family_number', 'family_name', 'short_family_name', 'orthogonal', 'biorthogonal', 'complex_cwt', 'lower_bound', 'upper_bound', 'center_frequency', 'bandwidth_frequency', 'fbsp_order', 'symmetry']
        E.same(numpy.dtype(c.dt), numpy.dtype(w.dt), 'dtype')
    for n in names:
        p, q = getattr(c, n), getattr(w, n)
        if n[:3] in ('dec', 'rec') and n[3:] != '_len':
            E.eq(E.np.asarray(p), E.np.asarray(q), tol=0, label='copied ' + n, record=False, deg=0)
        else:
            E.same(p, q, 'copied attribute ' + n)


def wav(E, spec, attrs=()):
    P = E.pywt
    spec = tup(spec)
    if isinstance(spec, str):
        w = P.Wavelet(spec)
    else:
        w = P.Wavelet(spec[1], [E.arr('f%d' % k, (spec[2],)) for k in range(4)])
    for k, v in attrs:
        setattr(w, k, v)
    x = E.arr('x', (4,))
    e = P.dwt(x, w)
    wf = isinstance(spec, str) and w.dec_len <= 12
    for c in E.copies(w):
        attributes(E, c, w)
        E.same(type(c), type(w), 'type of the copy')
        r = P.dwt(x, c)
        for k in range(2):
            E.eq(r[k], e[k], tol=0, label='transform with the copy')
        y = P.idwt(x[:2], x[2:], c, 'periodization')
        E.eq(y, P.idwt(x[:2], x[2:], w, 'periodization'), tol=0, label='inverse transform with the copy', record=False)
        if wf:
            p, q = c.wavefun(2), w.wavefun(2)
            E.same(len(p), len(q), 'number of functions')
            for a, b in zip(p, q):
                E.eq(a, b, label='functions of the copy', record=False, deg=0)
        E.same(str(c), str(w), 'description')
        for d in E.copies(c):
            attributes(E, d, w)
        c.orthogonal = not w.orthogonal
        E.same(c.orthogonal, not w.orthogonal, 'the copy is independent')


def cont(E, name, dtype, attrs=()):
    P = E.pywt
    E.opaque_math()
    w = P.ContinuousWavelet(name, {'f4': numpy.float32, 'f8': numpy.float64}[dtype])
    for k, v in attrs:
        setattr(w, k, v)
    x = E.arr('x', (4,))
    tol = 1e-9 if dtype == 'f8' else 1e-5
    e = w.wavefun(length=5)
    t = P.cwt(x, [1.], w)
    for c in E.copies(w):
        attributes(E, c, w)
        for a, b in zip(c.wavefun(length=5), e):
            E.eq(a, b, tol=tol, label='wavelet function of the copy', deg=0)
        for a, b in zip(P.cwt(x, [1.], c), t):
            E.eq(a, b, tol=1e-7, label='transform with the copy', record=False)
        c.lower_bound = -3.5
        E.check(w.lower_bound != -3.5, 'the copy is independent')


def tree(P, nd, data, wavelet, mode, maxlevel, axes):
    k = dict(mode=mode, maxlevel=maxlevel)
    if axes is not None:
        k['axis' if nd == 1 else 'axes'] = axes
    return (P.WaveletPacket, P.WaveletPacket2D, P.WaveletPacketND)[nd - 1](data, wavelet, **k)


def nodes(t, depth=3):
    """existing nodes of a tree: path -> node"""
    out = {t.path: t}
    if depth:
        for p in t.PARTS:
            n = t.get_subnode(p, False)
            if n is not None:
                out.update(nodes(n, depth - 1))
    return out


def packet(E, nd, shape, wavelet='db2', mode='symmetric', maxlevel=2, axes=None, ops=(), empty=False, node=None):
    P = E.pywt
    axes = tup(axes) if isinstance(axes, list) else axes
    x = None if empty else E.arr('x', tup(shape))
    if not isinstance(wavelet, str):
        wavelet = P.Wavelet('mine', [E.arr('f%d' % k, (wavelet[0],)) for k in range(4)])
    t = tree(P, nd, x, wavelet, mode, maxlevel, axes)
    for i, (o, path, sh) in enumerate(ops):
        if o == 'get':
            t[path]
        elif o == 'set':
            t[path] = E.arr('y%d' % i, tup(sh) if sh else t[path].data.shape)
        elif o == 'del':
            del t[path]
        elif o == 'level':
            t.get_level(path)
    src = t if node is None else t[node]
    ns = nodes(src)
    keep = {k: n.data for k, n in ns.items()}
    e = src.reconstruct(update=False) if src.has_any_subnode else src.data
    for c, deep in zip(E.copies(src), E.deep):
        E.same(type(c), type(src), 'type of the copy')
        for a in ('mode', 'axes', 'level', 'path', 'maxlevel', 'node_name'):
            E.same(getattr(c, a), getattr(src, a), 'copied attribute ' + a)
        attributes(E, c.wavelet, src.wavelet)
        cn = nodes(c)
        E.same(sorted(cn), sorted(ns), 'nodes of the copy')
        for k in sorted(ns):
            E.same(cn[k].level, ns[k].level, 'level of node')
            if keep[k] is None:
                E.check(cn[k].data is None, 'empty node of the copy')
            else:
                E.eq(cn[k].data, keep[k], tol=0, label='data of node ' + k, record=False)
        if e is not None:
            r = c.reconstruct(update=False) if c.has_any_subnode else c.data
            E.eq(r, e, label='reconstruction from the copy')
        if c.has_any_subnode and deep:        # the copy is a tree of its own
            p = [k for k in sorted(cn) if cn[k].data is not None and cn[k] is not c]
            if p:
                cn[p[-1]].data = cn[p[-1]].data * 2 + 1
                c.reconstruct(update=True)
            for k in sorted(ns):
                if keep[k] is not None:
                    E.eq(ns[k].data, keep[k], tol=0, label='original after the copy was changed', record=False)
        elif not c.has_any_subnode and c.data is not None and c.level < c.maxlevel:
            for q, z in zip(c.decompose() if nd < 3 else [c[k] for k in sorted(c.PARTS)], src.decompose() if nd < 3 else [src[k] for k in sorted(src.PARTS)]):
                E.eq(q.data, z.data, label='decomposition of the copy', record=False)
            for k in list(src.PARTS):
                src._delete_node(k)


def fsw(E, shape, wavelet, axes, levels):
    P = E.pywt
    x = E.arr('x', tup(shape))
    r = P.fswavedecn(x, wavelet, levels=levels, axes=tup(axes))
    e = P.fswaverecn(r)
    for c in E.copies(r):
        E.eq(c.coeffs, r.coeffs, tol=0, label='coefficients of the copy')
        for a in ('coeff_slices', 'wavelet_names', 'modes', 'axes', 'levels', 'ndim', 'ndim_transform'):
            E.same(getattr(c, a), getattr(r, a), 'copied attribute ' + a)
        E.eq(P.fswaverecn(c), e, label='reconstruction from the copy', record=False)
    w = P.wavedecn(x, wavelet, level=1)
    a, s = P.coeffs_to_array(w)
    for c in E.copies((a, s)):
        for p, q in zip(P.array_to_coeffs(*c), w):
            for k in sorted(q) if isinstance(q, dict) else [Ellipsis]:
                E.eq(p[k], q[k], tol=0, label='coefficients from copied slices', record=False)


def cases(tier, seed):
    out = []
    names = ['haar', 'db1', 'db2', 'db7', 'db38', 'sym2', 'sym5', 'coif1', 'coif17', 'bior1.1', 'bior2.2', 'bior6.8', 'rbio1.3', 'rbio4.4', 'dmey'] if tier == 'quick' else DISCRETE
    for n in names:
        out.append(('wav-' + n, 'wav', dict(spec=n)))
    for o in (0, 1):
        for b in (0, 1):
            for n in ('db2', 'bior2.2') if tier == 'quick' else ('haar', 'db2', 'bior2.2', 'rbio3.1', 'dmey'):
                out.append(('wavset-%s-%d%d' % (n, o, b), 'wav', dict(spec=n, attrs=[['orthogonal', o], ['biorthogonal', b]])))
            for n, l in (('mine', 2), ('db2', 4), ('', 5), ('Mixed Case', 3)):
                out.append(('custom-%s-%d-%d%d' % (n, l, o, b), 'wav', dict(spec=['bank', n, l], attrs=[['orthogonal', o], ['biorthogonal', b]])))
    cw = [('gaus1', ()), ('gaus8', ()), ('mexh', ()), ('morl', ()), ('cgau3', ()), ('shan1.5-1.0', ()), ('fbsp2-1.0-0.5', ()), ('cmor1.5-1.0', ()),
          ('mexh', [['lower_bound', -2.5], ['upper_bound', 3.]]), ('gaus2', [['upper_bound', 4.]]), ('mexh', [['upper_bound', 12.], ['lower_bound', 9.]]), ('morl', [['lower_bound', -12.], ['upper_bound', -9.]]), ('cmor1.5-1.0', [['bandwidth_frequency', .5]]), ('cmor1.5-1.0', [['center_frequency', 2.], ['lower_bound', -4.]]),
          ('shan0.5-1.0', [['bandwidth_frequency', 2.], ['center_frequency', .25]]), ('fbsp1-1.5-1.0', [['fbsp_order', 3]]), ('fbsp1-1.5-1.0', [['fbsp_order', 2], ['center_frequency', .75]]),
          ('morl', [['orthogonal', 1], ['biorthogonal', 1]])]
    for n, a in cw:
        for d in ('f8', 'f4'):
            out.append(('cont-%s-%s-%s' % (n, '.'.join(k for k, v in a), d), 'cont', dict(name=n, dtype=d, attrs=list(a))))
    o0, o1 = [], [['level', 2, None]]
    trees = [(1, (8,), None), (1, (7,), None), (1, (3, 8), None), (1, (8, 3), 0), (1, (3, 8), -1), (2, (4, 6), None), (2, (2, 4, 5), None), (2, (4, 2, 4), (0, 2)), (2, (4, 4), (1, 0)), (3, (4, 4), None), (3, (4, 4), (0,)),
             (3, (2, 4, 4), (2, 0))]
    for nd, s, ax in trees:
        k = len(ax or s) if nd == 3 else 2
        a, b = ('a', 'd') if nd < 3 else ('a' * k, 'a' * (k - 1) + 'd')
        ol = dict(fresh=[], full=[['level', 2 if nd == 1 else 1, None]], part=[['get', a + b, None]] if nd == 1 or max(s) > 5 else [['get', a, None]],
                  set=[['set', b, None]], setdel=[['get', a, None], ['set', a, None], ['del', b, None]], del1=[['get', a, None], ['del', a, None]])
        for nm, o in ol.items():
            for m in ('symmetric', 'periodization') if tier == 'quick' else ('symmetric', 'periodization', 'zero', 'constant', 'smooth', 'periodic', 'reflect', 'antisymmetric', 'antireflect'):
                if tier == 'quick' and m != 'symmetric' and nm not in ('full', 'set'):
                    continue
                out.append(('packet-%d-%s-%s-%s-%s' % (nd, 'x'.join(map(str, s)), ax, nm, m), 'packet',
                            dict(nd=nd, shape=list(s), wavelet='haar' if nd > 1 else 'db2', mode=m, maxlevel=2, axes=list(ax) if isinstance(ax, tuple) else ax, ops=o)))
        out.append(('packet-%d-%s-%s-node' % (nd, 'x'.join(map(str, s)), ax), 'packet',
                    dict(nd=nd, shape=list(s), wavelet='haar', maxlevel=2, axes=list(ax) if isinstance(ax, tuple) else ax, ops=[['get', a, None]], node=b)))
    for nd, sh in ((1, [4]), (2, [3, 3])):
        out.append(('packet-%d-empty' % nd, 'packet', dict(nd=nd, shape=None, wavelet='haar', mode='zero', maxlevel=1, ops=[['set', 'a', sh], ['set', 'd', sh]], empty=True)))
        out.append(('packet-%d-empty1' % nd, 'packet', dict(nd=nd, shape=None, wavelet='haar', mode='zero', maxlevel=2, ops=[['set', 'd', sh]], empty=True)))
        out.append(('packet-%d-empty0' % nd, 'packet', dict(nd=nd, shape=None, wavelet='haar', mode='zero', maxlevel=2, ops=[], empty=True)))
        out.append(('packet-%d-bank' % nd, 'packet', dict(nd=nd, shape=[8] if nd == 1 else [4, 4], wavelet=[3], maxlevel=2 if nd == 1 else 1, ops=[['get', 'a', None], ['set', 'd', None]])))
    for s, w, ax, lv in (([4, 6], 'haar', [0, 1], 1), ([4, 6], 'db2', [1, 0], 1), ([3, 4], 'bior2.2', [1], 1), ([8, 4], 'haar', [0, 1], [2, 1])):
        out.append(('fsw-%s-%s-%s' % ('x'.join(map(str, s)), w, ''.join(map(str, ax))), 'fsw', dict(shape=s, wavelet=w, axes=ax, levels=lv)))
    return out
