"""C06: the compiled kernels stay inside their buffers, write every output sample, perform no division by zero or signed
overflow and terminate (CBMC on the kernels of the current tree, modes / coefficient kind / inspected element symbolic, exact buffer
sizes); inputs that they cannot handle are rejected by the public functions before they are reached (symbolic execution of the
Python, Cython and C layers, with every memory access checked)."""
from .common import *

BOUNDS = ('CBMC quick: decomposition N 1..8 x even F 2..8, reconstruction N 1..6 x F 2..8, full reconstruction N 1..5 x F 2..8, stationary N 2..16, level 1..5, '
          'n-D drivers on 3-D arrays up to 3x4x2 with all axes and C/F/permuted layouts; thorough: decomposition N 1..14 x F 2..14, reconstruction N 1..9, F 2..12; '
          'loops unwound completely (unwinding assertions). Engine cases: lengths 1..9, filters 2..16')
OUTSIDE = 'kernels of the continuous wavelets (their values are decided by C21); lengths near 2^63; allocation failure paths'


def rejectshort(E, fn, mode, shape, axis):
    """length-1 axes with reflecting modes never reach the kernels"""
    x = E.arr('x', tup(shape), 'f8')
    pw = E.pywt
    call = dict(dwt=lambda: pw.dwt(x, 'db2', mode, axis=axis),
                dwtn=lambda: pw.dwtn(x, 'db2', mode, axes=(axis,)),
                wavedec=lambda: pw.wavedec(x, 'haar', mode, level=1, axis=axis),
                downa=lambda: pw.downcoef('a', x, 'db2', mode, 1),
                downd=lambda: pw.downcoef('d', x, 'db2', mode, 1),
                dwt_axis=lambda: pw._extensions._dwt.dwt_axis(x, pw.Wavelet('db2'), pw.Modes.from_object(mode), axis))[fn]
    E.raises(call, ValueError, '%s on a length-1 axis with %s' % (fn, mode))


def rejectkernel(E, fn):
    """direct callers of the compiled layer refuse what the kernels cannot handle"""
    pw = E.pywt
    D, S = pw._extensions._dwt, pw._extensions._swt
    w = pw.Wavelet('db2')
    M = pw.Modes
    x = E.arr('x', (4, 6), 'f8')
    e = E.arr('e', (0,), 'f8')
    e2 = E.arr('e2', (3, 0), 'f8')
    v = E.arr('v', (6,), 'f8')
    if fn == 'axis':
        for ax in (2, 7, -3):
            E.raises(lambda: pw.dwt(x, 'db2', axis=ax), ValueError, 'dwt axis %d' % ax)
            E.raises(lambda: pw.idwt(x, x, 'db2', axis=ax), ValueError, 'idwt axis %d' % ax)
            E.raises(lambda: pw.swt(x, 'db2', 1, axis=ax), ValueError, 'swt axis %d' % ax)
            E.raises(lambda: pw.dwtn(x, 'db2', axes=(ax,)), ValueError, 'dwtn axis %d' % ax)
            E.raises(lambda: pw.wavedec(x, 'db2', axis=ax), ValueError, 'wavedec axis %d' % ax)
    elif fn == 'empty':
        E.raises(lambda: D.dwt_single(e, w, M.symmetric), (ValueError, RuntimeError), 'dwt_single empty')
        E.raises(lambda: pw.dwt(e2, 'db2', axis=1), ValueError, 'dwt empty axis')
        E.raises(lambda: pw.downcoef('a', e, 'db2', 'symmetric', 1), (ValueError, RuntimeError), 'downcoef empty')
        E.raises(lambda: pw.swt(e, 'db2', 1), (ValueError, RuntimeError), 'swt empty')
    elif fn == 'mismatch':
        y = E.arr('y', (5,), 'f8')
        z = E.arr('z', (4, 5), 'f8')
        E.raises(lambda: D.idwt_single(v, y, w, M.symmetric), ValueError, 'idwt_single lengths')
        E.raises(lambda: D.idwt_axis(x, z, w, M.symmetric, 1), (ValueError, RuntimeError), 'idwt_axis shapes')
        E.raises(lambda: pw.idwt(None, None, 'db2', axis=1), ValueError, 'idwt of nothing')
    elif fn == 'short':
        w8 = pw.Wavelet('db8')
        E.raises(lambda: D.idwt_single(v, v, w8, M.symmetric), (RuntimeError, ValueError), 'idwt shorter than the filter')
        E.raises(lambda: pw.idwt(v, None, 'db8', 'zero'), (RuntimeError, ValueError), 'idwt shorter than the filter (no details)')
        E.raises(lambda: pw.idwt(x, x, 'db8', 'zero', axis=0), (RuntimeError, ValueError), 'idwt axis shorter than the filter')
    elif fn == 'level':
        for lv in (2, 9):
            E.raises(lambda: S.swt(v, w, lv, 0, False), ValueError, 'swt level %d' % lv)
            E.raises(lambda: S.swt_axis(x, w, lv, 0, 1, False), ValueError, 'swt_axis level %d' % lv)
            E.raises(lambda: pw.swt(v, 'db2', lv), ValueError, 'swt level %d' % lv)
        for lv in (0, -1):
            E.raises(lambda: pw.downcoef('a', v, 'db2', 'symmetric', lv), ValueError, 'downcoef level %d' % lv)
            E.raises(lambda: pw.upcoef('a', v, 'db2', lv), ValueError, 'upcoef level %d' % lv)


def safe(E, n, wav, mode, shape=None, axis=0, dtype='f8', order='C'):
    """whole public path under memory checking: forward then inverse, extreme size combinations"""
    x = E.arr('x', (n,) if shape is None else tup(shape), dtype, order=order)
    a, d = E.pywt.dwt(x, wav, mode, axis=axis)
    f = flen(wav)
    nn = x.shape[axis]
    m = (nn + 1) // 2 if mode == 'periodization' else (nn + f - 1) // 2
    E.check(a.shape[axis] == m and d.shape[axis] == m, 'lengths')
    r = E.pywt.idwt(a, d, wav, mode, axis=axis)
    sl = [slice(None)] * x.ndim
    sl[axis] = slice(0, nn)
    E.eq(r[tuple(sl)], x, tol_of(wav, dtype), 'round trip')


def cases(tier, seed):
    for mode in ('reflect', 'antireflect'):
        for fn in ('dwt', 'dwtn', 'wavedec', 'downa', 'downd', 'dwt_axis'):
            for shape, axis in ((((1,), 0),) if fn.startswith('down') else (((1,), 0), ((3, 1), 1), ((1, 2), 0), ((3, 1), -1))):
                if fn == 'dwt_axis' and axis < 0:
                    continue
                yield 'reject-%s-%s-%s-%d' % (fn, mode, 'x'.join(map(str, shape)), axis), 'rejectshort', dict(fn=fn, mode=mode, shape=shape, axis=axis)
    for fn in ('axis', 'empty', 'mismatch', 'short', 'level'):
        yield 'reject-%s' % fn, 'rejectkernel', dict(fn=fn)
    for wav in ('haar', 'db2', 'db4', 'sym8') if tier == 'quick' else ('haar', 'db2', 'bior1.3', 'db4', 'sym5', 'sym8', 'coif4', 'db20', 'db38'):
        for mode in MODES:
            for n in (1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 7, 9, 16, 33):
                if n == 1 and mode in ('reflect', 'antireflect'):
                    continue
                yield 'safe-%s-%s-%d' % (wav, mode, n), 'safe', dict(n=n, wav=wav, mode=mode)
    for mode in MODES:
        for order in ('C', 'F', 'neg', 'strided'):
            for axis in (0, 1):
                for dt in ('f4', 'c16') if tier == 'quick' else ALLDT:
                    yield 'safe2-%s-%s-%d-%s' % (mode, order, axis, dt), 'safe', dict(n=0, wav='db3', mode=mode, shape=(3, 2), axis=axis, dtype=dt, order=order)


def jobs(tier):
    q = tier == 'quick'
    for F in range(2, 9 if q else 15, 2):
        for N in range(1, 9 if q else 15):
            for per in (0, 1):
                yield ('dec', dict(NN=N, FF=F, PER=per), 'byte')
        for N in range(1, 7 if q else 10):
            for per in (0, 1):
                if not per and 2 * N + 2 <= F:
                    continue
                for wh in (1, 2, 3) if N in (3, 4) or not q else (3,):
                    yield ('idwt', dict(NN=N, FF=F, PER=per, WHICH=wh), 'byte')
        for N in range(1, F // 2):
            yield ('short', dict(NN=N, FF=F), 'byte')
        for N in range(1, 6 if q else 12):
            yield ('rec', dict(NN=N, FF=F), 'byte')
    for N, F in ((2, 2), (1, 6), (5, 4), (4, 6)):
        for per in (0, 1):
            yield ('dec', dict(NN=N, FF=F, PER=per), 'real')
            if per or 2 * N + 2 > F:
                yield ('idwt', dict(NN=N, FF=F, PER=per, WHICH=3), 'real')
    for N in (1, 2, 3, 4, 6, 8, 16) + (() if q else (5, 10, 12, 24, 32)):
        for F in (2, 4, 6) + (() if q else (8, 10)):
            for L in range(0, 6):
                if N % (1 << max(L - 1, 0)) == 0 or L < 3:
                    yield ('swt', dict(NN=N, FF=F, LL=L), 'real' if N == 8 or (N, F) == (4, 4) else 'byte')
    for sh in ((2, 3, 2), (3, 1, 2)) + (() if q else ((1, 4, 3), (3, 4, 2))):
        for ax in range(3):
            for il, ol in ((0, 0), (1, 2)) if q else ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 2), (0, 2)):
                base = dict(S0=sh[0], S1=sh[1], S2=sh[2], AXIS=ax, IL=il, OL=ol)
                for md in (1, 5) if q else (0, 1, 2, 3, 4, 5, 6, 7, 8):
                    if sh[ax] == 1 and md in (6, 8):
                        continue
                    yield ('axis', dict(base, FF=4, MD=md), 'real')
                    for wh in (1, 2, 3):
                        if md != 5 and 2 * sh[ax] + 2 <= 4:
                            continue
                        if q and wh < 3 and (md != 1 or il):
                            continue
                        yield ('axis', dict(base, FF=4, MD=md, IDWT=1, WHICH=wh), 'real')
                if sh[ax] % 2 == 0:
                    yield ('axis', dict(base, FF=4, LL=1, SWT=1), 'real')


def extra(tier, seed, scratch):
    import os
    from engine import cbmc
    d = os.path.join(scratch, 'cbmc')
    os.mkdir(d)
    js = [list(j) for j in jobs(tier)]
    js.sort(key=lambda j: -(j[1].get('NN', 3) * j[1].get('FF', 4) * (3 if j[0] == 'idwt' else 2)))
    res, viol, unrep = cbmc.check(d, js, timeout=100 if tier == 'quick' else 300, budget=330 if tier == 'quick' else 500)
    und = [(cbmc.name(r['job']), r['status'] + ' ' + r.get('note', '')) for r in res if r['status'] in ('timeout', 'error')] + \
          [(cbmc.name(r['job']), 'not reproduced natively: ' + r['what']) for r in unrep]
    return dict(cases=len(res), undecided=und,
                violations=[dict(case=v['case'], what=v['what'], real=v['real'], replay=dict(case=v['case'], cbmc=v['job'], inputs=v['inputs'], real=v['real'])) for v in viol],
                coverage=dict(cbmc=dict(harness_runs=len(res), ok=sum(r['status'] == 'ok' for r in res), vccs=sum(r.get('vccs', 0) for r in res),
                                        vccs_after_simplification=sum(r.get('remaining', 0) for r in res), cbmc_cpu_s=round(sum(r['wall'] for r in res), 1),
                                        undecided=und[:20], flags=' '.join(cbmc.FLAGS))))
