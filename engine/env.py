"""Check environments.  A check body is one Python function body(E, **cfg).

SymEnv : inputs are symbolic, pywt is the engine-loaded current tree, and
         E.eq / E.check produce proof obligations.
ConEnv : inputs are concrete numpy arrays, pywt is the real built package;
         used to replay counterexamples and validate the encoding.
"""
import math
import warnings
import numpy as np
from fractions import Fraction


class Stop(Exception):
    """abort a body after a structural failure"""


def lay(shape, order):
    """-> (base shape, index) so that base[index] has `shape` in the layout"""
    if order in ('C', 'F', 'ro', 'swap'):
        return shape, None
    if order == 'strided':
        return tuple(2 * s + 1 for s in shape), tuple(slice(1, 2 * s + 1, 2) for s in shape)
    if order == 'neg':
        return shape, tuple(slice(None, None, -1) for s in shape)
    if order == 'T':
        return shape[::-1], 'T'
    if order in ('bc', 'bcl'):       # stride 0 along the first or the last axis
        return (1,) + shape[1:] if order == 'bc' else shape[:-1] + (1,), 'B'
    raise ValueError(order)


class Base:
    scale = 1

    def _sc(self, lo, hi):
        if lo is None:
            lo, hi = -1024, 1024
        self.scale = max(self.scale, abs(lo), abs(hi))
        return lo, hi

    def raises(self, fn, exc=(ValueError, TypeError, IndexError, KeyError, AttributeError), label=''):
        try:
            fn()
        except exc:
            self.ok(label)
            return True
        self.fail('raises', 'expected one of %s: %s' % ([e.__name__ for e in exc], label))
        return False

    def ok(self, label):
        pass

    def check(self, cond, label):
        if not cond:
            self.fail('check', label)
        else:
            self.ok(label)

    def same(self, a, b, label):
        self.check(a == b, '%s: got %r, expected %r' % (label, a, b))

    def shape(self, a, shape, label=''):
        s = tuple(a.shape)
        if s != tuple(shape):
            self.fail('shape', '%s shape %r expected %r' % (label, s, tuple(shape)))
            raise Stop
        self.ok(label)

    def dtype(self, a, dt, label=''):
        if a.dtype != np.dtype(dt):
            self.fail('dtype', '%s dtype %s expected %s' % (label, a.dtype, np.dtype(dt)))
        else:
            self.ok(label)


class ConEnv(Base):
    sym = False

    def __init__(self, pywt, inputs, tolf=0.5):
        self.pywt = pywt
        self.np = np
        self.inputs = inputs
        self.fails = []
        self.actuals = []
        self.nchk = 0
        self.tolf = tolf

    def ok(self, label):
        self.nchk += 1

    def fail(self, kind, label):
        self.fails.append((kind, label))

    def arr(self, name, shape, dtype='f8', order='C', lo=None, hi=None):
        lo, hi = self._sc(lo, hi)
        dt = np.dtype(dtype)
        bs, ix = lay(tuple(shape), order)
        v = np.asarray(self.inputs[name], dtype=complex if dt.kind == 'c' else float)
        if dt.kind in 'iu':
            v = np.round(v)
        if dt.kind == 'b':
            v = v > 0
        if ix == 'T':
            b = v.T.astype(dt, order='C')
            return b.T
        if ix == 'B':
            return np.broadcast_to(v.astype(dt), shape)
        if ix is None:
            if order == 'swap':
                return v.astype(dt.newbyteorder())
            a = v.astype(dt, order='F' if order == 'F' else 'C')
            if order == 'ro':
                a.flags.writeable = False
            return a
        b = np.zeros(bs, dt)
        b[...] = 77 if dt.kind != 'b' else True
        b[ix] = v.astype(dt)
        return b[ix]

    def scalar(self, name, lo=None, hi=None):
        lo, hi = self._sc(lo, hi)
        return float(self.inputs[name])

    def integer(self, name, lo, hi):
        return int(self.inputs[name])

    index = integer

    def cfun(self, name, *args):
        return _cfun(name, args)

    def snap(self, *arrs):
        return [_snapc(a) for a in arrs]

    def unchanged(self, arrs, snaps, label='inputs unchanged'):
        for k, (a, s) in enumerate(zip(arrs, snaps)):
            if not _samec(_snapc(a), s):
                self.fail('mutated', '%s: argument %d' % (label, k))
        self.ok(label)

    def list(self, a):
        """flat python list of elements"""
        return np.asarray(a).reshape(-1).tolist()

    def nested(self, a):
        return np.asarray(a).tolist()

    def eq(self, actual, expected, tol=1e-9, label='', record=True, deg=1):
        tol = tol * self.scale ** deg
        self.nchk += 1
        a = np.asarray(actual)
        e = np.asarray(expected)
        if a.dtype == object:
            a = np.array([complex(x) if isinstance(x, (complex, np.complexfloating)) else float(x) for x in a.reshape(-1)]).reshape(a.shape)
        if e.dtype == object:
            e = np.array([complex(x) if isinstance(x, (complex, np.complexfloating)) else float(x) for x in e.reshape(-1)]).reshape(e.shape)
        if record:
            self.actuals.append([complex(x) for x in a.reshape(-1)])
        if a.shape != e.shape:
            self.fail('shape', '%s shape %r expected %r' % (label, a.shape, e.shape))
            raise Stop
        if not a.size:
            return
        with np.errstate(all='ignore'):
            fin = np.abs(e[np.isfinite(e)])
            if fin.size:
                tol = tol * max(1.0, float(fin.max()) / self.scale ** deg)
            an, en = np.isnan(a), np.isnan(e)
            d = np.asarray(np.abs(a.astype(complex) - e.astype(complex)))
            d[an & en] = 0
            bad = np.asarray(~(d <= tol * self.tolf))
            if np.iscomplexobj(a) or np.iscomplexobj(e):
                pass
            infeq = (a == e)
            bad &= ~infeq
        if bad.any():
            i = np.unravel_index(np.argmax(bad), a.shape)
            self.fail('value', '%s: element %s is %r, expected %r' % (label, tuple(int(q) for q in i), a[i], e[i]))

    def le(self, a, b, tol=0, label=''):
        """a <= b + tol"""
        tol = tol * self.scale
        self.nchk += 1
        if not (a <= b + tol):
            self.fail('le', '%s: %r <= %r violated' % (label, a, b))

    # ------------------------------------------------- histories and schedules
    def fresh(self, fn):
        """fn(pywt) in a child process that has the history of this process so far"""
        import os
        import pickle
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    d = (True, fn(self.pywt))
                except Exception as e:
                    d = (False, e)
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(d, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            d = f.read()
        os.waitpid(pid, 0)
        ok, v = pickle.loads(d)
        if not ok:
            raise v
        return v

    def share(self, *objs):
        pass

    deep = (True, True, False)

    def copies(self, obj):
        import copy
        import pickle
        return [pickle.loads(pickle.dumps(obj)), copy.deepcopy(obj), copy.copy(obj)]

    def choose(self, name, lo, hi):
        return min(max(int(self.inputs.get(name, lo)), lo), hi)

    stress = 0.3

    def interleave(self, fa, fb, every=False):
        """fa() with fb() run at every line of the package's Python code, then both in parallel threads: the first
        results that differ from those of separate runs, otherwise the ordinary ones"""
        import os
        import sys
        import threading
        import time
        ra0, rb0 = fa(), fb()
        pre = os.path.dirname(self.pywt.__file__) + '/'
        st = dict(busy=False, bad=None)

        def bad(x, y):
            return len(x) != len(y) or any(np.shape(p) != np.shape(q) or not np.allclose(p, q, rtol=1e-5, atol=1e-7, equal_nan=True)
                                           for p, q in zip(x, y))

        def line(code, ln):
            if not code.co_filename.startswith(pre):
                return sys.monitoring.DISABLE
            if not st['busy'] and st['bad'] is None:
                st['busy'] = True
                try:
                    rb = fb()
                    if bad(rb, rb0):
                        st['bad'] = rb
                finally:
                    st['busy'] = False
        m = sys.monitoring
        m.use_tool_id(2, 'vcon')
        m.register_callback(2, m.events.LINE, line)
        m.set_events(2, m.events.LINE)
        try:
            ra = fa()
        finally:
            m.set_events(2, 0)
            m.register_callback(2, m.events.LINE, None)
            m.free_tool_id(2)
        if bad(ra, ra0) or st['bad'] is not None:
            return ra, [st['bad'] if st['bad'] is not None else rb0]
        end = time.time() + float(os.environ.get('VERIF_STRESS', self.stress))
        found = []

        def work(f, r0, k):
            while time.time() < end and not found:
                for _ in range(20):
                    try:
                        r = f()
                    except Exception as e:
                        found.append((k, e))
                        return
                    if bad(r, r0):
                        found.append((k, r))
                        return
        iv = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        th = [threading.Thread(target=work, args=((fa, ra0, 0), (fb, rb0, 1))[i % 2]) for i in range(6)]
        try:
            for t in th:
                t.start()
            for t in th:
                t.join()
        finally:
            sys.setswitchinterval(iv)
        if found:
            k, r = found[0]
            if isinstance(r, Exception):
                raise r
            return (r, [rb0]) if k == 0 else (ra0, [r])
        return ra0, [rb0]

    def vcheck(self, cond, label):
        """boolean over symbolic values"""
        self.nchk += 1
        if not bool(cond):
            self.fail('check', label)

    def assume(self, cond):
        if not bool(cond):
            raise Stop

    def const(self, v):
        return float(v)

    def carr(self, v):
        return np.array([float(x) for x in v])

    def sqrt(self, v):
        return math.sqrt(v)

    def opaque_math(self, eps=1e-11):
        pass

    def fun(self, name, x):
        return getattr(math, name)(x)

    def branch(self, cond):
        return bool(cond)


_LIB = []


def _cfun(name, args):
    import ctypes
    import os
    import shutil
    import subprocess
    import tempfile
    if not _LIB:
        d = tempfile.mkdtemp(prefix='vcommon_')
        try:
            so = os.path.join(d, 'c.so')
            root = os.environ.get('VERIF_REPO', '/repo')
            subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(root, 'pywt/_extensions/c/common.c')], check=True)
            _LIB.append(ctypes.CDLL(so))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    f = getattr(_LIB[0], name)
    f.restype = ctypes.c_ubyte if name.endswith('max_level') else ctypes.c_size_t
    return f(*[ctypes.c_size_t(int(a)) if i < 2 else ctypes.c_int(int(a)) for i, a in enumerate(args)])


def _snapc(a):
    if isinstance(a, np.ndarray):
        return ('a', a.copy(order='K'), a.dtype, a.shape, a.strides)
    if isinstance(a, dict):
        return ('d', [(k, _snapc(v)) for k, v in a.items()])
    if isinstance(a, (list, tuple)):
        return (type(a).__name__, [_snapc(v) for v in a], [id(v) for v in a])
    return ('o', repr(a) if not isinstance(a, (int, float, str, type(None), complex)) else a)


def _samec(x, y):
    if x[0] != y[0]:
        return False
    if x[0] == 'a':
        if x[2] != y[2] or x[3] != y[3] or x[4] != y[4]:
            return False
        if x[1].dtype == object:
            return all(p is q for p, q in zip(x[1].reshape(-1), y[1].reshape(-1)))
        return np.array_equal(x[1], y[1], equal_nan=x[1].dtype.kind in 'fc')
    if x[0] == 'd':
        return len(x[1]) == len(y[1]) and all(k1 == k2 and _samec(v1, v2) for (k1, v1), (k2, v2) in zip(x[1], y[1]))
    if x[0] in ('list', 'tuple'):
        return len(x[1]) == len(y[1]) and x[2] == y[2] and all(_samec(p, q) for p, q in zip(x[1], y[1]))
    return x == y
