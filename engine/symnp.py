"""Symbolic numpy: SymArray (object storage, virtual dtype) and a proxy for
the numpy module used by the code under analysis."""
import math
import numpy as np
from .sym import round_to, Sx, Cx, SBV, SymBool, Unsupported, UB, fresh
from . import llir

_FLOATS = tuple(np.dtype(t) for t in ('f2', 'f4', 'f8', 'c8', 'c16', 'g', 'G'))


def vdt(a):
    return a.dtype


def _f(x):
    return x


class SymArray(np.ndarray):
    """ndarray of dtype object holding Sx / Cx / python numbers, presenting a
    virtual dtype to the code under analysis."""

    def __array_finalize__(self, obj):
        if obj is not None:
            self._vd = getattr(obj, '_vd', None) or np.dtype('f8')

    # virtual attributes -------------------------------------------------
    @property
    def dtype(self):
        return self._vd

    @property
    def itemsize(self):
        return self._vd.itemsize

    @property
    def nbytes(self):
        return self.size * self._vd.itemsize

    @property
    def strides(self):
        return tuple(s // 8 * self._vd.itemsize for s in np.ndarray.strides.__get__(self))

    @property
    def data(self):
        return _DataToken(self)

    @property
    def real(self):
        if self._vd.kind != 'c':
            return self
        r = emap(lambda v: v.real, self, rdt(self._vd))
        r.flags.writeable = False
        return r

    @real.setter
    def real(self, v):
        v = np.broadcast_to(np.asarray(plain(v)), self.shape)
        if self._vd.kind != 'c':
            self[...] = v
            return
        p = plain(self)
        for i in np.ndindex(*self.shape):
            p[i] = mkc(v[i], p[i].imag)

    @property
    def imag(self):
        if self._vd.kind != 'c':
            r = wrapa(np.zeros(self.shape, object) + 0.0, self._vd)
        else:
            r = emap(lambda v: v.imag, self, rdt(self._vd))
        r.flags.writeable = False
        return r

    @imag.setter
    def imag(self, v):
        if self._vd.kind != 'c':
            raise TypeError('array does not have imaginary part to set')
        v = np.broadcast_to(np.asarray(plain(v)), self.shape)
        p = plain(self)
        for i in np.ndindex(*self.shape):
            p[i] = mkc(p[i].real, v[i])

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dtype = np.dtype(dtype)
        if not np.can_cast(self._vd, dtype, casting):
            raise TypeError('Cannot cast array data from %s to %s' % (self._vd, dtype))
        if dtype == self._vd and not copy and _order_ok(self, order):
            return self
        p = plain(self)
        if dtype.kind in 'fc':
            r = narrowed(np.array(p, dtype=object, order=order, copy=True), self._vd, dtype)
            if self._vd.kind == 'c' and dtype.kind == 'f':
                r2 = emap(lambda v: v.real, r, dtype)
                return r2
            if self._vd.kind in 'biu':
                return wrapa(r, dtype)
            return wrapa(r, dtype)
        if dtype.kind == 'b':
            out = np.empty(self.shape, bool)
            for i in np.ndindex(*self.shape):
                out[i] = bool(p[i] != 0)
            return out
        if dtype.kind in 'iu' and self._vd.kind in 'iu':
            return wrapa(np.array(p, dtype=object, order=order, copy=True), dtype)
        if dtype == object:
            return p.copy()
        if all_concrete(p):
            return concrete(self).astype(dtype)
        raise Unsupported('astype(%s) of symbolic array' % dtype)

    def copy(self, order='C'):
        return wrapa(np.array(plain(self), dtype=object, order=order, copy=True), self._vd)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        if not a and not k:
            return np.ndarray.view(self)
        if len(a) == 1 and not k and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, a[0])
        if 'type' in k and len(k) == 1 and not a:
            return np.ndarray.view(self, k['type'])
        dt = np.dtype(a[0] if a else k['dtype'])
        if dt == self._vd:
            return np.ndarray.view(self)
        raise Unsupported('view as %s' % dt)

    def sum(self, axis=None, dtype=None, out=None, **k):
        return NP.sum(self, axis=axis)

    def conj(self):
        return NP.conj(self)
    conjugate = conj

    def tolist(self):
        return plain(self).tolist()

    def any(self, axis=None, **k):
        return np.any(tobool(self), axis=axis, **k)

    def all(self, axis=None, **k):
        return np.all(tobool(self), axis=axis, **k)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return NP.sum(self, axis=axis) / n

    def __setitem__(self, k, v):
        k = unidx(k)
        if not self.flags.writeable:
            raise ValueError('assignment destination is read-only')
        if isinstance(v, np.ndarray):
            if v.dtype.kind == 'c' and self._vd.kind != 'c':
                v = v.real
            np.ndarray.__setitem__(self, k, narrowed(pyobj(v), v.dtype, self._vd) if isinstance(v, SymArray) else pyobj(v))
        else:
            if hasattr(v, 'asarray'):
                v = v.asarray()
                v = pyobj(v)
            elif isinstance(v, (Cx, complex, np.complexfloating)) and self._vd.kind != 'c':
                raise TypeError("can't convert complex to float")
            elif isinstance(v, (list, tuple)):
                v = pyobj(NP.asarray(v))
            elif isinstance(v, np.generic):
                v = v.item()
            elif isinstance(v, (Sx, Cx)):
                v = narrowed(v, 'c16' if isinstance(v, Cx) else 'f8', self._vd) if self._vd.kind in 'fc' else v
            elif v is None:
                v = float('nan')
            elif isinstance(v, (str,)):
                raise ValueError('could not convert string to float')
            np.ndarray.__setitem__(self, k, v)

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, unidx(k))

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(plain(self).reshape(-1)[0] != 0)

    def __float__(self):
        if self.size == 1:
            return float(plain(self).reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __reduce__(self):
        return (_rebuild, (plain(self).copy(), self._vd))

    # numpy protocols -----------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return do_func(func, args, kwargs)

    def __repr__(self):
        return 'SymArray(%s, %s)' % (self.shape, self._vd)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _rebuild(p, vd):
    return wrapa(p, vd)


class _DataToken:
    def __init__(self, a):
        self.a = a

    @property
    def contiguous(self):
        return self.a.flags.c_contiguous


def unidx(k):
    if isinstance(k, SymArray):
        return tobool(k) if False else _intidx(k)
    if isinstance(k, tuple):
        return tuple(unidx(x) for x in k)
    return k


def _intidx(k):
    raise IndexError('arrays used as indices must be of integer (or boolean) type')


def _order_ok(a, order):
    if order in ('K', 'A', None):
        return True
    if order == 'C':
        return a.flags.c_contiguous
    return a.flags.f_contiguous


def rdt(d):
    return {'c8': np.dtype('f4'), 'c16': np.dtype('f8'), 'c32': np.dtype('g')}.get(d.str[1:], np.dtype('f8')) if d.kind == 'c' else d


def mkc(re, im):
    return Cx(re, im)


def plain(x):
    """SymArray -> plain object ndarray sharing memory"""
    if isinstance(x, SymArray):
        return np.ndarray.view(x, np.ndarray)
    if hasattr(x, 'asarray') and not isinstance(x, np.ndarray):
        return plain(x.asarray())
    return x


def pyobj(x):
    """array -> object ndarray with python scalars"""
    if isinstance(x, SymArray):
        return plain(x)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x.astype(object)
    return x


def wrapa(a, dt):
    a = np.asarray(a)
    if a.dtype != object:
        a = a.astype(object)
    r = np.ndarray.view(a, SymArray)
    r._vd = np.dtype(dt)
    return r


def narrowed(p, src, dst):
    """object array converted from dtype src to dst"""
    src, dst = np.dtype(src), np.dtype(dst)
    if dst.str[1:] not in ('f2', 'f4', 'c8') or np.can_cast(src, dst, 'safe') or src.kind == 'c' and np.can_cast(src, np.result_type(dst, 'c8'), 'safe'):
        return p
    if not isinstance(p, np.ndarray):
        return round_to(p, dst.str[1:])
    out = np.empty(p.shape, object, order='F' if p.flags.f_contiguous and not p.flags.c_contiguous else 'C')
    for i in np.ndindex(*p.shape):
        out[i] = round_to(p[i], dst.str[1:])
    return out


def emap(f, a, dt):
    p = plain(a)
    out = np.empty(p.shape, object)
    of = out.reshape(-1)
    for i, v in enumerate(p.ravel()):
        of[i] = f(v)
    return wrapa(out, dt)


def all_concrete(p):
    for v in plain(p).ravel():
        if isinstance(v, Sx):
            if not v.is_const():
                return False
        elif isinstance(v, Cx):
            for q in (v.re, v.im):
                if isinstance(q, Sx) and not q.is_const():
                    return False
    return True


def concrete(a):
    p = plain(a)
    dt = a.dtype if isinstance(a, SymArray) else np.dtype('f8')
    out = np.empty(p.shape, dt)
    for i in np.ndindex(*p.shape):
        v = p[i]
        if isinstance(v, Cx):
            v = complex(v)
        elif isinstance(v, Sx):
            v = float(v)
        out[i] = v
    return out


def tobool(a):
    p = plain(a)
    if not isinstance(a, SymArray):
        return np.asarray(p, bool)
    out = np.empty(p.shape, bool)
    for i in np.ndindex(*p.shape):
        v = p[i]
        out[i] = bool(v != 0) if not (isinstance(v, float) and v != v) else True
    return out


def has_sym(x, depth=0):
    if isinstance(x, (SymArray, Sx, Cx, SymBool)):
        return True
    if hasattr(x, 'asarray') and type(x).__name__ == 'MV':
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(y, (Sx, Cx)) for y in x.ravel())
    return False


def content_dtype(x):
    """dtype numpy would infer for (nested) list containing symbolics"""
    if isinstance(x, np.ndarray):
        return x.dtype if x.dtype != object else content_dtype(list(x.ravel()))
    if isinstance(x, Cx):
        return np.dtype('c16')
    if isinstance(x, Sx):
        return np.dtype('f8')
    if hasattr(x, 'asarray'):
        return x.asarray().dtype
    if isinstance(x, (list, tuple)):
        ds = [content_dtype(y) for y in x]
        return np.result_type(*ds) if ds else np.dtype('f8')
    return np.asarray(x).dtype


# ----------------------------------------------------------------- ufuncs
def _elem_fn(name):
    def un(f_sym, f_conc):
        def g(v):
            if isinstance(v, (Sx, Cx)):
                return f_sym(v)
            return f_conc(v)
        return g

    def unsup(v):
        if isinstance(v, Sx) and v.is_const():
            r = getattr(np, name)(float(v))
            return r.item()
        hook = llir.MATH_HOOK[0]
        if hook is not None and isinstance(v, Sx):
            return hook(name, (v,), False)
        raise Unsupported('np.%s of symbolic value' % name)

    def conc(v):
        with np.errstate(all='ignore'):
            return getattr(np, name)(v).item()
    table = {
        'sqrt': un(lambda v: v.sqrt() if isinstance(v, Sx) else unsup(v), conc),
        'absolute': un(abs, abs),
        'conjugate': un(lambda v: v.conjugate(), lambda v: v.conjugate() if hasattr(v, 'conjugate') else v),
        'isnan': un(lambda v: isinstance(v, Cx) and (_nan(v.re) or _nan(v.im)), lambda v: bool(np.isnan(v))),
        'isinf': un(lambda v: False, lambda v: bool(np.isinf(v))),
        'isfinite': un(lambda v: True, lambda v: bool(np.isfinite(v))),
        'sign': un(lambda v: _sign(v), conc),
        'fabs': un(abs, abs),
        'square': un(lambda v: v * v, lambda v: v * v),
        'reciprocal': un(lambda v: 1.0 / v, conc),
        'signbit': un(lambda v: bool(v < 0), conc),
        'negative': un(lambda v: -v, lambda v: -v),
        'positive': un(lambda v: v, lambda v: v),
    }
    if name in table:
        return table[name]
    return un(unsup, conc)


def _nan(v):
    return isinstance(v, float) and v != v


def _sign(v):
    if isinstance(v, Cx):
        raise Unsupported('complex sign')
    if v == 0:
        return 0.0
    return 1.0 if v > 0 else -1.0


def ndiv(a, b):
    """numpy true_divide semantic on elements"""
    if isinstance(a, (Sx, Cx)) or isinstance(b, (Sx, Cx)):
        return a / b
    with np.errstate(all='ignore'):
        r = np.true_divide(a, b)
    return r.item() if hasattr(r, 'item') else r


def _cmpf(op):
    def g(a, b):
        r = op(a, b)
        return bool(r)
    return g


def _max(a, b):
    if _nan(a):
        return a
    if _nan(b):
        return b
    return a if bool(a >= b) else b


def _min(a, b):
    if _nan(a):
        return a
    if _nan(b):
        return b
    return a if bool(a <= b) else b


import operator as _op
_BIN = {
    'add': _op.add, 'subtract': _op.sub, 'multiply': _op.mul, 'true_divide': ndiv, 'divide': ndiv,
    'power': lambda a, b: a ** b, 'float_power': lambda a, b: a ** b,
    'less': _cmpf(_op.lt), 'less_equal': _cmpf(_op.le), 'greater': _cmpf(_op.gt), 'greater_equal': _cmpf(_op.ge),
    'equal': _cmpf(_op.eq), 'not_equal': _cmpf(_op.ne), 'maximum': _max, 'minimum': _min, 'fmax': _max, 'fmin': _min,
    'logical_and': lambda a, b: bool(a != 0) and bool(b != 0), 'logical_or': lambda a, b: bool(a != 0) or bool(b != 0),
    'logical_xor': lambda a, b: bool(a != 0) != bool(b != 0),
    'copysign': lambda a, b: abs(a) if bool(b >= 0) else -abs(a),
    'hypot': lambda a, b: (a * a + b * b).sqrt() if isinstance(a * a + b * b, Sx) else math.hypot(a, b),
    'heaviside': lambda a, b: b if bool(a == 0) else (1.0 if bool(a > 0) else 0.0),
}
_BOOLRES = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
            'logical_xor', 'logical_not', 'isnan', 'isinf', 'isfinite', 'signbit'}
_FAST = {'add', 'subtract', 'multiply', 'negative'}


def _udt(x):
    """dtype / weak python type of an operand for type resolution"""
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, bool):
        return np.dtype(bool)
    if isinstance(x, int):
        return int
    if isinstance(x, (float, Sx)):
        return float
    if isinstance(x, (complex, Cx)):
        return complex
    return np.asarray(x).dtype


def resolve(ufunc, inputs):
    if ufunc.__name__ in _BOOLRES:
        return np.dtype(bool)
    if ufunc.__name__ == 'absolute' and len(inputs) == 1:
        d = _udt(inputs[0])
        if isinstance(d, np.dtype):
            return rdt(d)
    ds = [_udt(x) for x in inputs]
    if not any(isinstance(d, np.dtype) for d in ds):
        ds = [np.dtype(d) for d in ds]
    return ufunc.resolve_dtypes(tuple(ds) + (None,) * ufunc.nout)[-1]


def asobj(x):
    if isinstance(x, SymArray):
        return plain(x)
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != object else x
    if isinstance(x, np.generic):
        x = x.item()
    if hasattr(x, 'asarray'):
        return asobj(x.asarray())
    if isinstance(x, (list, tuple)):
        return asobj(NP.asarray(x))
    a = np.empty((), object)
    a[()] = x
    return a


def do_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    inputs = tuple(NP.asarray(x) if isinstance(x, (list, tuple)) or (hasattr(x, 'asarray') and not isinstance(x, np.ndarray)) else x for x in inputs)
    out = kw.pop('out', None)
    if out is not None and isinstance(out, tuple):
        out = out[0]
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    casting = kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    if where is not True:
        raise Unsupported('ufunc where=')
    if method == '__call__':
        if kw:
            raise Unsupported('ufunc kwargs %s' % list(kw))
        rd = np.dtype(dtype) if dtype is not None else resolve(ufunc, inputs)
        if name == 'matmul':
            r = np.matmul(*[asobj(x) for x in inputs])
        elif ufunc.nin == 1:
            if name in ('logical_not', 'invert'):
                if name == 'invert':
                    raise TypeError("ufunc 'invert' not supported for the input types")
                r = ~tobool(inputs[0])
            else:
                f = _elem_fn(name)
                r = np.frompyfunc(f, 1, 1)(asobj(inputs[0]))
        elif ufunc.nin == 2:
            f = _BIN.get(name)
            if f is None:
                if all(not isinstance(x, SymArray) or all_concrete(x) for x in inputs):
                    return ufunc(*[concrete(x) if isinstance(x, SymArray) else x for x in inputs])
                raise Unsupported('ufunc %s' % name)
            a, b = asobj(inputs[0]), asobj(inputs[1])
            r = np.frompyfunc(f, 2, 1)(a, b)
        else:
            raise Unsupported('ufunc %s' % name)
        return finish(r, rd, out, casting)
    if method == 'reduce':
        axis = kw.pop('axis', 0)
        keep = kw.pop('keepdims', False)
        init = kw.pop('initial', None)
        a = inputs[0]
        if name in ('logical_and', 'logical_or'):
            return getattr(np, 'all' if name == 'logical_and' else 'any')(tobool(a), axis=axis, keepdims=keep)
        if name in ('maximum', 'minimum', 'add', 'multiply'):
            p = asobj(a)
            f = np.frompyfunc(_BIN[name], 2, 1)
            if axis is None:
                axis = tuple(range(p.ndim))
            if not isinstance(axis, tuple):
                axis = (axis,)
            axis = tuple(x % max(p.ndim, 1) for x in axis)
            r = p
            if p.size == 0 and name in ('maximum', 'minimum'):
                raise ValueError('zero-size array to reduction operation')
            for ax in sorted(axis, reverse=True):
                if r.shape[ax] == 0:
                    r = np.full(r.shape[:ax] + r.shape[ax + 1:], 0.0 if name == 'add' else 1.0, object)
                else:
                    r = f.reduce(r, axis=ax)
                    if not isinstance(r, np.ndarray):
                        t = np.empty((), object)
                        t[()] = r
                        r = t
            if keep:
                r = np.asarray(r).reshape([1 if k in axis else s for k, s in enumerate(p.shape)])
            rd = a.dtype if isinstance(a, np.ndarray) else np.dtype('f8')
            if init is not None and not (name == 'add' and init == 0):
                r = f(r, init)
            return finish(r, rd, out, None)
        raise Unsupported('reduce %s' % name)
    if method == 'accumulate':
        f = np.frompyfunc(_BIN[name], 2, 1)
        r = f.accumulate(asobj(inputs[0]), axis=kw.pop('axis', 0), dtype=object)
        return finish(r, inputs[0].dtype, out, None)
    if method == 'outer':
        f = np.frompyfunc(_BIN[name], 2, 1)
        return finish(f.outer(asobj(inputs[0]), asobj(inputs[1])), resolve(ufunc, inputs), out, None)
    if method == 'at':
        raise Unsupported('ufunc.at')
    raise Unsupported('ufunc method %s' % method)


def finish(r, rd, out, casting):
    if not isinstance(r, np.ndarray):
        if out is None and rd == bool:
            return np.bool_(r)
        a = np.empty((), object)
        a[()] = r
        if out is None:
            return scal(r)
        r = a
    if out is not None:
        if not np.can_cast(rd, out.dtype, casting or 'same_kind'):
            raise TypeError('Cannot cast ufunc output from %s to %s with casting rule same_kind' % (rd, out.dtype))
        if not out.flags.writeable:
            raise ValueError('output array is read-only')
        if isinstance(out, SymArray):
            if rd.kind == 'c' and out.dtype.kind != 'c':
                raise TypeError('cast')
            plain(out)[...] = narrowed(r, rd, out.dtype)
        elif rd == bool and out.dtype == bool:
            out[...] = np.asarray(r, bool)
        else:
            raise Unsupported('in-place update of a concrete array with symbolic values')
        return out
    if rd == bool:
        return np.asarray(r, bool) if r.ndim else np.bool_(bool(r[()]))
    if r.ndim == 0:
        return scal(r[()])
    return wrapa(r, rd)


def scal(v):
    return v


# ----------------------------------------------------------- array functions
def _unwrap(x, seen):
    if isinstance(x, SymArray):
        seen.append(x.dtype)
        return plain(x)
    if isinstance(x, (Sx,)):
        seen.append(np.dtype('f4'))
        return x
    if isinstance(x, Cx):
        seen.append(np.dtype('c8'))
        return x
    if hasattr(x, 'asarray') and type(x).__name__ == 'MV':
        return _unwrap(x.asarray(), seen)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fc':
            seen.append(x.dtype)
        return x
    if isinstance(x, list):
        return [_unwrap(y, seen) for y in x]
    if isinstance(x, tuple):
        return tuple(_unwrap(y, seen) for y in x)
    return x


def _rewrap(r, dt):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return wrapa(r, dt)
        return r
    if isinstance(r, tuple):
        return tuple(_rewrap(x, dt) for x in r)
    if isinstance(r, list):
        return [_rewrap(x, dt) for x in r]
    return r


_special = {}


def special(*names):
    def deco(f):
        for n in names:
            _special[n] = f
        return f
    return deco


def do_func(func, args, kwargs):
    name = func.__name__
    if name in _special:
        return _special[name](*args, **kwargs)
    if 'fft' in getattr(func, '__module__', ''):
        raise Unsupported('fft')
    seen = []
    a = _unwrap(args, seen)
    k = {kk: _unwrap(v, seen) for kk, v in kwargs.items()}
    dt = np.result_type(*seen) if seen else np.dtype('f8')
    if 'out' in k and k['out'] is not None:
        raise Unsupported('out= in %s' % name)
    if isinstance(k.get('dtype'), (np.dtype, type)) and k.get('dtype') is not None:
        d2 = np.dtype(k.pop('dtype'))
        if d2.kind in 'fc':
            dt = d2
    try:
        r = func(*a, **k)
    except (TypeError, AttributeError) as e:
        raise Unsupported('np.%s on symbolic arrays: %s' % (name, e))
    return _rewrap(r, dt)


@special('result_type')
def _rt(*a):
    return np.result_type(*[x.dtype if isinstance(x, SymArray) else x for x in a])


@special('can_cast')
def _cc(a, b, casting='safe'):
    return np.can_cast(a.dtype if isinstance(a, SymArray) else a, b, casting)


@special('common_type')
def _ct(*a):
    return np.common_type(*[np.empty(0, x.dtype) for x in a])


@special('min_scalar_type')
def _mst(a):
    return a.dtype


@special('iscomplexobj')
def _ico(x):
    return _arrdt(x).kind == 'c'


@special('isrealobj')
def _iro(x):
    return _arrdt(x).kind != 'c'


def _arrdt(x):
    if isinstance(x, np.ndarray):
        return x.dtype
    return content_dtype(x)


@special('real')
def _real(x):
    if isinstance(x, (Sx, Cx)):
        return x.real
    return NP.asarray(x).real


@special('imag')
def _imag(x):
    if isinstance(x, (Sx, Cx)):
        return x.imag
    return NP.asarray(x).imag


@special('sum')
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    a = NP.asarray(a)
    if not isinstance(a, SymArray):
        return np.sum(a, axis=axis, keepdims=keepdims)
    return do_ufunc(np.add, 'reduce', (a,), dict(axis=axis, keepdims=keepdims))


@special('mean')
def _mean(a, axis=None, **k):
    return a.mean(axis=axis)


@special('max', 'amax')
def _amax(a, axis=None, **k):
    return do_ufunc(np.maximum, 'reduce', (a,), dict(axis=axis))


@special('min', 'amin')
def _amin(a, axis=None, **k):
    return do_ufunc(np.minimum, 'reduce', (a,), dict(axis=axis))


@special('any')
def _any(a, axis=None, out=None, keepdims=False, where=True):
    return np.any(tobool(a), axis=axis, keepdims=keepdims)


@special('all')
def _all(a, axis=None, out=None, keepdims=False, where=True):
    return np.all(tobool(a), axis=axis, keepdims=keepdims)


@special('copyto')
def _copyto(dst, src, casting='same_kind', where=True):
    if where is not True:
        src = NP.where(where, src, dst)
    if isinstance(dst, SymArray):
        dst[...] = src
    else:
        raise Unsupported('copyto concrete')


@special('where')
def _where(c, *ab):
    if isinstance(c, SymArray):
        c = tobool(c)
    if not ab:
        return np.where(c)
    a, b = ab
    ds = [_udt(x) for x in (a, b)]
    nd = [d for d in ds if isinstance(d, np.dtype)]
    rd = np.result_type(*nd, *[{int: 0, float: 0.0, complex: 0j}[d] for d in ds if not isinstance(d, np.dtype)]) if nd else np.dtype('f8')
    if rd.kind in 'iu':
        # a weak Python integer takes the array's dtype and wraps around
        a, b = [np.array(x).astype(rd).item() if isinstance(x, int) and not isinstance(x, bool) else x for x in (a, b)]
    r = np.where(np.asarray(c, bool), asobj(a), asobj(b))
    return wrapa(r, rd) if isinstance(r, np.ndarray) else r


@special('array_equal')
def _aeq(a, b, equal_nan=False):
    a, b = NP.asarray(a), NP.asarray(b)
    return a.shape == b.shape and bool(np.all(tobool(do_ufunc(np.equal, '__call__', (a, b), {}))))


@special('zeros_like', 'empty_like', 'ones_like', 'full_like')
def _like(*a, **k):
    raise Unsupported('like')


_like_impl = None


@special('shape')
def _shape(x):
    return NP.asarray(x).shape


@special('ndim')
def _ndim(x):
    return NP.asarray(x).ndim


@special('size')
def _size(x, axis=None):
    x = NP.asarray(x)
    return x.size if axis is None else x.shape[axis]


@special('copy')
def _copy(x, order='K', subok=False):
    return NP.array(x, order=order)


@special('nonzero')
def _nonzero(a):
    return np.nonzero(tobool(a))


@special('flatnonzero')
def _fnz(a):
    return np.nonzero(tobool(a).ravel())[0]


@special('argwhere')
def _aw(a):
    return np.argwhere(tobool(a))


@special('count_nonzero')
def _cnz(a, axis=None):
    return np.count_nonzero(tobool(a), axis=axis)


@special('iscomplex', 'isreal')
def _isc(*a):
    raise Unsupported('iscomplex')


@special('may_share_memory', 'shares_memory')
def _share(a, b, *r):
    return np.shares_memory(plain(a), plain(b))


@special('concatenate')
def _concat(arrs, axis=0, out=None, dtype=None, casting='same_kind'):
    arrs = [NP.asarray(x) for x in arrs]
    rd = np.result_type(*[x.dtype for x in arrs]) if dtype is None else np.dtype(dtype)
    r = np.concatenate([asobj(x) for x in arrs], axis=axis)
    return wrapa(r, rd)


@special('stack', 'vstack', 'hstack', 'dstack', 'column_stack')
def _stackf(*a, **k):
    raise Unsupported('stack')


def _mkstack(nm):
    def f(arrs, *a, **k):
        k.pop('dtype', None)
        arrs = [NP.asarray(x) for x in arrs]
        rd = np.result_type(*[x.dtype for x in arrs])
        return wrapa(getattr(np, nm)([asobj(x) for x in arrs], *a, **k), rd)
    return f


for _n in ('stack', 'vstack', 'hstack', 'dstack', 'column_stack'):
    _special[_n] = _mkstack(_n)


@special('pad')
def _pad(a, width, mode='constant', **k):
    a = NP.asarray(a)
    if callable(mode):
        # numpy: zero padding, then the function works in place on each line
        w = np.asarray(width)
        if w.dtype.kind != 'i':
            raise TypeError('`pad_width` must be of integral type.')
        w = np.broadcast_to(w, (a.ndim, 2))
        if (w < 0).any():
            raise ValueError("index can't contain negative values")
        z = NP.zeros(tuple(int(n + l + r) for n, (l, r) in zip(a.shape, w)), dtype=a.dtype)
        if isinstance(a, SymArray) and not isinstance(z, SymArray):
            z = wrapa(z, a.dtype)
        z[tuple(slice(int(l), int(l) + n) for n, (l, r) in zip(a.shape, w))] = a
        for axis in range(z.ndim):
            v = np.moveaxis(z, axis, -1)
            for ind in np.ndindex(*v.shape[:-1]):
                mode(v[ind + (Ellipsis,)], w[axis].copy(), axis, k)
        return z
    p = asobj(a)
    if mode == 'linear_ramp':
        # numpy: linspace from end value to edge (endpoint excluded)
        w = np.asarray(width)
        w = np.broadcast_to(w, (p.ndim, 2)) if w.ndim < 2 else np.broadcast_to(w, (p.ndim, 2))
        ends = k.get('end_values', 0)
        if isinstance(ends, (list, tuple)) or has_sym(ends) and isinstance(ends, np.ndarray):
            ee = np.broadcast_to(asobj(ends), (p.ndim, 2))
        else:
            ee = np.empty((p.ndim, 2), object)
            ee[...] = ends
        for ax in range(p.ndim):
            l, r = int(w[ax][0]), int(w[ax][1])
            q = np.moveaxis(p, ax, 0)
            first, last = q[0], q[-1]
            pre = [ee[ax][0] + (first - ee[ax][0]) * (float(j) / l) for j in range(l)]
            post = [ee[ax][1] + (last - ee[ax][1]) * (float(j) / r) for j in range(r)][::-1]
            q = np.concatenate([np.asarray(pre, object).reshape((l,) + q.shape[1:]), q,
                                np.asarray(post, object).reshape((r,) + q.shape[1:])], axis=0) if l or r else q
            p = np.moveaxis(q, 0, ax)
        return wrapa(np.ascontiguousarray(p), a.dtype)
    if mode in ('mean', 'maximum', 'minimum', 'median', 'empty'):
        raise Unsupported('pad mode %s' % mode)
    if mode == 'constant' and 'constant_values' in k:
        cv = k['constant_values']
        if isinstance(cv, np.ndarray):
            k['constant_values'] = asobj(cv)
    return wrapa(np.pad(p, width, mode, **k), a.dtype)


@special('convolve')
def _convolve(a, v, mode='full'):
    a, v = NP.asarray(a), NP.asarray(v)
    rd = np.result_type(a.dtype, v.dtype)
    x, y = asobj(a), asobj(v)
    if x.ndim != 1 or y.ndim != 1:
        raise ValueError('object too deep for desired array')
    if len(x) == 0 or len(y) == 0:
        raise ValueError('a cannot be empty')
    n, m = len(x), len(y)
    full = np.empty(n + m - 1, object)
    full[...] = 0.0
    for i in range(n):
        for j in range(m):
            full[i + j] = full[i + j] + x[i] * y[j]
    if mode == 'full':
        r = full
    elif mode == 'same':
        L = max(n, m)
        st = (min(n, m) - 1) // 2
        r = full[st:st + L]
    elif mode == 'valid':
        r = full[min(n, m) - 1:max(n, m)]
    else:
        raise ValueError(mode)
    return wrapa(r.copy(), rd)


@special('dot', 'vdot', 'inner', 'matmul', 'tensordot', 'einsum', 'kron', 'correlate', 'interp')
def _lin(*a, **k):
    raise Unsupported('linear algebra function')


def _gen(nm):
    def f(*a, **k):
        seen = []
        a2 = _unwrap(a, seen)
        dt = np.result_type(*seen)
        a2 = tuple(asobj(x) if isinstance(x, np.ndarray) else x for x in a2)
        return _rewrap(getattr(np, nm)(*a2, **k), dt)
    return f


for _n in ('dot', 'vdot', 'inner', 'matmul', 'tensordot', 'kron'):
    _special[_n] = _gen(_n)


@special('allclose', 'isclose')
def _allclose(*a, **k):
    raise Unsupported('allclose')


@special('clip')
def _clip(a, lo, hi, out=None, **k):
    r = NP.asarray(a)
    if lo is not None:
        r = do_ufunc(np.maximum, '__call__', (r, lo), {})
    if hi is not None:
        r = do_ufunc(np.minimum, '__call__', (r, hi), {})
    return r


@special('nan_to_num')
def _n2n(a, *r, **k):
    raise Unsupported('nan_to_num')


@special('cumsum')
def _cumsum(a, axis=None, **k):
    p = asobj(a)
    if axis is None:
        p = p.ravel()
        axis = 0
    return wrapa(np.frompyfunc(_op.add, 2, 1).accumulate(p, axis=axis, dtype=object), a.dtype)


@special('norm')
def _norm(x, ord=None, axis=None, keepdims=False):
    if ord is None and axis is None:
        s = 0.0
        for v in asobj(x).ravel():
            s = s + (v.real * v.real + v.imag * v.imag)
        return s.sqrt() if isinstance(s, Sx) else math.sqrt(s)
    raise Unsupported('norm')


@special('array_repr', 'array_str', 'array2string')
def _arep(a, *r, **k):
    return repr(a)


@special('diff')
def _diff(a, n=1, axis=-1, **k):
    p = asobj(a)
    return wrapa(np.diff(p, n=n, axis=axis), a.dtype)


# ----------------------------------------------------------------- numpy proxy
JUNK = [0]


def junk(shape, dt):
    """uninitialised memory: arbitrary values"""
    out = np.empty(shape, object)
    f = out.reshape(-1)
    if dt.kind == 'c':
        for i in range(f.size):
            f[i] = llir.UNINIT
    else:
        for i in range(f.size):
            f[i] = llir.UNINIT
    return wrapa(out, dt)


def _shape(s):
    if hasattr(s, 'asarray'):
        s = s.asarray()
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in s.ravel())
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    out = []
    for x in s:
        if isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
        out.append(int(x))
    for x in out:
        if x < 0:
            raise ValueError('negative dimensions are not allowed')
    return tuple(out)


class NumpyProxy:
    """stands in for the numpy module"""

    def __init__(self):
        self.__name__ = 'numpy'

    def __getattr__(self, k):
        v = getattr(np, k)
        if callable(v) and k in _special and not isinstance(v, type):
            sp = _special[k]

            def f(*a, **kw):
                if has_sym(a) or any(has_sym(x) for x in kw.values()):
                    return sp(*a, **kw)
                return v(*a, **kw)
            f.__name__ = k
            setattr(self, k, f)
            return f
        if isinstance(v, np.ufunc):
            w = UfuncProxy(v)
            setattr(self, k, w)
            return w
        if callable(v) and not isinstance(v, type) and hasattr(v, '__module__') and k not in ('ndindex',):
            def f(*a, **kw):
                if has_sym(a) or any(has_sym(x) for x in kw.values()):
                    return do_func(v, a, kw)
                return v(*a, **kw)
            f.__name__ = k
            setattr(self, k, f)
            return f
        return v

    # creation
    def _mk(self, shape, dtype, fill, order='C'):
        dt = np.dtype(dtype)
        sh = _shape(shape)
        if any(x < 0 for x in sh):
            raise ValueError('negative dimensions are not allowed')
        if dt.kind not in 'fc':
            if fill is None:
                return np.empty(sh, dt, order=order)
            return np.full(sh, fill, dt, order=order)
        if fill is None:
            a = junk(sh, dt)
        else:
            p = np.empty(sh, object, order=order)
            if isinstance(fill, (np.ndarray,)):
                p[...] = asobj(fill)
            else:
                f = p.reshape(-1) if order == 'C' else p
                f[...] = fill.item() if isinstance(fill, np.generic) else fill
            return wrapa(p, dt)
        if order == 'F' and len(sh) > 1:
            p = np.empty(sh, object, order='F')
            p[...] = plain(a)
            a = wrapa(p, dt)
        return a

    def zeros(self, shape, dtype=float, order='C', **k):
        return self._mk(shape, dtype, 0.0 if np.dtype(dtype).kind in 'fc' else 0, order)

    def ones(self, shape, dtype=float, order='C', **k):
        return self._mk(shape, dtype, 1.0 if np.dtype(dtype).kind in 'fc' else 1, order)

    def empty(self, shape, dtype=float, order='C', **k):
        return self._mk(shape, dtype, None, order)

    def full(self, shape, fill_value, dtype=None, order='C', **k):
        if dtype is None:
            dtype = content_dtype(fill_value) if has_sym(fill_value) else np.asarray(fill_value).dtype
        if np.dtype(dtype).kind in 'fc' and isinstance(fill_value, (int, bool)):
            fill_value = float(fill_value)
        return self._mk(shape, dtype, fill_value, order)

    def _lk(self, a, dtype, shape, fill, order):
        if not isinstance(a, np.ndarray):
            a = self.asarray(a)
        dt = a.dtype if dtype is None else dtype
        sh = a.shape if shape is None else shape
        if order == 'K' or order == 'A':
            if a.ndim > 1 and a.flags.f_contiguous and not a.flags.c_contiguous:
                order = 'F'
            else:
                order = 'C'
        return self._mk(sh, dt, fill, order)

    def zeros_like(self, a, dtype=None, order='K', subok=True, shape=None):
        return self._lk(a, dtype, shape, 0.0, order)

    def ones_like(self, a, dtype=None, order='K', subok=True, shape=None):
        return self._lk(a, dtype, shape, 1.0, order)

    def empty_like(self, a, dtype=None, order='K', subok=True, shape=None):
        return self._lk(a, dtype, shape, None, order)

    def full_like(self, a, fill_value, dtype=None, order='K', subok=True, shape=None):
        return self._lk(a, dtype, shape, fill_value, order)

    def asarray(self, x, dtype=None, order=None, copy=None, **k):
        if hasattr(x, 'asarray') and not isinstance(x, np.ndarray):
            x = x.asarray()
        if isinstance(x, SymArray):
            if dtype is None or np.dtype(dtype) == x.dtype:
                if order in (None, 'K', 'A') or _order_ok(x, order):
                    return x if copy is not True else x.copy()
                return wrapa(np.array(plain(x), dtype=object, order=order, copy=True), x.dtype)
            r = x.astype(dtype)
            if order == 'C' and not r.flags.c_contiguous:
                r = r.copy()
            return r
        if has_sym(x):
            dt = np.dtype(dtype) if dtype is not None else content_dtype(x)
            if isinstance(x, (Sx, Cx)):
                p = np.empty((), object)
                p[()] = x
            else:
                p = np.array(_strip(x), dtype=object)
                if any(isinstance(v, np.ndarray) for v in p.ravel()):
                    raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
            if dt.kind == 'f' and any(isinstance(v, Cx) for v in p.ravel()):
                raise TypeError('float() argument must be a real number, not complex')
            return wrapa(narrowed(p, content_dtype(x), dt) if dtype is not None else p, dt)
        r = np.asarray(x, dtype=dtype, order=order)
        return r

    def asanyarray(self, x, dtype=None, order=None, **k):
        return self.asarray(x, dtype, order)

    def ascontiguousarray(self, x, dtype=None):
        r = self.asarray(x, dtype, 'C')
        return r if r.ndim else r.reshape(1)

    def asfortranarray(self, x, dtype=None):
        return self.asarray(x, dtype, 'F')

    def require(self, a, dtype=None, requirements=None, **k):
        return self.asarray(a, dtype, 'C' if requirements and 'C' in requirements else None)

    def asarray_chkfinite(self, x, dtype=None, order=None):
        return self.asarray(x, dtype, order)

    def array(self, x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
        if not has_sym(x):
            return np.array(x, dtype=dtype, copy=copy, order=order, ndmin=ndmin)
        r = self.asarray(x, dtype)
        if copy and (r is x or isinstance(x, np.ndarray) and np.shares_memory(plain(r), plain(x)) or not isinstance(x, (list, tuple))):
            r = wrapa(np.array(plain(r), dtype=object, order=order, copy=True), r.dtype)
        while r.ndim < ndmin:
            r = r[np.newaxis]
        return r

    def copy(self, x, order='K', subok=False):
        return self.array(x, order=order)

    def isscalar(self, x):
        if isinstance(x, (Sx, Cx)):
            return True
        return np.isscalar(x)

    def save(self, *a, **k):
        raise Unsupported('io')

    def sum(self, a, axis=None, **k):
        if has_sym(a):
            return _sum(a, axis=axis, **k)
        if isinstance(a, (list, tuple)) or isinstance(a, np.ndarray):
            return np.sum(a, axis=axis, **k)
        return np.sum(a, axis=axis, **k)

    @property
    def fft(self):
        return _Fft()

    @property
    def linalg(self):
        return _LinAlg()

    def vectorize(self, *a, **k):
        raise Unsupported('vectorize')


class _Fft:
    """discrete Fourier transform of symbolic data: the sums of the definition, with double-precision roots of unity"""
    def __getattr__(self, k):
        v = getattr(np.fft, k)
        if k not in ('fft', 'ifft'):
            return v

        def f(a, n=None, axis=-1, **kw):
            if not has_sym((a,)):
                return v(a, n, axis, **kw)
            a = NP.asarray(a)
            od = np.result_type(a.dtype, np.complex64) if a.dtype.kind in 'fc' else np.dtype('c16')
            p = np.moveaxis(asobj(a), axis, -1)
            if not any(isinstance(x, (Sx, Cx)) for x in p.ravel()):
                r = v(p.astype(np.result_type(a.dtype, 'f4') if a.dtype.kind in 'fc' else a.dtype), n, -1, **kw)
                return wrapa(np.moveaxis(r, -1, axis).astype(object), od)
            N = p.shape[-1] if n is None else int(n)
            m = min(N, p.shape[-1])
            sg = -1 if k == 'fft' else 1
            rt = [complex(math.cos(2 * math.pi * q / N), sg * math.sin(2 * math.pi * q / N)) for q in range(N)]
            out = np.empty(p.shape[:-1] + (N,), object)
            for ix in np.ndindex(*p.shape[:-1]):
                row = [(i, x) for i, x in enumerate(p[ix][:m]) if not (isinstance(x, (int, float)) and x == 0)]
                for q in range(N):
                    s = Cx(Sx.const(0), Sx.const(0))
                    for i, x in row:
                        s = s + (x if isinstance(x, Cx) else Cx(x, 0.0)) * rt[i * q % N] if not isinstance(x, complex) else s + x * rt[i * q % N]
                    out[ix + (q,)] = s if k == 'fft' else s * (1.0 / N)
            return wrapa(np.ascontiguousarray(np.moveaxis(out, -1, axis)), od)
        return f


class _LinAlg:
    def __getattr__(self, k):
        v = getattr(np.linalg, k)
        if k == 'norm':
            return lambda x, *a, **kw: _norm(x, *a, **kw) if has_sym(x) else v(x, *a, **kw)
        return v


def _strip(x):
    if isinstance(x, SymArray):
        return plain(x).tolist() if x.ndim else plain(x)[()]
    if hasattr(x, 'asarray') and not isinstance(x, np.ndarray):
        return _strip(x.asarray())
    if isinstance(x, np.ndarray):
        return x.astype(object).tolist()
    if isinstance(x, (list, tuple)):
        return [_strip(y) for y in x]
    return x


class UfuncProxy:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if has_sym(a):
            if len(a) > self.u.nin:
                k['out'] = a[self.u.nin]
                a = a[:self.u.nin]
            if not any(isinstance(x, np.ndarray) for x in a) and all(isinstance(x, (Sx, Cx, int, float, complex, np.generic)) for x in a):
                r = do_ufunc(self.u, '__call__', a, k)
                return r
            return do_ufunc(self.u, '__call__', a, k)
        return self.u(*a, **k)

    def __getattr__(self, m):
        f = getattr(self.u, m)
        if m in ('reduce', 'accumulate', 'outer', 'at'):
            def g(*a, **k):
                if has_sym(a):
                    if len(a) > 1 and m in ('reduce', 'accumulate'):
                        k['axis'] = a[1]
                        a = a[:1]
                    return do_ufunc(self.u, m, a, k)
                return f(*a, **k)
            return g
        return f


NP = NumpyProxy()
