"""Cython (.pyx/.pxd) -> Python translator with C integer semantics.

The files are parsed with Cython's own parser from the current tree; every
function is translated to Python source in which C-typed variables are
coerced/wrapped, pointers are llir.Ptr objects, and calls to extern C
functions go to the LLVM-IR interpreter."""
import os
import re
import z3
import numpy as np
from .sym import Unsupported, UB, Sx, Cx, SBV, SymBool
from . import llir
from .llir import Ptr, NULL, Block, ElemBlock
from .symnp import SymArray, vdt

from Cython.Compiler import Options, Errors
from Cython.Compiler.Main import Context, CompilationOptions
from Cython.Compiler.Scanning import FileSourceDescriptor
from Cython.Compiler.Symtab import ModuleScope


# ------------------------------------------------------------------ C types
class CT:
    __slots__ = ('k', 'bits', 'signed', 'el', 'name', 'const')

    def __init__(self, k, bits=0, signed=True, el=None, name=None):
        self.k = k
        self.bits = bits
        self.signed = signed
        self.el = el
        self.name = name

    def __repr__(self):
        return 'CT(%s,%s,%s,%s,%s)' % (self.k, self.bits, self.signed, self.el, self.name)

    def __eq__(self, o):
        return isinstance(o, CT) and (self.k, self.bits, self.signed, self.el, self.name) == (o.k, o.bits, o.signed, o.el, o.name)

    def __hash__(self):
        return hash((self.k, self.bits, self.name))


OBJ = CT('obj')
VOID = CT('void')
BINT = CT('int', 32, True, name='bint')


def cint(b, s):
    return CT('int', b, s)


def cfloat(b):
    return CT('float', b)


def ccplx(b):
    return CT('cplx', b)


def cptr(t):
    return CT('ptr', el=t)


NPTYPES = {'float64_t': cfloat(64), 'float32_t': cfloat(32), 'complex64_t': ccplx(64), 'complex128_t': ccplx(128),
           'npy_intp': cint(64, True), 'intp_t': cint(64, True), 'int64_t': cint(64, True), 'int32_t': cint(32, True),
           'uint64_t': cint(64, False), 'uint32_t': cint(32, False), 'uint8_t': cint(8, False), 'int8_t': cint(8, True),
           'double_t': cfloat(64), 'float_t': cfloat(32), 'npy_uintp': cint(64, False), 'uintp_t': cint(64, False),
           'ndarray': CT('cls', name='np.ndarray'), 'dtype': CT('cls', name='np.dtype')}
DTYPES = {('float', 64): 'float64', ('float', 32): 'float32', ('cplx', 64): 'complex64', ('cplx', 128): 'complex128',
          ('int', 64, True): 'int64', ('int', 64, False): 'uint64', ('int', 32, True): 'int32', ('int', 32, False): 'uint32'}


def ctsize(t):
    if t.k in ('int', 'float', 'cplx'):
        return t.bits // 8
    if t.k == 'ptr':
        return 8
    raise Unsupported('sizeof %s' % t)


def ctdtype(t):
    return np.dtype(DTYPES[(t.k, t.bits) if t.k != 'int' else (t.k, t.bits, t.signed)])


# ------------------------------------------------------------------ symbolic C/Python ints
class SInt:
    """symbolic integer: 64-bit (or narrower) machine value with signedness."""
    __slots__ = ('z', 'b', 's')

    def __init__(self, z, b, s):
        self.z = z
        self.b = b
        self.s = s

    def _w(self):
        """as 80-bit signed BV (safe for one arithmetic step between 64-bit values)"""
        return (z3.SignExt if self.s else z3.ZeroExt)(136 - self.b, self.z)

    @staticmethod
    def wide(o):
        return o._w() if isinstance(o, SInt) else z3.BitVecVal(int(o), 136)

    def _c(self, o, f):
        if not isinstance(o, (SInt, int, np.integer)):
            if isinstance(o, float) and o == int(o):
                o = int(o)
            else:
                return NotImplemented
        return SymBool(f(self._w(), SInt.wide(o)))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return 0x5117  # equal values must meet in a set; __eq__ then splits the path

    def _a(self, o, f):
        if not isinstance(o, (SInt, int, np.integer)):
            return NotImplemented
        r = z3.simplify(f(self._w(), SInt.wide(o)))
        return SInt(r, 136, True)

    def __add__(self, o): return self._a(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._a(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._a(o, lambda a, b: b - a)
    def __mul__(self, o): return self._a(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        # python floor division by positive constant
        if isinstance(o, (int, np.integer)) and o > 0:
            def f(a, b):
                q = a / b
                return z3.If(z3.And(a < 0, q * b != a), q - 1, q)
            return self._a(o, f)
        raise Unsupported('symbolic floor division')

    def __mod__(self, o):
        if isinstance(o, (int, np.integer)) and o > 0:
            return self._a(o, lambda a, b: (a % b))     # z3 bvsmod: sign of divisor
        raise Unsupported('symbolic modulo')

    def __rshift__(self, o): return self._a(o, lambda a, b: a >> b)
    def __lshift__(self, o): return self._a(o, lambda a, b: a << b)
    def __rlshift__(self, o): return self._a(o, lambda a, b: b << a)
    def __rrshift__(self, o): return self._a(o, lambda a, b: b >> a)

    def __neg__(self):
        return SInt(-self._w(), 136, True)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        raise Unsupported('symbolic index')

    def __int__(self):
        raise Unsupported('int() of symbolic')

    def __repr__(self):
        return 'SInt(%s)' % self.z


class IInt(SInt):
    """symbolic integer of a small range that may be used as an index: uses that need the value split the path on it"""
    __slots__ = ()

    def _a(self, o, f):
        r = SInt._a(self, o, f)
        return r if r is NotImplemented else IInt(r.z, r.b, r.s)

    def __neg__(self):
        return IInt(-self._w(), 136, True)

    def __index__(self):
        lo, hi = -64, 64
        if not (bool(self >= lo) and bool(self <= hi)):
            raise Unsupported('symbolic index outside [-64, 64]')
        while lo < hi:
            m = (lo + hi) // 2
            if bool(self <= m):
                hi = m
            else:
                lo = m + 1
        return lo

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return repr(self.__index__())

    __str__ = __repr__

    def __format__(self, f):
        return format(self.__index__(), f)


def _iint_ops():
    import operator
    for n in ('floordiv', 'mod', 'pow', 'truediv', 'and', 'or', 'xor', 'rshift', 'lshift', 'divmod'):
        f = divmod if n == 'divmod' else getattr(operator, {'and': 'and_', 'or': 'or_'}.get(n, n))

        def a(self, o, f=f):
            return f(self.__index__(), o)

        def b(self, o, f=f):
            return f(o, self.__index__())
        setattr(IInt, '__%s__' % n, a)
        setattr(IInt, '__r%s__' % n, b)
    IInt.__abs__ = lambda self: abs(self.__index__())
    IInt.__float__ = lambda self: float(self.__index__())


_iint_ops()

import numbers
numbers.Integral.register(SInt)


def toint(v, b, s):
    """Python object -> C int (range checked)"""
    if v.__class__ is int:
        pass
    elif isinstance(v, SInt) and v.__class__ is not IInt:
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        if not bool(v >= lo):
            raise OverflowError("can't convert negative value to C type")
        if not bool(v <= hi):
            raise OverflowError('value too large to convert to C type')
        return SInt(z3.simplify(z3.Extract(b - 1, 0, v._w())), b, s)
    elif isinstance(v, bool):
        v = int(v)
    elif hasattr(v, '__index__'):
        v = v.__index__()
    elif isinstance(v, (float, np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    else:
        raise TypeError('an integer is required')
    if s:
        if not (-(1 << (b - 1)) <= v < (1 << (b - 1))):
            raise OverflowError('value too large to convert to C type')
    else:
        if v < 0:
            raise OverflowError("can't convert negative value to unsigned C type")
        if v >> b:
            raise OverflowError('value too large to convert to C type')
    return v


def wrap(v, b, s):
    """C value -> C int (modular)"""
    if v.__class__ is int:
        v &= (1 << b) - 1
        if s and v >> (b - 1):
            v -= 1 << b
        return v
    if isinstance(v, SInt):
        w = v._w()
        if v.b > 136:
            raise Unsupported('wide')
        return SInt(z3.simplify(z3.Extract(b - 1, 0, w)), b, s)
    if isinstance(v, SymBool):
        return wrap(int(bool(v)), b, s)
    if isinstance(v, (bool, np.integer)):
        return wrap(int(v), b, s)
    if isinstance(v, float):
        return wrap(int(v), b, s)
    raise Unsupported('wrap %r' % (v,))


def tofloat(v, bits):
    if v.__class__ is float:
        return llir.r32(v) if bits == 32 else v
    if isinstance(v, Sx):
        return v
    if v is None or isinstance(v, str):
        raise TypeError('must be real number, not %s' % type(v).__name__)
    if isinstance(v, (complex, Cx)):
        raise TypeError("can't convert complex to float")
    if isinstance(v, np.ndarray) and v.size == 1 and v.dtype == object:
        return tofloat(v.reshape(-1)[0], bits)
    if isinstance(v, SymArray) and v.size == 1:
        return tofloat(v.reshape(-1)[0], bits)
    f = float(v)
    return llir.r32(f) if bits == 32 else f


def tobint(v):
    return bool(v)


def tocls(v, cls, name, allow_none=True):
    if v is None and allow_none:
        return v
    if cls is not None and not isinstance(v, cls):
        raise TypeError('Cannot convert %s to %s' % (type(v).__name__, name))
    return v


def toptr(v):
    if v is None:
        return NULL
    if isinstance(v, Ptr):
        return v
    if isinstance(v, StructVar):
        return v.ptr
    raise Unsupported('to pointer: %r' % (v,))


# ------------------------------------------------------------------ arrays
def root_flat(arr):
    r = arr
    while isinstance(r.base, np.ndarray):
        r = r.base
    p = r.view(np.ndarray) if isinstance(r, SymArray) else r
    if p.size and 0 in p.strides:       # broadcast array: its memory is one copy along those axes
        p = p[tuple(slice(0, 1) if st == 0 else slice(None) for st in p.strides)]
    if p.flags.c_contiguous:
        f = p.reshape(-1)
    elif p.flags.f_contiguous:
        f = p.T.reshape(-1)
    else:
        q = p.transpose(sorted(range(p.ndim), key=lambda k: -p.strides[k]))
        if not q.flags.c_contiguous:
            raise Unsupported('non-contiguous base array')
        f = q.reshape(-1)
    return p, f


def nd_data(arr):
    if arr is None:
        raise UB('attribute access on None ndarray')
    p, f = root_flat(arr)
    dt = vdt(arr)
    real = np.ndarray.itemsize.__get__(p)
    off = (arr.__array_interface__['data'][0] - p.__array_interface__['data'][0]) // real if arr.size else 0
    kind = {'f': 'f', 'c': 'f', 'i': 'i', 'u': 'i'}.get(dt.kind)
    if kind is None:
        raise Unsupported('data pointer of dtype %s' % dt)
    b = ElemBlock(f, dt.itemsize, 2 if dt.kind == 'c' else 1, 'array', kind)
    return Ptr(b, off * dt.itemsize)


def nd_shape(arr):
    return Ptr(ElemBlock(list(arr.shape), 8, 1, 'shape', 'i'), 0)


def nd_strides(arr):
    return Ptr(ElemBlock(list(arr.strides), 8, 1, 'strides', 'i'), 0)


class MV:
    """typed memoryview (1-D)"""
    __slots__ = ('arr', 'ct', 'ptr', 'n')
    __array_ufunc__ = None

    def __init__(self, arr=None, ct=None, ptr=None, n=None):
        self.arr = arr
        self.ct = ct
        self.ptr = ptr
        self.n = n if arr is None else arr.shape[0]

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def ndim(self):
        return 1

    @property
    def base(self):
        return self

    @property
    def itemsize(self):
        return ctsize(self.ct)

    @property
    def nbytes(self):
        return self.n * ctsize(self.ct)

    def __len__(self):
        return self.n

    def get(self, i):
        if i.__class__ is not int or not (0 <= i < self.n):
            raise UB('memoryview index %r out of bounds (length %d)' % (i, self.n))
        if self.arr is not None:
            v = self.arr[i]
            return v
        v = self.ptr.b.load(self.ptr.o + i * ctsize(self.ct), ctsize(self.ct), 1 if self.ct.k == 'float' else 0)
        if self.ct.k == 'int':
            v = wrap(v, self.ct.bits, self.ct.signed)
        return v

    def set(self, i, v):
        if i.__class__ is not int or not (0 <= i < self.n):
            raise UB('memoryview index %r out of bounds (length %d)' % (i, self.n))
        if self.arr is not None:
            self.arr[i] = v
        else:
            self.ptr.b.store(self.ptr.o + i * ctsize(self.ct), ctsize(self.ct), v)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return MV(self.asarray()[k], self.ct)
        if k < 0:
            k += self.n
        return self.get(int(k))

    def __iter__(self):
        return iter([self.get(i) for i in range(self.n)])

    def asarray(self):
        if self.arr is not None:
            return self.arr
        return np.array([self.get(i) for i in range(self.n)], ctdtype(self.ct))

    def copy(self):
        if self.arr is not None:
            return MV(self.arr.copy(), self.ct)
        el = [self.get(i) for i in range(self.n)]
        return MV(None, self.ct, Ptr(ElemBlock(el, ctsize(self.ct), 1, 'mv copy', 'i' if self.ct.k == 'int' else 'f'), 0), self.n)

    def addr(self, i):
        if self.arr is not None:
            if self.n == 0:
                return nd_data(self.arr)
            if i.__class__ is not int or not (0 <= i <= self.n):
                raise UB('address of out-of-range element')
            p = nd_data(self.arr)
            st = self.arr.strides[0]
            return Ptr(p.b, p.o + i * st)
        return Ptr(self.ptr.b, self.ptr.o + i * ctsize(self.ct))

    @property
    def T(self):
        return self


def tomv(v, ct, contig, cst=False):
    if v is None or isinstance(v, MV) and v.ct == ct:
        return v
    if isinstance(v, MV):
        v = v.asarray()
    if not isinstance(v, np.ndarray):
        raise TypeError("a bytes-like object is required, not '%s'" % type(v).__name__)
    if v.ndim != 1:
        raise ValueError('Buffer has wrong number of dimensions (expected 1, got %d)' % v.ndim)
    if vdt(v) != ctdtype(ct):
        raise ValueError("Buffer dtype mismatch, expected '%s' but got '%s'" % (ctdtype(ct), vdt(v)))
    if not cst and not v.flags.writeable:
        raise ValueError('buffer source array is read-only')
    if contig and v.shape[0] > 1 and v.strides[0] != vdt(v).itemsize:
        raise ValueError('ndarray is not C-contiguous')
    return MV(v, ct)


def fused_match(v, cts):
    if isinstance(v, MV):
        v = v.asarray()
    if isinstance(v, np.ndarray):
        for c in cts:
            if vdt(v) == ctdtype(c):
                if v.ndim != 1:
                    raise ValueError('Buffer has wrong number of dimensions (expected 1, got %d)' % v.ndim)
                return c
    raise TypeError('No matching signature found')


class StructVar:
    __slots__ = ('ptr',)

    def __init__(self, size, name):
        self.ptr = Ptr(Block(size, name), 0)


def ptr_get(p, i, t):
    if t.k == 'struct':
        return Ptr(p.b, p.o + i * 0) if i == 0 else None
    n = ctsize(t)
    if i.__class__ is not int:
        raise Unsupported('symbolic pointer index')
    v = llir.ld(Ptr(p.b, p.o + i * n) if p.b is not None else p, n, 1 if t.k == 'float' else 2 if t.k == 'ptr' else 0)
    if t.k == 'int':
        return wrap(v, t.bits, t.signed)
    return v


def ptr_set(p, i, t, v):
    n = ctsize(t)
    if t.k == 'float':
        v = tofloat(v, t.bits)
    elif t.k == 'int':
        v = wrap(v, t.bits, False)
    llir.st(Ptr(p.b, p.o + i * n) if p.b is not None else p, n, v)


def cstr(p):
    """char* -> bytes"""
    if p.b is None:
        raise UB('NULL char*')
    out = []
    o = p.o
    while True:
        c = p.b.load(o, 1, 0)
        if c == 0:
            return bytes(out)
        out.append(c)
        o += 1


def pydiv(a, b):
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    return a // b


def strmod(a, b):
    """the wording of messages does not matter: symbolic values are not formatted"""
    if isinstance(a, str):
        try:
            return a % b
        except Unsupported:
            return a
    return a % b


def pymod(a, b):
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    return a % b


def truediv(a, b):
    if not isinstance(a, (Sx, Cx)) and not isinstance(b, (Sx, Cx, np.ndarray)) and b == 0:
        raise ZeroDivisionError('float division')
    return a / b


# ------------------------------------------------------------------ module loader
class CyWorld:
    """All .pyx/.pxd of pywt/_extensions, lazily translated."""

    def __init__(self, srcdir, rt, npproxy, importer):
        self.dir = srcdir
        self.rt = rt
        self.np = npproxy
        self.importer = importer
        self.pxd = {}
        self.mods = {}
        self.trees = {}
        opts = CompilationOptions(Options.default_options, language_level=3, include_path=[srcdir])
        self.ctx = Context.from_options(opts)
        Errors.init_thread()
        self.structs = {}       # name -> {field: CT}
        self.cfuncs = {}        # name -> (ret CT, [arg CT])
        self.executed = set()

    def parse(self, base, pxd):
        fn = os.path.join(self.dir, base + ('.pxd' if pxd else '.pyx'))
        if not os.path.exists(fn):
            return None
        key = (base, pxd)
        if key not in self.trees:
            if not hasattr(Errors.threadlocal, 'cython_errors_count'):
                Errors.init_thread()    # first parse in this thread
            sd = FileSourceDescriptor(os.path.abspath(fn))
            sc = ModuleScope('pywt._extensions.' + base, None, self.ctx)
            sc.directives = {}
            self.trees[key] = self.ctx.parse(sd, sc, pxd, 'pywt._extensions.' + base)
        return self.trees[key]

    def decls(self, base):
        """Decls (types/consts/cfuncs) of a module, from pxd."""
        if base not in self.pxd:
            d = Decls(self, base)
            self.pxd[base] = d
            t = self.parse(base, True)
            if t is not None:
                d.scan(t.body)
        return self.pxd[base]

    def module(self, base):
        return self.importer.load('pywt._extensions.' + base)

    def field_type(self, root, path):
        t = None
        for f in path.split('.'):
            t = self.structs[root][f]
            root = t.name
        return t

    def is_pyx(self, base):
        return os.path.exists(os.path.join(self.dir, base + '.pyx'))


def stats(node):
    n = type(node).__name__
    if n == 'StatListNode':
        out = []
        for s in node.stats:
            out += stats(s)
        return out
    return [node] if node is not None else []


class Decls:
    """names visible at C level in a module"""

    def __init__(self, world, base):
        self.w = world
        self.base = base
        self.types = {}      # name -> CT
        self.consts = {}     # enum constants
        self.cfuncs = {}     # extern C functions
        self.cmods = {}      # cimported module alias -> Decls or 'np'
        self.cyfuncs = {}    # name -> (modulebase)
        self.classes = {}    # name -> (modulebase, {attr: CT})
        self.fused = {}      # name -> [CT]
        self.libc = set()
        self.ext = False

    def scan(self, body):
        for s in stats(body):
            n = type(s).__name__
            if n == 'CDefExternNode':
                self.ext = True
                self.scan(s.body)
                self.ext = False
            elif n == 'CTypeDefNode':
                d, t = self.declarator(s.declarator, self.base_type(s.base_type)) if type(s.base_type).__name__ != 'FusedTypeNode' else (None, None)
                if d is None:
                    nm = s.declarator.name if hasattr(s.declarator, 'name') else s.base_type.name
                    self.fused[nm] = [self.base_type(x) for x in s.base_type.types]
                    self.types[nm] = CT('fused', name=nm)
                else:
                    if d == 'pywt_index_t':
                        t = cint(64, True)     # real width comes from common.h (Py_ssize_t in the extension build)
                    self.types[d] = t
                    if d in self.fused:
                        pass
                    if t.k == 'fused':
                        self.fused[d] = self.fused[t.name]
            elif n == 'FusedTypeNode':
                self.fused[s.name] = [self.base_type(x) for x in s.types]
                self.types[s.name] = CT('fused', name=s.name)
            elif n == 'CEnumDefNode':
                if s.name:
                    self.types[s.name] = CT('int', 32, True)
                v = -1
                for it in s.items:
                    if it.value is not None:
                        v = self.const_expr(it.value)
                    else:
                        v += 1
                    self.consts[it.name] = v
            elif n == 'CStructOrUnionDefNode':
                self.types[s.name] = CT('struct', name=s.name)
                f = {}
                for a in (s.attributes or []):
                    bt = self.base_type(a.base_type)
                    for dc in a.declarators:
                        nm, t = self.declarator(dc, bt)
                        f[nm] = t
                if f or s.name not in self.w.structs:
                    self.w.structs[s.name] = f
            elif n == 'CVarDefNode':
                bt = self.base_type(s.base_type)
                for dc in s.declarators:
                    if type(dc).__name__ == 'CFuncDeclaratorNode' or self.is_func(dc):
                        if self.ext:
                            nm, ret, args = self.func_decl(dc, bt)
                            self.cfuncs[nm] = (ret, args)
                        else:
                            self.cyfuncs[self.fname(dc)] = self.base
            elif n == 'CFuncDefNode':
                nm = self.fname(s.declarator)
                self.cyfuncs[nm] = self.base
            elif n == 'CImportStatNode':
                m = s.module_name
                al = s.as_name or m.split('.')[0]
                if m == 'numpy':
                    self.cmods[al] = 'np'
            elif n == 'FromCImportStatNode':
                self.cimport_from(s)
            elif n == 'CClassDefNode':
                attrs = {}
                for a in stats(s.body):
                    if type(a).__name__ == 'CVarDefNode':
                        bt = self.base_type(a.base_type)
                        for dc in a.declarators:
                            nm, t = self.declarator(dc, bt)
                            attrs[nm] = t
                if s.class_name in self.classes and not attrs:
                    continue
                self.classes[s.class_name] = (self.base, attrs)
                self.types[s.class_name] = CT('cls', name=s.class_name)
            elif n == 'IfStatNode':
                pass

    def is_func(self, dc):
        while dc is not None:
            if type(dc).__name__ == 'CFuncDeclaratorNode':
                return True
            dc = getattr(dc, 'base', None)
        return False

    def fname(self, dc):
        while type(dc).__name__ != 'CNameDeclaratorNode':
            dc = dc.base
        return dc.name

    def func_decl(self, dc, bt):
        ret = bt
        while type(dc).__name__ != 'CFuncDeclaratorNode':
            if type(dc).__name__ == 'CPtrDeclaratorNode':
                ret = cptr(ret)
            dc = dc.base
        args = []
        for a in dc.args:
            try:
                args.append(self.declarator(a.declarator, self.base_type(a.base_type))[1])
            except Unsupported:
                args.append(OBJ)
        return self.fname(dc), ret, args

    def cimport_from(self, s):
        m = s.module_name
        if s.relative_level and not m:
            for ent in s.imported_names:
                nm, al = ent[1], ent[2] or ent[1]
                self.cmods[al] = self.w.decls(nm)
            return
        if m in ('numpy',):
            for ent in s.imported_names:
                nm, al = ent[1], ent[2] or ent[1]
                if nm in NPTYPES:
                    self.types[al] = NPTYPES[nm]
            return
        if m in ('libc.math', 'libc.stdlib', 'libc.string'):
            for ent in s.imported_names:
                self.libc.add(ent[2] or ent[1])
            return
        if m == 'cpython' or m.startswith('cpython.') or m.startswith('libc.'):
            for ent in s.imported_names:
                if ent[1] == 'bool':
                    self.types[ent[2] or ent[1]] = CT('cls', name='bool')
            return
        d = self.w.decls(m.split('.')[-1])
        for ent in s.imported_names:
            nm, al = ent[1], ent[2] or ent[1]
            hit = False
            for tbl in ('types', 'consts', 'cfuncs', 'cyfuncs', 'classes', 'fused', 'cmods'):
                src = getattr(d, tbl)
                if nm in src:
                    getattr(self, tbl)[al] = src[nm]
                    hit = True
            if not hit:
                raise Unsupported('cimport %s from %s' % (nm, m))

    def const_expr(self, e):
        n = type(e).__name__
        if n == 'IntNode':
            return int(e.value, 0)
        if n == 'UnaryMinusNode':
            return -self.const_expr(e.operand)
        if n == 'NameNode':
            return self.consts[e.name]
        if n == 'BinopNode' or hasattr(e, 'operand1'):
            a, b = self.const_expr(e.operand1), self.const_expr(e.operand2)
            return {'+': a + b, '-': a - b, '*': a * b, '<<': a << b if b >= 0 else 0, '|': a | b}[e.operator]
        raise Unsupported('const expr')

    # -- types
    def base_type(self, b):
        n = type(b).__name__
        if n == 'CConstOrVolatileTypeNode' or n == 'CConstTypeNode':
            return self.base_type(b.base_type)
        if n == 'MemoryViewSliceTypeNode':
            el = self.base_type(b.base_type_node)
            ax = b.axes[0]
            contig = ax.step is not None and type(ax.step).__name__ == 'IntNode'
            if len(b.axes) != 1:
                raise Unsupported('n-d memoryview')
            cst = type(b.base_type_node).__name__ in ('CConstOrVolatileTypeNode', 'CConstTypeNode') and getattr(b.base_type_node, 'is_const', True)
            return CT('mv', bits=1 if cst else 0, el=el, signed=contig)
        if n == 'TemplatedTypeNode':
            return self.base_type(b.base_type_node)
        if n == 'CComplexBaseTypeNode':
            bt = self.base_type(b.base_type)
            return self.declarator(b.declarator, bt)[1]
        if n != 'CSimpleBaseTypeNode':
            raise Unsupported('base type %s' % n)
        nm = b.name
        if b.module_path:
            mp = b.module_path[0]
            m = self.cmods.get(mp)
            if m == 'np' or (m is None and mp == 'np'):
                if nm in NPTYPES:
                    return NPTYPES[nm]
                raise Unsupported('np type %s' % nm)
            if m is None:
                raise Unsupported('module %s' % mp)
            return m.type_named(nm)
        if b.is_basic_c_type:
            if nm == 'void':
                return VOID
            if nm == 'bint':
                return BINT
            if nm in ('double', 'float'):
                bits = 64 if nm == 'double' else 32
                return ccplx(bits * 2) if b.complex else cfloat(bits)
            if nm in ('size_t', 'Py_ssize_t', 'ssize_t', 'ptrdiff_t', 'Py_hash_t'):
                return cint(64, nm not in ('size_t',))
            if nm == 'object':
                return OBJ
            bits = {'char': 8, 'short': 16, 'int': 32, 'long': 64}.get(nm)
            if nm == 'int':
                bits = {-1: 16, 0: 32, 1: 64, 2: 64}[b.longness]
            if bits is None:
                raise Unsupported('C type %s' % nm)
            return cint(bits, b.signed != 0)
        if nm is None or nm in ('object',):
            return OBJ
        return self.type_named(nm, True)

    def type_named(self, nm, obj_ok=False):
        if nm in self.types:
            return self.types[nm]
        if nm in ('size_t', 'Py_ssize_t'):
            return cint(64, nm != 'size_t')
        if nm in ('list', 'tuple', 'dict', 'str', 'bool', 'bytes', 'set'):
            return CT('cls', name=nm)
        if obj_ok:
            return None        # an untyped name (e.g. argument name parsed as type)
        raise Unsupported('unknown C type %s' % nm)

    def declarator(self, d, t):
        n = type(d).__name__
        while n != 'CNameDeclaratorNode':
            if n == 'CPtrDeclaratorNode':
                t = cptr(t)
            elif n == 'CArrayDeclaratorNode':
                dim = self.const_expr(d.dimension) if d.dimension is not None else None
                t = CT('arr', bits=dim, el=t)
            elif n == 'CConstDeclaratorNode':
                pass
            elif n == 'CFuncDeclaratorNode':
                raise Unsupported('function pointer')
            d = d.base
            n = type(d).__name__
        return d.name, t


# ------------------------------------------------------------------ translator
class Trans:
    """translates one function body; env: local name -> CT"""

    def __init__(self, mod, fused=None, selfcls=None):
        self.m = mod               # CyModule
        self.d = mod.decls
        self.env = {}
        self.boxnames = ()
        self.boxed = set()         # scalar locals whose address is taken: kept in memory
        self.out = []
        self.ind = 1
        self.fz = fused or {}      # fused name -> CT
        self.selfcls = selfcls
        self.tmp = 0
        self.ret = OBJ

    def emit(self, s):
        self.out.append('    ' * self.ind + s)

    def sub(self, t):
        """apply fused substitution"""
        if t is None:
            return OBJ
        if t.k == 'fused':
            if t.name in self.fz:
                return self.fz[t.name]
            for nm, cts in self.d.fused.items():
                if nm == t.name:
                    raise Unsupported('unresolved fused type %s' % t.name)
        if t.el is not None:
            return CT(t.k, t.bits, t.signed, self.sub(t.el), t.name)
        return t

    # ---- expressions: returns (code, CT)
    def ex(self, e):
        n = type(e).__name__
        f = getattr(self, 'x_' + n, None)
        if f is None:
            raise Unsupported('cython expr %s' % n)
        return f(e)

    def o(self, e):
        """expression as Python object"""
        c, t = self.ex(e)
        return self.toobj(c, t)

    def toobj(self, c, t):
        if t.k == 'ptr' and t.el.k == 'int' and t.el.bits == 8:
            return 'cstr(%s)' % c
        if t.k == 'int' and t.name == 'bint':
            return 'bool(%s)' % c
        return c

    def cnd(self, e):
        c, t = self.ex(e)
        if t.k == 'ptr':
            return '(%s != NULL)' % c
        return c

    def x_IntNode(self, e):
        v = int(e.value, 0) if not re.fullmatch(r'0\d+', e.value) else int(e.value, 8)
        return str(v), cint(32 if -2**31 <= v < 2**31 else 64, True)

    def x_FloatNode(self, e):
        return repr(float(e.value)), cfloat(64)

    def x_ImagNode(self, e):
        return repr(complex(0, float(e.value))), OBJ

    def x_UnicodeNode(self, e):
        return repr(str(e.value)), OBJ
    x_StringNode = x_UnicodeNode
    x_IdentifierStringNode = x_UnicodeNode

    def x_BytesNode(self, e):
        return repr(bytes(e.value)), OBJ

    def x_BoolNode(self, e):
        return ('True' if e.value else 'False'), OBJ

    def x_NoneNode(self, e):
        return 'None', OBJ

    def x_NullNode(self, e):
        return 'NULL', cptr(VOID)

    def x_EllipsisNode(self, e):
        return '...', OBJ

    def x_NameNode(self, e):
        nm = str(e.name)
        if nm in self.boxed:
            return 'ptr_get(%s__box.ptr,0,%s)' % (nm, self.m.ctref(self.env[nm])), self.env[nm]
        if nm in self.env:
            return nm, self.env[nm]
        d = self.d
        if nm in d.consts and nm not in self.m.pynames:
            return str(d.consts[nm]), cint(32, True)
        return nm, OBJ

    def modof(self, e):
        """resolve dotted cimported module"""
        if type(e).__name__ == 'NameNode' and e.name not in self.env:
            m = self.d.cmods.get(e.name)
            return m
        return None

    def x_AttributeNode(self, e):
        at = str(e.attribute)
        # enum type attr: MODE.MODE_X
        if type(e.obj).__name__ == 'NameNode' and e.obj.name not in self.env:
            m = self.d.cmods.get(e.obj.name)
            if m is not None and m != 'np':
                if at in m.consts:
                    return str(m.consts[at]), cint(32, True)
                if at in m.cfuncs:
                    return at, CT('cfunc', name=at)
            t = self.d.types.get(e.obj.name)
            if t is not None and t.k == 'int' and at in self.allconsts():
                return str(self.allconsts()[at]), cint(32, True)
        c, t = self.ex(e.obj)
        if t.k == 'ptr' and t.el.k == 'struct':
            return self.sfield(c, t.el.name, at)
        if t.k == 'struct':
            if t.name.startswith('@'):
                base, sname, path = t.name[1:].split('@')
                return self.sfield(c, sname, at, (base, path))
            return self.sfield(c + '.ptr', t.name, at)
        if t.k == 'cls':
            if t.name == 'np.ndarray':
                if at == 'data':
                    return 'nd_data(%s)' % c, cptr(cint(8, True))
                if at == 'shape':
                    return 'nd_shape(%s)' % c, cptr(cint(64, True))
                if at == 'strides':
                    return 'nd_strides(%s)' % c, cptr(cint(64, True))
                if at == 'ndim':
                    return 'c_ndim(%s)' % c, cint(32, True)
                if at == 'size':
                    return '%s.size' % c, cint(64, True)
                return '%s.%s' % (c, at), OBJ
            cl = self.d.classes.get(t.name)
            if cl and at in cl[1]:
                at_t = self.sub(cl[1][at])
                return '%s._c_%s' % (c, at) if at_t.k == 'ptr' else '%s.%s' % (c, at), at_t
            return '%s.%s' % (c, at), OBJ
        if t.k == 'mv':
            if at == 'shape':
                return '%s.shape' % c, OBJ
            if at == 'size':
                return '%s.size' % c, OBJ
            return '%s.%s' % (c, at), OBJ
        return '%s.%s' % (self.toobj(c, t), at), OBJ

    def allconsts(self):
        r = dict(self.d.consts)
        for m in self.d.cmods.values():
            if m != 'np':
                r.update(m.consts)
        return r

    def sfield(self, ptr, sname, at, base=None):
        f = self.m.world.structs.get(sname, {})
        if at not in f:
            raise Unsupported('struct field %s.%s' % (sname, at))
        t = f[at]
        root, path = (base if base else (sname, ''))
        path = path + '.' + at if path else at
        if t.k == 'struct':
            return ptr, CT('struct', name='@%s@%s@%s' % (root, t.name, path))
        return 'sget(%r,%r,%s)' % (root, path, ptr) if t.k != 'int' else \
            'wrap(sget(%r,%r,%s),%d,%s)' % (root, path, ptr, t.bits, t.signed), t

    def x_IndexNode(self, e):
        c, t = self.ex(e.base)
        if t.k == 'ptr':
            i, it = self.ex(e.index)
            return 'ptr_get(%s,%s,%s)' % (c, self.asint(i, it), self.m.ctref(t.el)), t.el
        if t.k == 'mv':
            if type(e.index).__name__ == 'SliceNode':
                return '%s[%s]' % (c, self.o(e.index)), t
            i, it = self.ex(e.index)
            return '%s.get(%s)' % (c, self.asint(i, it)), t.el
        if t.k == 'arr':
            i, it = self.ex(e.index)
            return '%s[%s]' % (c, i), t.el
        return '%s[%s]' % (self.toobj(c, t), self.o(e.index)), OBJ

    def asint(self, c, t):
        if t.k == 'int':
            return c
        return 'toint(%s,64,True)' % c

    def x_SliceNode(self, e):
        return 'slice(%s,%s,%s)' % tuple(self.o(x) if x is not None else 'None' for x in (e.start, e.stop, e.step)), OBJ

    def x_SliceIndexNode(self, e):
        c, t = self.ex(e.base)
        a = self.o(e.start) if e.start is not None else ''
        b = self.o(e.stop) if e.stop is not None else ''
        if t.k == 'ptr':
            if t.el.k == 'int' and t.el.bits == 8:
                return 'cstr(%s)[%s:%s]' % (c, a, b), OBJ
            raise Unsupported('pointer slice')
        if t.k == 'mv':
            # bounds are converted to Py_ssize_t; negative ones count from the end
            ab = []
            for e2 in (e.start, e.stop):
                if e2 is None:
                    ab.append('')
                else:
                    q, qt = self.ex(e2)
                    ab.append('wrap(%s,64,True)' % q if qt.k == 'int' else q)
            return '%s[%s:%s]' % (c, ab[0], ab[1]), t
        return '%s[%s:%s]' % (self.toobj(c, t), a, b), OBJ

    def x_TupleNode(self, e):
        return '(%s,)' % ', '.join(self.o(a) for a in e.args) if e.args else '()', OBJ

    def x_ListNode(self, e):
        return '[%s]' % ', '.join(self.o(a) for a in e.args), OBJ

    def x_SetNode(self, e):
        return '{%s}' % ', '.join(self.o(a) for a in e.args), OBJ

    def x_StarredUnpackingNode(self, e):
        return '*%s' % self.o(e.target), OBJ

    def x_DictNode(self, e):
        return '{%s}' % ', '.join('%s: %s' % (self.o(i.key), self.o(i.value)) for i in e.key_value_pairs), OBJ

    def x_JoinedStrNode(self, e):
        return '"".join([%s])' % ', '.join('str(%s)' % self.o(v) for v in e.values), OBJ

    def x_FormattedValueNode(self, e):
        spec = self.o(e.format_spec) if e.format_spec is not None else "''"
        v = self.o(e.value)
        if e.conversion_char == 'r':
            v = 'repr(%s)' % v
        elif e.conversion_char == 's':
            v = 'str(%s)' % v
        return 'format(%s,%s)' % (v, spec), OBJ

    def x_NotNode(self, e):
        return '(not %s)' % self.cnd(e.operand), BINT

    def x_UnaryMinusNode(self, e):
        c, t = self.ex(e.operand)
        if t.k == 'int':
            t = self.promote(t, cint(32, True))
            return 'wrap(-(%s),%d,%s)' % (c, t.bits, t.signed), t
        return '(-%s)' % c, t

    def x_UnaryPlusNode(self, e):
        return self.ex(e.operand)

    def x_TildeNode(self, e):
        c, t = self.ex(e.operand)
        if t.k == 'int':
            t = self.promote(t, cint(32, True))
            return 'wrap(~(%s),%d,%s)' % (c, t.bits, t.signed), t
        return '(~%s)' % c, t

    def promote(self, a, b):
        bits = max(32, a.bits, b.bits)
        def sg(t):
            return t.signed or t.bits < 32
        if a.bits == b.bits and a.bits >= 32:
            return cint(bits, sg(a) and sg(b))
        big = a if a.bits > b.bits else b
        return cint(bits, sg(big) if big.bits >= 32 else True)

    def binop(self, e):
        a, ta = self.ex(e.operand1)
        b, tb = self.ex(e.operand2)
        op = e.operator
        if ta.k == 'int' and tb.k == 'int':
            if op in ('<<', '>>'):
                t = self.promote(ta, cint(32, True))
            else:
                t = self.promote(ta, tb)
            if op in ('+', '-', '*', '&', '|', '^', '<<', '>>'):
                return 'wrap((%s) %s (%s),%d,%s)' % (a, op, b, t.bits, t.signed), t
            if op in ('//', '%'):
                if ta.signed != t.signed:
                    a = 'wrap(%s,%d,%s)' % (a, t.bits, t.signed)
                if tb.signed != t.signed:
                    b = 'wrap(%s,%d,%s)' % (b, t.bits, t.signed)
                return '%s(%s,%s)' % ('pydiv' if op == '//' else 'pymod', a, b), t
            if op == '/':
                return 'truediv(%s,%s)' % (a, b), cfloat(64)
            if op == '**':
                return 'wrap((%s) ** (%s),%d,%s)' % (a, b, t.bits, t.signed), t
        if ta.k in ('int', 'float') and tb.k in ('int', 'float'):
            t = cfloat(64)
            if op == '/':
                return 'truediv(%s,%s)' % (a, b), t
            return '((%s) %s (%s))' % (a, op, b), t
        if ta.k == 'ptr' and tb.k == 'int' and op in '+-':
            return 'ptr_add(%s,%s(%s),%d)' % (a, '-' if op == '-' else '', b, ctsize(ta.el)), ta
        if op == '%':
            return 'strmod(%s,%s)' % (self.toobj(a, ta), self.toobj(b, tb)), OBJ
        return '((%s) %s (%s))' % (self.toobj(a, ta), op, self.toobj(b, tb)), OBJ
    x_AddNode = x_SubNode = x_MulNode = x_DivNode = x_ModNode = x_IntBinopNode = x_PowNode = x_NumBinopNode = x_BitwiseOrNode = binop

    def x_BoolBinopNode(self, e):
        a, ta = self.ex(e.operand1)
        b, tb = self.ex(e.operand2)
        if ta.k == 'ptr':
            a = '(%s != NULL)' % a
        if tb.k == 'ptr':
            b = '(%s != NULL)' % b
        return '((%s) %s (%s))' % (a, e.operator, b), (ta if ta == tb and ta.k != 'ptr' else OBJ)

    def x_CondExprNode(self, e):
        a, ta = self.ex(e.true_val)
        b, tb = self.ex(e.false_val)
        t = ta if ta == tb else (self.promote(ta, tb) if ta.k == tb.k == 'int' else OBJ)
        return '((%s) if (%s) else (%s))' % (a, self.cnd(e.test), b), t

    def fused_test(self, e):
        """cdata_t is np.float64_t -> True/False/None"""
        if type(e).__name__ != 'PrimaryCmpNode' or e.operator not in ('is', 'is_not', '==', '!=', 'in'):
            return None
        if type(e.operand1).__name__ != 'NameNode' or e.operand1.name not in self.d.fused:
            return None
        ft = self.fz.get(e.operand1.name)
        if ft is None:
            raise Unsupported('fused test outside specialisation')
        ts = e.operand2.args if hasattr(e.operand2, 'args') else [e.operand2]
        r = any(self.type_expr(x) == ft for x in ts)
        return (not r) if e.operator in ('is_not', '!=') else r

    def type_expr(self, e):
        if type(e).__name__ == 'AttributeNode':
            if e.obj.name == 'np' or self.d.cmods.get(e.obj.name) == 'np':
                return NPTYPES[e.attribute]
            return self.d.cmods[e.obj.name].type_named(e.attribute)
        if e.name in ('double', 'float'):
            return cfloat(64 if e.name == 'double' else 32)
        return self.d.type_named(e.name)

    def x_PrimaryCmpNode(self, e):
        ft = self.fused_test(e)
        if ft is not None:
            return str(ft), BINT
        parts = []
        a, ta = self.ex(e.operand1)
        node = e
        op, rhs = e.operator, e.operand2
        while True:
            b, tb = self.ex(rhs)
            parts.append(self.cmp(a, ta, op, b, tb))
            casc = getattr(node, 'cascade', None)
            if casc is None:
                break
            a, ta = b, tb
            node = casc
            op, rhs = casc.operator, casc.operand2
        return '(' + ' and '.join(parts) + ')', BINT

    def cmp(self, a, ta, op, b, tb):
        op = {'is_not': 'is not', 'not_in': 'not in', '<>': '!='}.get(op, op)
        if (ta.k == 'ptr' or tb.k == 'ptr'):
            if op in ('is', 'is not'):
                op = '==' if op == 'is' else '!='
            return '(%s %s %s)' % (a if a != 'None' else 'NULL', op, b if b != 'None' else 'NULL')
        if ta.k == 'int' and tb.k == 'int' and op in ('<', '<=', '>', '>=', '==', '!='):
            t = self.promote(ta, tb)
            if not t.signed:
                if ta.signed and not a.isdigit():
                    a = 'wrap(%s,%d,False)' % (a, t.bits)
                if tb.signed and not b.isdigit():
                    b = 'wrap(%s,%d,False)' % (b, t.bits)
        return '((%s) %s (%s))' % (self.toobj(a, ta), op, self.toobj(b, tb))

    def x_TypecastNode(self, e):
        t = self.sub(self.d.declarator(e.declarator, self.d.base_type(e.base_type))[1])
        c, t0 = self.ex(e.operand)
        return self.cast(c, t0, t), t

    def cast(self, c, t0, t):
        if t.k == 'ptr':
            if t0.k == 'ptr' or t0.k == 'arr':
                return c
            return 'toptr(%s)' % c
        return self.conv(c, t0, t)

    def x_CythonArrayNode(self, e):
        mv = e.base_type_node
        el = self.sub(self.d.base_type(mv.base_type_node))
        c, t0 = self.ex(e.operand)
        ax = mv.axes[0]
        n, nt = self.ex(ax.stop)
        return 'MV(None,%s,%s,%s)' % (self.m.ctref(el), c, self.asint(n, nt)), CT('mv', el=el, signed=True)

    def x_AmpersandNode(self, e):
        op = e.operand
        n = type(op).__name__
        if n == 'IndexNode':
            c, t = self.ex(op.base)
            i, it = self.ex(op.index)
            i = self.asint(i, it)
            if t.k == 'mv':
                return '%s.addr(%s)' % (c, i), cptr(t.el)
            if t.k == 'ptr':
                return 'ptr_add(%s,%s,%d)' % (c, i, ctsize(t.el)), t
            if t.k == 'cls' and t.name == 'np.ndarray':
                raise Unsupported('&ndarray[i]')
        if n == 'NameNode':
            c, t = self.ex(op)
            if t.k == 'struct':
                return '%s.ptr' % c, cptr(t)
            if str(op.name) in self.boxed:
                return '%s__box.ptr' % op.name, cptr(t)
        raise Unsupported('address-of %s' % n)

    def x_SizeofTypeNode(self, e):
        t = self.sub(self.d.declarator(e.declarator, self.d.base_type(e.base_type))[1])
        return str(ctsize(t)), cint(64, False)

    def x_SimpleCallNode(self, e):
        return self.call(e.function, e.args or [], [])

    def x_GeneralCallNode(self, e):
        pa = e.positional_args
        if type(pa).__name__ != 'TupleNode':
            a = '*' + self.o(pa)
            kw = self.o(e.keyword_args) if e.keyword_args is not None else None
            return '%s(%s%s)' % (self.o(e.function), a, ', **' + kw if kw else ''), OBJ
        kws = []
        if e.keyword_args is not None:
            if type(e.keyword_args).__name__ != 'DictNode':
                return '%s(%s, **%s)' % (self.o(e.function), ', '.join(self.o(x) for x in pa.args), self.o(e.keyword_args)), OBJ
            for it in e.keyword_args.key_value_pairs:
                kws.append((str(it.key.value), it.value))
        return self.call(e.function, pa.args, kws)

    def call(self, fn, args, kws):
        n = type(fn).__name__
        # extern C function through cimported module or directly
        cf = None
        if n == 'AttributeNode' and type(fn.obj).__name__ == 'NameNode' and fn.obj.name not in self.env:
            m = self.d.cmods.get(fn.obj.name)
            if m is not None and m != 'np' and fn.attribute in m.cfuncs:
                cf = (fn.attribute, m.cfuncs[fn.attribute])
            if m == 'np' and fn.attribute == 'import_array':
                return 'None', OBJ
        elif n == 'NameNode' and fn.name not in self.env:
            if fn.name in self.d.cfuncs:
                cf = (fn.name, self.d.cfuncs[fn.name])
            elif fn.name in self.d.libc:
                return 'cmath_call(%r,%s)' % (fn.name, ', '.join('tofloat(%s,64)' % self.ex(a)[0] for a in args)), cfloat(64)
        if cf:
            name, (ret, ats) = cf
            cargs = []
            for a, at in zip(args, ats):
                c, t = self.ex(a)
                at = self.sub(at)
                if at.k == 'ptr':
                    c = c if t.k == 'ptr' else 'toptr(%s)' % c
                elif at.k == 'struct':
                    c = '%s.ptr' % c
                elif at.k == 'int' and t.k == 'int':
                    pass
                elif at.k in ('int', 'float'):
                    c = self.conv(c, t, at)
                cargs.append(c)
            code = 'ccall(%r,%s)' % (name, ', '.join(cargs))
            if ret.k == 'int':
                code = 'cret(%s,%d,%s)' % (code, ret.bits, ret.signed)
            return code, ret
        if n == 'NameNode' and fn.name in ('len',) and fn.name not in self.env:
            return 'len(%s)' % self.o(args[0]), cint(64, True)
        if n == 'NameNode' and fn.name in ('sizeof',):
            raise Unsupported('sizeof')
        # mv methods
        rt = OBJ
        if n == 'AttributeNode':
            c, t = self.ex(fn.obj)
            if t.k == 'mv' and fn.attribute == 'copy':
                return '%s.copy()' % c, t
            if t.k == 'ptr' and t.el.k == 'int' and t.el.bits == 8:
                fc = 'cstr(%s).%s' % (c, fn.attribute)
            else:
                fc = self.ex(fn)[0]
        else:
            fc, ft = self.ex(fn)
            if n == 'NameNode' and fn.name in self.m.cret:
                rt = self.m.cret[fn.name]
                # C-level arguments into cdef function: pointers allowed
                al = [self.ex(a)[0] for a in args] + ['%s=%s' % (k, self.ex(v)[0]) for k, v in kws]
                return '%s(%s)' % (fc, ', '.join(al)), self.sub(rt)
        al = [self.o(a) for a in args] + ['%s=%s' % (k, self.o(v)) for k, v in kws]
        return '%s(%s)' % (fc, ', '.join(al)), rt

    def x_LambdaNode(self, e):
        raise Unsupported('lambda')

    def x_ComprehensionNode(self, e):
        return self.compr(e)

    def x_GeneratorExpressionNode(self, e):
        return self.compr(e)

    def x_InlinedGeneratorExpressionNode(self, e):
        return self.compr(e)

    def compr(self, e):
        # build from the loop structure
        loops = []
        node = e.loop if hasattr(e, 'loop') else e.gen.def_node.gbody
        conds = []
        saved = dict(self.env)
        while True:
            n = type(node).__name__
            if n == 'ForInStatNode':
                it = self.o(node.iterator.sequence)
                tgt = self.target_names(node.target)
                for v in tgt:
                    self.env.pop(v, None)
                loops.append('for %s in %s' % (self.o(node.target).rstrip(), it))
                node = node.body
            elif n == 'IfStatNode':
                loops.append('if %s' % self.cnd(node.if_clauses[0].condition))
                node = node.if_clauses[0].body
            elif n == 'StatListNode':
                node = node.stats[0]
            else:
                break
        n = type(node).__name__
        if n == 'ComprehensionAppendNode':
            body = self.o(node.expr)
        elif n == 'DictComprehensionAppendNode':
            body = '%s: %s' % (self.o(node.key_expr), self.o(node.value_expr))
        elif n == 'ExprStatNode':
            ex = node.expr
            if type(ex).__name__ == 'YieldExprNode':
                body = self.o(ex.arg)
            elif type(ex).__name__ == 'ComprehensionAppendNode':
                body = self.o(ex.expr)
            else:
                raise Unsupported('comprehension body')
        elif n == 'YieldExprNode':
            body = self.o(node.arg)
        else:
            raise Unsupported('comprehension body %s' % n)
        self.env = saved
        ty = getattr(getattr(e, 'type', None), 'name', None)
        s = '%s %s' % (body, ' '.join(loops))
        if n == 'DictComprehensionAppendNode':
            return '{%s}' % s, OBJ
        if ty == 'set':
            return '{%s}' % s, OBJ
        if type(e).__name__ == 'ComprehensionNode':
            return '[%s]' % s, OBJ
        return '(%s)' % s, OBJ

    def target_names(self, t):
        n = type(t).__name__
        if n == 'NameNode':
            return [t.name]
        if n in ('TupleNode', 'ListNode'):
            r = []
            for a in t.args:
                r += self.target_names(a)
            return r
        return []

    # ---- conversion on assignment
    def conv(self, c, t0, t):
        if t.k == 'obj':
            return self.toobj(c, t0)
        if t.k == 'int':
            if t.name == 'bint':
                return 'tobint(%s)' % c
            if t0.k == 'int':
                if (t0.bits, t0.signed) == (t.bits, t.signed):
                    return c
                return 'wrap(%s,%d,%s)' % (c, t.bits, t.signed)
            if t0.k == 'float':
                return 'wrap(int(%s),%d,%s)' % (c, t.bits, t.signed)
            return 'toint(%s,%d,%s)' % (c, t.bits, t.signed)
        if t.k == 'float':
            return 'tofloat(%s,%d)' % (c, t.bits)
        if t.k == 'cplx':
            return c
        if t.k == 'ptr':
            return c if t0.k == 'ptr' else 'toptr(%s)' % c
        if t.k == 'mv':
            if t0.k == 'mv' and t0.el == t.el:
                return c
            return 'tomv(%s,%s,%s,%s)' % (c, self.m.ctref(t.el), t.signed, bool(t.bits))
        if t.k == 'cls':
            if t0.k == 'cls' and t0.name == t.name:
                return c
            return 'tocls(%s,clsof(%r),%r)' % (c, t.name, t.name)
        if t.k == 'struct':
            return 'scopy(%s)' % c
        raise Unsupported('convert to %s' % t)

    # ---- statements
    def st(self, s):
        n = type(s).__name__
        f = getattr(self, 's_' + n, None)
        if f is None:
            raise Unsupported('cython stmt %s' % n)
        f(s)

    def block(self, b):
        self.ind += 1
        k = len(self.out)
        for s in stats(b):
            self.st(s)
        if len(self.out) == k:
            self.emit('pass')
        self.ind -= 1

    def s_PassStatNode(self, s):
        self.emit('pass')

    def s_BreakStatNode(self, s):
        self.emit('break')

    def s_ContinueStatNode(self, s):
        self.emit('continue')

    def s_GlobalNode(self, s):
        self.emit('global ' + ', '.join(s.names))

    def s_NonlocalNode(self, s):
        self.emit('nonlocal ' + ', '.join(s.names))

    def s_AssertStatNode(self, s):
        self.emit('assert %s' % self.cnd(s.condition))

    def s_DelStatNode(self, s):
        for a in s.args:
            self.emit('del %s' % self.o(a))

    def s_ExprStatNode(self, s):
        if type(s.expr).__name__ in ('UnicodeNode', 'StringNode'):
            return
        c, t = self.ex(s.expr)
        self.emit(c)

    def s_ReturnStatNode(self, s):
        if s.value is None:
            self.emit('return None')
            return
        c, t = self.ex(s.value)
        if self.ret.k == 'obj':
            self.emit('return %s' % self.toobj(c, t))
        else:
            self.emit('return %s' % self.conv(c, t, self.ret))

    def s_RaiseStatNode(self, s):
        if s.exc_type is None:
            self.emit('raise')
            return
        c = self.o(s.exc_type)
        if s.exc_value is not None:
            c = '%s(%s)' % (c, self.o(s.exc_value))
        self.emit('raise %s%s' % (c, ' from ' + self.o(s.cause) if s.cause is not None else ''))

    def s_ReraiseStatNode(self, s):
        self.emit('raise')

    def s_IfStatNode(self, s):
        kw = 'if'
        static_done = False
        for cl in s.if_clauses:
            ft = self.static_cond(cl.condition)
            if ft is False:
                continue
            if ft is True:
                if kw == 'if':
                    self.ind -= 1
                    self.block(cl.body)
                    self.ind += 1
                else:
                    self.emit('else:')
                    self.block(cl.body)
                static_done = True
                break
            self.emit('%s %s:' % (kw, self.cnd(cl.condition)))
            self.block(cl.body)
            kw = 'elif'
        if not static_done and s.else_clause is not None:
            if kw == 'if':
                self.ind -= 1
                self.block(s.else_clause)
                self.ind += 1
            else:
                self.emit('else:')
                self.block(s.else_clause)

    def static_cond(self, e):
        n = type(e).__name__
        ft = self.fused_test(e)
        if ft is not None:
            return ft
        if n == 'BoolBinopNode':
            a, b = self.static_cond(e.operand1), self.static_cond(e.operand2)
            if e.operator == 'and':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a is True or b is True:
                    return True
                if a is False and b is False:
                    return False
        if n == 'NotNode':
            a = self.static_cond(e.operand)
            return None if a is None else not a
        return None

    def s_GILStatNode(self, s):
        self.ind -= 1
        self.block(s.body)
        self.ind += 1

    def s_StatListNode(self, s):
        for x in stats(s):
            self.st(x)

    def s_GILExitNode(self, s):
        pass

    def s_WhileStatNode(self, s):
        self.emit('while %s:' % (self.cnd(s.condition) if s.condition is not None else 'True'))
        self.block(s.body)
        if s.else_clause is not None:
            self.emit('else:')
            self.block(s.else_clause)

    def s_ForInStatNode(self, s):
        tg = s.target
        it = self.o(s.iterator.sequence)
        if type(tg).__name__ == 'NameNode':
            t = self.env.get(tg.name, OBJ)
            if t.k == 'obj':
                self.emit('for %s in %s:' % (tg.name, it))
                self.block(s.body)
            else:
                self.tmp += 1
                v = '_it%d' % self.tmp
                self.emit('for %s in %s:' % (v, it))
                self.ind += 1
                self.emit('%s = %s' % (tg.name, self.conv(v, OBJ, t)))
                self.ind -= 1
                self.block(s.body)
        else:
            self.emit('for %s in %s:' % (self.o(tg), it))
            self.block(s.body)
        if s.else_clause is not None:
            self.emit('else:')
            self.block(s.else_clause)

    def s_TryExceptStatNode(self, s):
        self.emit('try:')
        self.block(s.body)
        for c in s.except_clauses:
            if c.pattern:
                p = ', '.join(self.o(x) for x in c.pattern)
                self.emit('except (%s,)%s:' % (p, ' as ' + c.target.name if c.target is not None else ''))
            else:
                self.emit('except Exception:')
            self.block(c.body)
        if s.else_clause is not None:
            self.emit('else:')
            self.block(s.else_clause)

    def s_TryFinallyStatNode(self, s):
        self.emit('try:')
        self.block(s.body)
        self.emit('finally:')
        self.block(s.finally_clause)

    def s_WithStatNode(self, s):
        m = self.o(s.manager)
        self.emit('with %s%s:' % (m, ' as ' + self.o(s.target) if s.target is not None else ''))
        body = s.body
        while type(body).__name__ in ('TryFinallyStatNode', 'TryExceptStatNode'):
            body = body.body
        self.block(body)

    def s_CVarDefNode(self, s):
        bt = self.d.base_type(s.base_type)
        for dc in s.declarators:
            if bt is None:
                bt = OBJ
            nm, t = self.d.declarator(dc, bt)
            t = self.sub(t)
            dflt = None
            inner = dc
            while inner is not None and type(inner).__name__ != 'CNameDeclaratorNode':
                inner = inner.base
            if inner is not None and inner.default is not None:
                dflt = inner.default
            if nm == '' or nm is None:
                # "cdef psi_i, psi_r" parsed with type name = first?
                nm = s.base_type.name
                t = OBJ
            self.env[nm] = t
            if str(nm) in self.boxnames and t.k in ('int', 'float'):
                self.boxed.add(str(nm))
                self.emit('%s__box = StructVar(%d, %r)' % (nm, ctsize(t), str(nm)))
                if dflt is not None:
                    c, t0 = self.ex(dflt)
                    self.emit('ptr_set(%s__box.ptr,0,%s,%s)' % (nm, self.m.ctref(t), self.conv(c, t0, t)))
                continue
            if t.k == 'struct':
                self.emit('%s = StructVar(ssize(%r), %r)' % (nm, t.name, nm))
            elif t.k == 'arr':
                self.emit('%s = [0]*%d' % (nm, t.bits))
            elif dflt is not None:
                c, t0 = self.ex(dflt)
                self.emit('%s = %s' % (nm, self.conv(c, t0, t)))
            elif t.k in ('obj', 'cls', 'mv'):
                self.emit('%s = None' % nm)

    def s_SingleAssignmentNode(self, s):
        r = s.rhs
        if type(r).__name__ == 'ImportNode':
            self.emit('%s = __imp(%r, %r)' % (s.lhs.name, str(r.module_name.value), r.level))
            return
        c, t0 = self.ex(r)
        if t0.k == 'float' and type(s.lhs).__name__ == 'NameNode' and str(s.lhs.name) not in self.env and str(s.lhs.name) in getattr(self, 'once', ()):
            self.env[str(s.lhs.name)] = t0
        self.assign(s.lhs, c, t0)

    def s_CascadedAssignmentNode(self, s):
        c, t0 = self.ex(s.rhs)
        self.tmp += 1
        v = '_t%d' % self.tmp
        self.emit('%s = %s' % (v, c))
        for l in s.lhs_list:
            self.assign(l, v, t0)

    def s_ParallelAssignmentNode(self, s):
        for x in s.stats:
            self.st(x)

    def s_InPlaceAssignmentNode(self, s):
        class B:
            pass
        b = B()
        b.operand1 = s.lhs
        b.operand2 = s.rhs
        b.operator = s.operator
        lc, lt = self.ex(s.lhs)
        if lt.k in ('obj', 'cls') and type(s.lhs).__name__ == 'NameNode':
            self.emit('%s %s= %s' % (lc, s.operator, self.o(s.rhs)))
            return
        c, t = self.binop(b)
        self.assign(s.lhs, c, t)

    def assign(self, l, c, t0):
        n = type(l).__name__
        if n == 'NameNode':
            t = self.env.get(l.name, OBJ)
            if str(l.name) in self.boxed:
                self.emit('ptr_set(%s__box.ptr,0,%s,%s)' % (l.name, self.m.ctref(t), self.conv(c, t0, t)))
                return
            self.emit('%s = %s' % (l.name, self.conv(c, t0, t)))
            if t.k == 'cls' and t.name == 'np.ndarray':
                pass
        elif n == 'AttributeNode':
            oc, ot = self.ex(l.obj)
            at = str(l.attribute)
            if ot.k == 'ptr' and ot.el.k == 'struct' or ot.k == 'struct':
                if ot.k == 'struct' and ot.name.startswith('@'):
                    root, sname, path = ot.name[1:].split('@')
                    p = oc
                    full = path + '.' + at
                elif ot.k == 'struct':
                    root = sname = ot.name
                    p = oc + '.ptr'
                    full = at
                else:
                    root = sname = ot.el.name
                    p = oc
                    full = at
                ft = self.m.world.structs[sname][at]
                self.emit('sset(%r,%r,%s,%s)' % (root, full, p, self.conv(c, t0, ft)))
                return
            if ot.k == 'cls' and ot.name in self.d.classes and at in self.d.classes[ot.name][1]:
                ft = self.sub(self.d.classes[ot.name][1][at])
                if ft.k == 'ptr':
                    self.emit('%s._c_%s = %s' % (oc, at, self.conv(c, t0, ft)))
                else:
                    self.emit('%s.%s = %s' % (oc, at, self.conv(c, t0, ft)))
                return
            self.emit('%s.%s = %s' % (oc, at, self.toobj(c, t0)))
        elif n == 'IndexNode':
            bc, bt = self.ex(l.base)
            if bt.k == 'ptr':
                i, it = self.ex(l.index)
                self.emit('ptr_set(%s,%s,%s,%s)' % (bc, self.asint(i, it), self.m.ctref(bt.el), c))
            elif bt.k == 'mv':
                i, it = self.ex(l.index)
                self.emit('%s.set(%s,%s)' % (bc, self.asint(i, it), self.conv(c, t0, bt.el)))
            else:
                self.emit('%s[%s] = %s' % (bc, self.o(l.index), self.toobj(c, t0)))
        elif n in ('TupleNode', 'ListNode'):
            self.tmp += 1
            vs = ['_u%d_%d' % (self.tmp, k) for k in range(len(l.args))]
            self.emit('%s = %s' % (', '.join(vs) + (',' if len(vs) == 1 else ''), self.toobj(c, t0)))
            for a, v in zip(l.args, vs):
                self.assign(a, v, OBJ)
        elif n == 'SliceIndexNode':
            bc, bt = self.ex(l.base)
            a = self.o(l.start) if l.start is not None else ''
            b = self.o(l.stop) if l.stop is not None else ''
            self.emit('%s[%s:%s] = %s' % (bc, a, b, self.toobj(c, t0)))
        else:
            raise Unsupported('assign to %s' % n)

    # nested functions / classes
    def s_DefNode(self, s):
        sub = Trans(self.m, self.fz, None)
        sub.env = {k: v for k, v in self.env.items()}
        src = sub.func_src(s.name, s.args, s.star_arg, s.starstar_arg, s.body, OBJ, nested=True)
        for l in src:
            self.emit(l)

    def func_src(self, name, args, star, sstar, body, ret, nested=False, skip_first=False):
        """returns list of source lines"""
        self.ret = ret
        params = []
        pro = []
        kwonly = False
        for k, a in enumerate(args):
            bt = self.d.base_type(a.base_type) if a.base_type is not None else OBJ
            nm, t = (None, None)
            if type(a.declarator).__name__ == 'CNameDeclaratorNode' and a.declarator.name == '':
                nm = a.base_type.name
                t = OBJ
            else:
                nm, t = self.d.declarator(a.declarator, bt if bt is not None else OBJ)
            t = self.sub(t) if t is not None else OBJ
            if k == 0 and self.selfcls:
                t = CT('cls', name=self.selfcls)
            self.env[nm] = t
            if getattr(a, 'kw_only', False) and not kwonly:
                kwonly = True
                params.append('*' + (star.name if star else ''))
            if a.default is not None:
                params.append('%s=%s' % (nm, self.ex(a.default)[0]))
            else:
                params.append(nm)
            if t.k == 'obj' or (k == 0 and self.selfcls):
                continue
            if t.k == 'ptr':
                continue
            if t.k == 'cls' and getattr(a, 'not_none', False):
                pro.append('%s = tocls(%s,clsof(%r),%r,False)' % (nm, nm, t.name, t.name))
            else:
                pro.append('%s = %s' % (nm, self.conv(nm, OBJ, t)))
        if star and not kwonly:
            params.append('*' + star.name)
            self.env[star.name] = OBJ
        if sstar:
            params.append('**' + sstar.name)
            self.env[sstar.name] = OBJ
        self.out = []
        self.ind = 0
        self.emit('def %s(%s):' % (name, ', '.join(params)))
        self.ind = 1
        for l in pro:
            self.emit(l)
        if t_ret_default(ret):
            pass
        self.emit('pass')
        self.once, self.boxnames = assigned_once(body)
        for s in stats(body):
            self.st(s)
        return self.out


def assigned_once(body):
    """undeclared names bound by exactly one plain assignment: Cython infers a C type for those holding C floating-point values"""
    n = {}
    box = set()

    def walk(x):
        k = type(x).__name__
        if k == 'NameNode':
            return
        if k == 'AmpersandNode' and type(x.operand).__name__ == 'NameNode':
            box.add(str(x.operand.name))
        if k in ('SingleAssignmentNode', 'CascadedAssignmentNode', 'InPlaceAssignmentNode', 'ForInStatNode', 'ForFromStatNode', 'DelStatNode'):
            for l in (getattr(x, 'lhs_list', None) or [getattr(x, 'lhs', None) or getattr(x, 'target', None)]):
                for q in (getattr(l, 'args', None) or [l]):
                    if type(q).__name__ == 'NameNode':
                        n[q.name] = n.get(q.name, 0) + (1 if k == 'SingleAssignmentNode' else 2)
        for a in getattr(x, 'child_attrs', None) or ():
            v = getattr(x, a, None)
            for y in v if isinstance(v, (list, tuple)) else [v]:
                if hasattr(y, 'child_attrs'):
                    walk(y)
    for s in stats(body):
        walk(s)
    return {str(k) for k, v in n.items() if v == 1}, box


def t_ret_default(t):
    return False


class CyModule:
    def __init__(self, world, base, pymod):
        self.world = world
        self.base = base
        self.pymod = pymod
        self.ns = pymod.__dict__
        tree = world.parse(base, False)
        self.decls = Decls(world, base)
        p = world.decls(base)
        for tbl in ('types', 'consts', 'cfuncs', 'cyfuncs', 'classes', 'fused', 'cmods', 'libc'):
            v = getattr(p, tbl)
            getattr(self.decls, tbl).update(v)
        self.cret = {}
        self.pynames = set()
        self.ctrefs = {}
        self.ns.update(self.helpers())
        self.decls.scan(tree.body)
        self.tree = tree

    def ctref(self, t):
        k = 'CT_%d' % len(self.ctrefs)
        for n, v in self.ctrefs.items():
            if v == t:
                return n
        self.ctrefs[k] = t
        self.ns[k] = t
        return k

    def helpers(self):
        w = self.world
        rt = w.rt

        def ccall(name, *args):
            return rt_ccall(rt, name, args)

        def sget(root, path, ptr):
            return rt.call('__get_%s__%s' % (root, path.replace('.', '__')), ptr)

        def sset(root, path, ptr, v):
            if isinstance(v, (int, bool)):
                v = int(v) & ((1 << 64) - 1)
                f = w.field_type(root, path)
                if f.k == 'int':
                    v &= (1 << f.bits) - 1
                elif f.k == 'float':
                    v = tofloat(v, f.bits)
            elif isinstance(v, SInt):
                v = SBV(v.z, v.b)
            rt.call('__set_%s__%s' % (root, path.replace('.', '__')), ptr, v)

        def ssize(name):
            return rt.call('__sizeof_%s' % name)

        def clsof(name):
            if name == 'np.ndarray':
                return np.ndarray
            if name == 'np.dtype':
                return np.dtype
            if name in ('bool',):
                return (bool, np.bool_) if False else bool
            if name in ('list', 'tuple', 'dict', 'str', 'bytes', 'set'):
                return {'list': list, 'tuple': tuple, 'dict': dict, 'str': str, 'bytes': bytes, 'set': set}[name]
            m = self.decls.classes[name][0]
            return getattr(w.module(m), name)

        def ptr_add(p, i, n):
            return Ptr(p.b, p.o + i * n)

        def scopy(v):
            if isinstance(v, StructVar):
                r = StructVar(v.ptr.b.size, v.ptr.b.name)
                r.ptr.b.copy_from(0, v.ptr.b, v.ptr.o, v.ptr.b.size)
                return r
            raise Unsupported('struct copy')

        def c_ndim(a):
            return a.ndim

        d = dict(toint=toint, wrap=wrap, tofloat=tofloat, tobint=tobint, tocls=tocls, toptr=toptr, nd_data=nd_data,
                 nd_shape=nd_shape, nd_strides=nd_strides, MV=MV, tomv=tomv, StructVar=StructVar, ptr_get=ptr_get,
                 ptr_set=ptr_set, cstr=cstr, pydiv=pydiv, pymod=pymod, strmod=strmod, truediv=truediv, NULL=NULL, ccall=ccall,
                 cret=cret, sget=sget, sset=sset, ssize=ssize, clsof=clsof, ptr_add=ptr_add, scopy=scopy,
                 cmath_call=llir.cmath_call, c_ndim=c_ndim, Unsupported=Unsupported,
                 __imp=lambda name, level: w.importer.imp(name, 'pywt._extensions', level))
        d['__imp'] = d['__imp']
        return d

    def run(self):
        ns = self.ns
        # bind cimported cython functions/classes lazily
        for nm, base in self.decls.cyfuncs.items():
            if base != self.base:
                ns[nm] = Lazy(self.world, base, nm)
        for nm, (base, _) in self.decls.classes.items():
            if base != self.base:
                ns[nm] = Lazy(self.world, base, nm)
        # pre-scan return types of cdef functions
        for s in stats(self.tree.body):
            if type(s).__name__ == 'CFuncDefNode':
                d = s.declarator
                rt_ = self.decls.base_type(s.base_type)
                nm = self.decls.fname(d)
                while type(d).__name__ != 'CFuncDeclaratorNode':
                    if type(d).__name__ == 'CPtrDeclaratorNode':
                        rt_ = cptr(rt_)
                    d = d.base
                self.cret[nm] = rt_ or OBJ
        for s in stats(self.tree.body):
            self.top(s)

    def exec_lines(self, lines, what):
        src = '\n'.join(lines)
        exec(compile(src, '<cy:%s.%s>' % (self.base, what), 'exec'), self.ns)

    def top(self, s):
        n = type(s).__name__
        if n in ('CImportStatNode', 'FromCImportStatNode', 'CTypeDefNode', 'CEnumDefNode', 'CDefExternNode', 'CStructOrUnionDefNode', 'PassStatNode'):
            return
        if n == 'CFuncDefNode':
            self.cfunc(s)
        elif n == 'DefNode':
            self.deffunc(s)
        elif n == 'CClassDefNode':
            self.cclass(s)
        elif n == 'PyClassDefNode':
            self.pyclass(s)
        elif n == 'FromImportStatNode':
            m = self.world.importer.imp(str(s.module.module_name.value), 'pywt._extensions', s.module.level)
            for nm, tgt in s.items:
                self.ns[tgt.name] = getattr(m, str(nm))
        elif n == 'CVarDefNode':
            self.cglobal(s)
        else:
            t = Trans(self)
            t.ind = 0
            t.st(s)
            self.exec_lines(t.out, 'module')
            for nm in self.assigned(s):
                self.pynames.add(nm)

    def cglobal(self, s):
        """module-level C variables and typed objects"""
        bt = self.decls.base_type(s.base_type) or OBJ
        for dc in s.declarators:
            if type(dc).__name__ == 'CFuncDeclaratorNode' or self.decls.is_func(dc):
                continue
            nm, t = self.decls.declarator(dc, bt)
            if not nm:
                nm, t = s.base_type.name, OBJ
            inner = dc
            while inner is not None and type(inner).__name__ != 'CNameDeclaratorNode':
                inner = inner.base
            dflt = getattr(inner, 'default', None)
            tr = Trans(self)
            tr.ind = 0
            if dflt is not None:
                c, t0 = tr.ex(dflt)
                tr.emit('%s = %s' % (nm, tr.conv(c, t0, t)))
            elif t.k == 'arr':
                tr.emit('%s = [0]*%d' % (nm, t.bits))
            elif t.k == 'struct':
                tr.emit('%s = StructVar(ssize(%r), %r)' % (nm, t.name, nm))
            else:
                tr.emit('%s = %s' % (nm, 'None' if t.k in ('obj', 'cls', 'mv', 'ptr') else '0'))
            self.exec_lines(tr.out, 'module')
            self.pynames.add(str(nm))

    def assigned(self, s):
        l = getattr(s, 'lhs', None)
        return [l.name] if l is not None and hasattr(l, 'name') else []

    def fused_args(self, args):
        """list of (index, fused name, is mv)"""
        out = []
        for k, a in enumerate(args):
            bt = self.decls.base_type(a.base_type) if a.base_type is not None else None
            t = bt
            while t is not None and t.el is not None:
                t = t.el
            if t is not None and t.k == 'fused':
                out.append((k, t.name))
        return out

    def build(self, name, args, star, sstar, body, ret, fz, selfcls=None, what=None):
        t = Trans(self, fz, selfcls)
        lines = t.func_src(name, args, star, sstar, body, t.sub(ret) if ret is not None else OBJ)
        return lines

    def make(self, name, args, star, sstar, body, ret, selfcls=None):
        """returns a Python callable, lazily translated"""
        fa = self.fused_args(args)
        mod = self
        if not fa:
            cell = []

            def fn(*a, **k):
                if not cell:
                    lines = mod.build('_F_' + name, args, star, sstar, body, ret, {}, selfcls)
                    mod.exec_lines(lines, name)
                    cell.append(mod.ns.pop('_F_' + name))
                    mod.world.executed.add('%s.%s' % (mod.base, (selfcls + '.' if selfcls else '') + name))
                return cell[0](*a, **k)
        else:
            cache = {}
            k0, fnm = fa[0]
            cts = self.decls.fused[fnm]
            argnames = []
            for a in args:
                argnames.append(self.decls.fname(a.declarator) or a.base_type.name)

            def fn(*a, **k):
                if k0 < len(a):
                    v = a[k0]
                else:
                    v = k[argnames[k0]]
                ct = fused_match(v, cts)
                if ct not in cache:
                    lines = mod.build('_F_' + name, args, star, sstar, body, ret, {x[1]: ct for x in fa}, selfcls)
                    mod.exec_lines(lines, name)
                    cache[ct] = mod.ns.pop('_F_' + name)
                    mod.world.executed.add('%s.%s[%s]' % (mod.base, name, ctdtype(ct)))
                return cache[ct](*a, **k)
        fn.__name__ = name
        fn.__module__ = self.ns.get('__name__')
        return fn

    def cfunc(self, s):
        d = s.declarator
        ret = self.decls.base_type(s.base_type)
        while type(d).__name__ != 'CFuncDeclaratorNode':
            if type(d).__name__ == 'CPtrDeclaratorNode':
                ret = cptr(ret)
            d = d.base
        nm = self.decls.fname(d)
        self.ns[nm] = self.make(nm, d.args, None, None, s.body, ret)

    def deffunc(self, s):
        f = self.make(s.name, s.args, s.star_arg, s.starstar_arg, s.body, OBJ)
        self.ns[s.name] = f

    def cclass(self, s):
        nm = s.class_name
        attrs = {}
        cinit = []
        for b in stats(s.body):
            n = type(b).__name__
            if n == 'DefNode':
                f = self.make(b.name, b.args, b.star_arg, b.starstar_arg, b.body, OBJ, selfcls=nm)
                if b.name == '__cinit__':
                    cinit.append(f)
                elif b.name == '__dealloc__':
                    attrs['_dealloc'] = f
                else:
                    attrs[b.name] = f
            elif n == 'PropertyNode':
                g = st_ = None
                for q in stats(b.body):
                    if type(q).__name__ == 'DefNode':
                        f = self.make(q.name, q.args, q.star_arg, q.starstar_arg, q.body, OBJ, selfcls=nm)
                        f_ = (lambda f: (lambda self, *a: f(self, *a)))(f)
                        if q.name == '__get__':
                            g = f_
                        elif q.name == '__set__':
                            st_ = f_
                attrs[b.name] = property(g, st_)
            elif n in ('CVarDefNode', 'PassStatNode'):
                pass
            elif n == 'ExprStatNode':
                pass
            elif n == 'SingleAssignmentNode':
                t = Trans(self)
                attrs[b.lhs.name] = eval(t.o(b.rhs), self.ns)
            else:
                raise Unsupported('cdef class member %s' % n)
        # plain methods need function objects for binding
        for k, f in list(attrs.items()):
            if callable(f) and not isinstance(f, property):
                attrs[k] = (lambda f: (lambda self, *a, **kw: f(self, *a, **kw)))(f)
                attrs[k].__name__ = k
        cattrs = self.decls.classes[nm][1]

        def __new__(cls, *a, **k):
            o = object.__new__(cls)
            for an, t in cattrs.items():
                if t.k == 'ptr':
                    object.__setattr__(o, '_c_' + an, NULL)
                else:
                    object.__setattr__(o, an, None)
            for f in cinit:
                f(o, *a, **k)
            return o
        attrs['__new__'] = __new__
        if '__init__' not in attrs:
            attrs['__init__'] = lambda self, *a, **k: None
        attrs['__module__'] = self.ns['__name__']
        self.ns[nm] = type(nm, (object,), attrs)
        self.pynames.add(nm)

    def pyclass(self, s):
        bases = []
        if s.bases is not None:
            t = Trans(self)
            for b in (s.bases.args if hasattr(s.bases, 'args') else []):
                bases.append(eval(t.o(b), self.ns))
        attrs = {}
        for b in stats(s.body):
            n = type(b).__name__
            if n == 'DefNode':
                f = self.make(b.name, b.args, b.star_arg, b.starstar_arg, b.body, OBJ)
                attrs[b.name] = (lambda f: (lambda self, *a, **k: f(self, *a, **k)))(f)
                attrs[b.name].__name__ = b.name
            elif n == 'SingleAssignmentNode':
                t = Trans(self)
                t.ind = 0
                attrs[b.lhs.name] = eval(t.o(b.rhs), self.ns, attrs)
            elif n in ('ExprStatNode', 'PassStatNode'):
                pass
            else:
                raise Unsupported('class member %s' % n)
        attrs['__module__'] = self.ns['__name__']
        self.ns[s.name] = type(s.name, tuple(bases) or (object,), attrs)
        self.pynames.add(s.name)


class Lazy:
    def __init__(self, world, base, nm):
        self.__dict__['_r'] = (world, base, nm)

    def _get(self):
        w, b, n = self._r
        return getattr(w.module(b), n)

    def __call__(self, *a, **k):
        return self._get()(*a, **k)

    def __getattr__(self, k):
        return getattr(self._get(), k)

    def __instancecheck__(self, x):
        return isinstance(x, self._get())


def cret(v, b, s):
    if isinstance(v, SBV):
        return SInt(v.z, v.w, s)
    if v is None:
        return v
    return wrap(v, b, s)


def rt_ccall(rt, name, args):
    m = rt.fmod.get(name)
    if m is None:
        return rt.call(name, *args)
    w = getattr(m, 'argw', None)
    if w is None:
        w = m.argw = {}
    if name not in w:
        hdr = m.funcs_src[name][0]
        a = hdr[hdr.index('@' + name) + len(name) + 2:]
        # split top-level commas
        depth = 0
        cur = ''
        parts = []
        for ch in a:
            if ch == '(':
                depth += 1
            elif ch == ')':
                if depth == 0:
                    break
                depth -= 1
            if ch == ',' and depth == 0:
                parts.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip():
            parts.append(cur.strip())
        w[name] = [p.split()[0] for p in parts]
    out = []
    if len(args) != len(w[name]):
        raise Unsupported('arity mismatch calling %s' % name)
    for v, t in zip(args, w[name]):
        if t[0] == 'i':
            b = int(t[1:])
            if isinstance(v, SInt):
                if v.b == b:
                    v = SBV(v.z, b)
                else:
                    v = SBV(z3.simplify(z3.Extract(b - 1, 0, v._w())), b)
            else:
                v = int(v) & ((1 << b) - 1)
        elif t == 'float':
            v = llir.r32(v if isinstance(v, Sx) else float(v))
        elif t == 'double':
            v = v if isinstance(v, Sx) else float(v)
        elif t == 'ptr':
            if v is None:
                v = NULL
            if not isinstance(v, Ptr):
                raise Unsupported('pointer arg %r' % (v,))
        out.append(v)
    return rt.call(name, *out)
