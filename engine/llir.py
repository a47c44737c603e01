"""LLVM-IR (textual, clang 18, opaque pointers) -> Python translator.

The real C sources are lowered by clang; each IR function becomes a Python
function over concrete or symbolic values.  Memory accesses are bounds- and
initialisation-checked (raising sym.UB).
"""
import math
import re
import struct
import numpy as _np
import z3
from . import sym
from .sym import round_to, Sx, Cx, SBV, SymBool, Unsupported, UB, bvz, fresh

# ------------------------------------------------------------------ pointers


class Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = Uninit()


class Ptr:
    __slots__ = ('b', 'o')

    def __init__(self, b, o):
        self.b = b
        self.o = o

    def __eq__(self, x):
        if isinstance(x, Ptr):
            if self.b is x.b:
                return self.o == x.o
            return False
        return False

    def __ne__(self, x):
        r = self.__eq__(x)
        return not r

    def __hash__(self):
        return hash((id(self.b), self.o))

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.b, self.o)


NULL = Ptr(None, 0)
_M64 = (1 << 64) - 1


class Block:
    """Untyped heap / stack / struct memory: offset -> (size, value)."""
    __slots__ = ('size', 'cells', 'zero', 'alive', 'name')

    def __init__(self, size, name='', zero=False):
        self.size = size
        self.cells = {}
        self.zero = zero
        self.alive = True
        self.name = name

    def __repr__(self):
        return 'Block<%s,%s>' % (self.name, self.size)

    def chk(self, o, n):
        if not self.alive:
            raise UB('use after free of %s' % self.name)
        if o.__class__ is not int:
            raise Unsupported('symbolic address')
        if o >= 1 << 63:
            o -= 1 << 64
        if o < 0 or o + n > self.size:
            raise UB('out-of-bounds access at offset %d (size %d) of %s[%d]' % (o, n, self.name, self.size))
        return o

    def load(self, o, n, isf):
        o = self.chk(o, n)
        c = self.cells.get(o)
        if c is None:
            if self.zero:
                return _zero(isf)
            raise UB('read of uninitialised memory in %s at %d' % (self.name, o))
        if c[0] != n:
            v = c[1]
            if v.__class__ is int and c[0] > n:
                return v & ((1 << (8 * n)) - 1)
            raise Unsupported('mixed-size load')
        return c[1]

    def store(self, o, n, v):
        o = self.chk(o, n)
        self.cells[o] = (n, v)

    def copy_from(self, o, src, so, n):
        o = self.chk(o, n)
        for off, val in src.items_in(so, n):
            self.cells[o + off] = val
        if self.zero:
            got = {off for off, _ in src.items_in(so, n)}
            if isinstance(src, Block) and not src.zero and not got and n:
                raise Unsupported('copy uninit over zero block')

    def items_in(self, o, n):
        o = self.chk(o, n)
        return [(k - o, v) for k, v in self.cells.items() if o <= k < o + n]

    def set_zero(self, o, n):
        o = self.chk(o, n)
        for k in [k for k in self.cells if o <= k < o + n]:
            del self.cells[k]
        if o == 0 and n == self.size:
            self.zero = True
        elif not self.zero:
            # unknown element size: fill at 4-byte and 8-byte granularity lazily
            for k in range(o, o + n, 4):
                self.cells[k] = (4, ZERO4)
            self.cells_zero8(o, n)

    def cells_zero8(self, o, n):
        for k in range(o, o + n - 7, 8):
            self.cells[k] = (8, ZERO4)


class _Zero4:
    pass


ZERO4 = _Zero4()


def _zero(isf):
    if isf == 1:
        return 0.0
    if isf == 2:
        return NULL
    return 0


class ElemBlock:
    """Array memory: python list / flat ndarray of elements of fixed size.

    comps=2 for complex elements (each element a Cx / complex)."""
    __slots__ = ('el', 'esz', 'comps', 'size', 'alive', 'name', 'kind', 'ro')

    def __init__(self, el, esz, comps=1, name='', kind='f', ro=False):
        self.el = el
        self.esz = esz
        self.comps = comps
        self.size = len(el) * esz
        self.alive = True
        self.name = name
        self.kind = kind
        self.ro = ro

    def __repr__(self):
        return 'Array<%s,%d x %d>' % (self.name, len(self.el), self.esz)

    def idx(self, o, n):
        if not self.alive:
            raise UB('use after free of %s' % self.name)
        if o.__class__ is not int:
            raise Unsupported('symbolic address')
        if o >= 1 << 63:
            o -= 1 << 64
        if o < 0 or o + n > self.size:
            raise UB('out-of-bounds access at element %d of %s (length %d)' % (o // self.esz, self.name, len(self.el)))
        i, r = divmod(o, self.esz)
        if self.comps == 1:
            if r or n != self.esz:
                raise UB('misaligned/mis-sized access to %s (offset %d size %d elem %d)' % (self.name, o, n, self.esz))
            return i, 0
        half = self.esz // 2
        if n != half or r % half:
            raise UB('misaligned/mis-sized access to complex %s' % self.name)
        return i, r // half

    def load(self, o, n, isf):
        i, c = self.idx(o, n)
        v = self.el[i]
        if self.comps == 2:
            if isinstance(v, (Cx, complex, _np.complexfloating)):
                v = v.imag if c else v.real
            elif isinstance(v, Sx) or isinstance(v, (int, float, _np.floating)):
                v = 0.0 if c else v
        if v is UNINIT:
            raise UB('read of uninitialised memory in %s' % self.name)
        if isf == 1:
            if v.__class__ is float or v.__class__ is Sx:
                return v
            if isinstance(v, (int, _np.floating, _np.integer)):
                return float(v)
            return v
        if isf == 0 and isinstance(v, (_np.integer, int)):
            return int(v) & ((1 << (8 * n)) - 1)
        return v

    def store(self, o, n, v):
        if self.ro:
            raise UB('write to read-only memory %s' % self.name)
        i, c = self.idx(o, n)
        if self.comps == 2:
            old = self.el[i]
            if isinstance(old, (Cx, complex, _np.complexfloating)):
                re, im = old.real, old.imag
            elif old is UNINIT:
                re = im = UNINIT
            else:
                re, im = old, 0.0
            if c:
                im = v
            else:
                re = v
            self.el[i] = Cx(re, im)
            return
        if self.kind == 'i' and v.__class__ is int:
            h = 1 << (8 * n)
            v &= h - 1
            if v >= h >> 1 and self.kind == 'i':
                pass
        self.el[i] = v

    def items_in(self, o, n):
        step = self.esz // self.comps
        k = 0
        out = []
        isf = 1 if self.kind == 'f' else 0
        while k < n:
            i, c = self.idx(o + k, step)
            v = self.el[i]
            if v is UNINIT:
                k += step
                continue
            out.append((k, (step, self.load(o + k, step, isf))))
            k += step
        return out

    def copy_from(self, o, src, so, n):
        for off, (sz, v) in src.items_in(so, n):
            self.store(o + off, sz, v)

    def set_zero(self, o, n):
        step = self.esz // self.comps
        for k in range(0, n, step):
            self.store(o + k, step, 0.0 if self.kind == 'f' else 0)


SHARED = [None]         # called around accesses to memory that outlives a call (engine.sched)


class SharedBlock(Block):
    __slots__ = ()

    def load(self, o, n, isf):
        if SHARED[0] is not None:
            SHARED[0]()
        return Block.load(self, o, n, isf)

    def store(self, o, n, v):
        if SHARED[0] is not None:
            SHARED[0]()
        Block.store(self, o, n, v)
        if isinstance(v, Ptr):
            share(v.b)
        if SHARED[0] is not None:
            SHARED[0]()


class SharedElem(ElemBlock):
    __slots__ = ()

    def load(self, o, n, isf):
        if SHARED[0] is not None:
            SHARED[0]()
        return ElemBlock.load(self, o, n, isf)

    def store(self, o, n, v):
        if SHARED[0] is not None:
            SHARED[0]()
        ElemBlock.store(self, o, n, v)
        if SHARED[0] is not None:
            SHARED[0]()


def share(b):
    """the block can be reached by other threads / later calls"""
    if b.__class__ is Block:
        b.__class__ = SharedBlock
        for _, v in list(b.cells.values()):
            if isinstance(v, Ptr):
                share(v.b)
    elif b.__class__ is ElemBlock and not b.ro:
        b.__class__ = SharedElem


def ld(p, n, isf):
    b = p.b
    if b is None:
        raise UB('null pointer dereference (read)')
    v = b.load(p.o, n, isf)
    if v is ZERO4:
        return _zero(isf)
    return v


def ld_bf(p, n, isf):
    # read-modify-write of a bit-field unit: the other bits may be uninitialised
    b = p.b
    if b is not None and isinstance(b, Block) and not b.zero and p.o.__class__ is int and p.o not in b.cells:
        b.chk(p.o, n)
        return 0
    return ld(p, n, isf)


def st(p, n, v):
    b = p.b
    if b is None:
        raise UB('null pointer dereference (write)')
    b.store(p.o, n, v)


def gep(p, off):
    b = p.b
    return Ptr(b, add64(p.o, off))


def add64(a, b):
    if a.__class__ is int and b.__class__ is int:
        r = (a + b) & _M64
        return r - (1 << 64) if r >> 63 else r
    return bvadd(a, b, 64)


# ------------------------------------------------------------------ ints

def _mk(z, w):
    z = z3.simplify(z)
    if z3.is_bv_value(z):
        return z.as_long()
    return SBV(z, w)


def _bvop(f):
    def g(a, b, w):
        return _mk(f(bvz(a, w), bvz(b, w)), w)
    return g


def bvadd(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a + b) & ((1 << w) - 1)
    return _mk(bvz(a, w) + bvz(b, w), w)


def bvsub(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a - b) & ((1 << w) - 1)
    return _mk(bvz(a, w) - bvz(b, w), w)


def bvmul(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a * b) & ((1 << w) - 1)
    return _mk(bvz(a, w) * bvz(b, w), w)


def _sg(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def bvdiv(op, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            raise UB('integer division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = _sg(a, w), _sg(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return q & ((1 << w) - 1)
        return (x - q * y) & ((1 << w) - 1)
    if b.__class__ is not int:
        if bool(SymBool(bvz(b, w) == 0)):
            raise UB('integer division by zero')
    elif b == 0:
        raise UB('integer division by zero')
    A, B = bvz(a, w), bvz(b, w)
    return _mk({'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B),
                'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op](), w)


def _tobool(x):
    if x.__class__ is bool:
        return x
    if isinstance(x, SymBool):
        return bool(x)
    return bool(x)


def bvbit(op, a, b, w):
    if w == 1:
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            A = a.c if isinstance(a, SymBool) else z3.BoolVal(bool(a))
            B = b.c if isinstance(b, SymBool) else z3.BoolVal(bool(b))
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op]
            return SymBool(f(A, B))
        a, b = bool(a), bool(b)
        return {'and': a and b, 'or': a or b, 'xor': a != b}[op]
    if a.__class__ is int and b.__class__ is int:
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        return a ^ b
    A, B = bvz(a, w), bvz(b, w)
    return _mk(A & B if op == 'and' else A | B if op == 'or' else A ^ B, w)


def bvshift(op, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if b >= w:
            raise UB('shift amount %d >= width %d' % (b, w))
        if op == 'shl':
            return (a << b) & ((1 << w) - 1)
        if op == 'lshr':
            return a >> b
        return (_sg(a, w) >> b) & ((1 << w) - 1)
    A, B = bvz(a, w), bvz(b, w)
    if bool(SymBool(z3.UGE(B, w))):
        raise UB('shift amount out of range')
    return _mk(A << B if op == 'shl' else z3.LShR(A, B) if op == 'lshr' else A >> B, w)


def icmp(pred, a, b, w):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b is b.b:
            return {'ult': a.o < b.o, 'ule': a.o <= b.o, 'ugt': a.o > b.o, 'uge': a.o >= b.o}[pred]
        raise Unsupported('pointer comparison')
    if w == 1:
        a = _tobool(a)
        b = _tobool(b)
        a, b = int(a), int(b)
    if a.__class__ is int and b.__class__ is int:
        if pred[0] == 's':
            a, b = _sg(a, w), _sg(b, w)
        p = pred[-2:]
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b
    A, B = bvz(a, w), bvz(b, w)
    f = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
         'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
         'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SymBool(f)


def trunc(a, w0, w):
    if a.__class__ is int:
        r = a & ((1 << w) - 1)
        return bool(r) if w == 1 else r
    r = z3.Extract(w - 1, 0, bvz(a, w0))
    if w == 1:
        return SymBool(r == 1)
    return _mk(r, w)


def zext(a, w0, w):
    if a.__class__ is int:
        return a
    if a.__class__ is bool:
        return int(a)
    if isinstance(a, SymBool):
        return SBV(z3.If(a.c, z3.BitVecVal(1, w), z3.BitVecVal(0, w)), w)
    return _mk(z3.ZeroExt(w - w0, a.z), w)


def sext(a, w0, w):
    if a.__class__ is bool:
        return ((1 << w) - 1) if a else 0
    if a.__class__ is int:
        return _sg(a, w0) & ((1 << w) - 1)
    if isinstance(a, SymBool):
        return SBV(z3.If(a.c, z3.BitVecVal(-1, w), z3.BitVecVal(0, w)), w)
    return _mk(z3.SignExt(w - w0, a.z), w)


def ctlz(a, w):
    if a.__class__ is int:
        return w - a.bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, a.z) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return _mk(r, w)


def cttz(a, w):
    if a.__class__ is int:
        return (a & -a).bit_length() - 1 if a else w
    r = z3.BitVecVal(w, w)
    for i in reversed(range(w)):
        r = z3.If(z3.Extract(i, i, a.z) == 1, z3.BitVecVal(i, w), r)
    return _mk(r, w)


def ctpop(a, w):
    if a.__class__ is int:
        return bin(a).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a.z))
    return _mk(r, w)


def minmax(name, a, b, w):
    pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[name]
    return select(icmp(pred, a, b, w), a, b, w)


def select(c, a, b, w=None):
    if c.__class__ is bool:
        return a if c else b
    if isinstance(c, SymBool) and w and (isinstance(a, (SBV, int)) and isinstance(b, (SBV, int))):
        return _mk(z3.If(c.c, bvz(a, w), bvz(b, w)), w)
    return a if bool(c) else b


# ------------------------------------------------------------------ floats

_pf = struct.Struct('f')


def r32(x):
    if x.__class__ is float:
        try:
            return _pf.unpack(_pf.pack(x))[0]
        except OverflowError:
            return math.copysign(float('inf'), x)
    return x


def r32n(x):
    """double to float"""
    return r32(x) if x.__class__ is float else round_to(x, 'f4')


def fdiv(a, b):
    if isinstance(a, sym.SFP) or isinstance(b, sym.SFP):
        return a / b
    if isinstance(a, Sx) or isinstance(b, Sx):
        return a / b if isinstance(a, Sx) else Sx.const(a) / b
    if b == 0:
        if a == 0 or a != a:
            return float('nan')
        return math.copysign(float('inf'), a) * math.copysign(1.0, b)
    return a / b


def frem(a, b):
    if isinstance(a, Sx) or isinstance(b, Sx):
        raise Unsupported('frem')
    return math.fmod(a, b) if b else float('nan')


def fcmp(pred, a, b):
    # ordered/unordered: symbolic values are reals (never nan)
    if a.__class__ is float and b.__class__ is float:
        un = a != a or b != b
        if pred == 'ord':
            return not un
        if pred == 'uno':
            return un
        if un:
            return pred[0] == 'u'
        p = pred[1:]
        return a == b if p == 'eq' else a != b if p == 'ne' else a < b if p == 'lt' else \
            a <= b if p == 'le' else a > b if p == 'gt' else a >= b
    if isinstance(a, sym.SFP) or isinstance(b, sym.SFP):
        un = any(bool(x.isnan()) if isinstance(x, sym.SFP) else x != x for x in (a, b))
        if pred in ('ord', 'uno'):
            return un == (pred == 'uno')
        if un:
            return pred[0] == 'u'
        if not isinstance(a, sym.SFP):
            a = sym.SFP(sym.fpz(a))
    elif pred == 'ord':
        return True
    elif pred == 'uno':
        return False
    p = pred[1:]
    if not isinstance(a, (Sx, sym.SFP)):
        a = Sx.const(a)
    return a == b if p == 'eq' else a != b if p == 'ne' else a < b if p == 'lt' else \
        a <= b if p == 'le' else a > b if p == 'gt' else a >= b


def i2f(a, w, signed, f32):
    if a.__class__ is bool:
        a = int(a)
    if a.__class__ is not int:
        if isinstance(a, SBV) and not f32:
            return sym.bv2fp(a, signed)
        raise Unsupported('int to float of symbolic int')
    v = float(_sg(a, w) if signed else a)
    return r32(v) if f32 else v


def f2i(a, w, signed):
    if isinstance(a, sym.SFP):
        return sym.fp2bv(a, w, signed)
    if isinstance(a, Sx):
        if not a.is_const():
            raise Unsupported('float to int of symbolic')
        a = float(a)
    return int(a) & ((1 << w) - 1)


MATH_HOOK = [None]      # callable(name, args, f32) for symbolic arguments


def cmath_call(name, *args):
    f32 = name.endswith('f') and name not in ('erf',)
    base = name[:-1] if f32 else name
    if isinstance(args[0], sym.SFP):
        return args[0].fn(base)
    if any(isinstance(a, Sx) and not a.is_const() for a in args) or MATH_HOOK[0] is not None and any(isinstance(a, Sx) for a in args):
        if MATH_HOOK[0] is not None:
            return MATH_HOOK[0](base, args, f32)
        a = args[0]
        if base == 'sqrt':
            return a.sqrt()
        if base == 'fabs':
            return abs(a)
        if base == 'pow':
            return a ** args[1]
        if base in ('fmin', 'fmax'):
            b = args[1]
            c = (a < b) if base == 'fmin' else (a > b)
            return a if c else b
        raise Unsupported('math function %s of symbolic argument' % name)
    if MATH_HOOK[0] is not None and getattr(MATH_HOOK[0], 'all', False):
        return MATH_HOOK[0](base, args, f32)
    args = [float(a) for a in args]
    try:
        if base == 'pow':
            r = math.pow(*args)
        elif base in ('fmin', 'fmax'):
            r = min(args) if base == 'fmin' else max(args)
        elif base == 'fabs':
            r = abs(args[0])
        elif base == 'sqrt' and args[0] < 0:
            r = float('nan')
        else:
            r = getattr(math, base)(*args)
    except (OverflowError,):
        r = float('inf')
    except ValueError:
        r = float('nan')
    return r32(float(r)) if f32 else float(r)


_MATH = {'exp', 'cos', 'sin', 'sqrt', 'pow', 'fabs', 'log', 'tan', 'floor', 'ceil', 'fmin', 'fmax', 'exp2', 'log2',
         'atan2', 'atan', 'sinh', 'cosh', 'tanh', 'cbrt', 'hypot', 'fmod', 'asin', 'acos', 'rint', 'round', 'trunc'}
_MATH |= {m + 'f' for m in _MATH}

# ------------------------------------------------------------------ IR types

_tok = re.compile(r'''
   \s+ | (?P<str>c?"(?:[^"\\]|\\.)*") | (?P<glob>@(?:"[^"]*"|[-\w.$]+)) | (?P<loc>%(?:"[^"]*"|[-\w.$]+)) |
   (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+) | (?P<id>[\w.]+) | (?P<meta>![\w.]*(?:\([^)]*\))?) |
   (?P<attr>\#\d+) | (?P<p>\.\.\.|[\[\]{}()<>,=*:])''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = _tok.match(s, i)
        if not m:
            raise Unsupported('IR token at %r' % s[i:i + 30])
        i = m.end()
        if m.lastgroup:
            out.append(m.group(m.lastgroup))
    return out


class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'name')

    def __init__(self, k, w=0, n=0, el=None, name=None):
        self.k = k      # 'int','float','ptr','array','struct','vec','void','label','meta'
        self.w = w
        self.n = n
        self.el = el
        self.name = name

    def __repr__(self):
        return 'Ty(%s,%s)' % (self.k, self.w)


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x != v:
            raise Unsupported('IR parse: expected %s got %s in %s' % (v, x, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if re.fullmatch(r'i\d+', t):
            return Ty('int', int(t[1:]))
        if t == 'float':
            return Ty('float', 32)
        if t == 'double':
            return Ty('float', 64)
        if t == 'ptr':
            return Ty('ptr', 64)
        if t == 'void':
            return Ty('void')
        if t == 'label':
            return Ty('label')
        if t == 'metadata':
            return Ty('meta')
        if t == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            return Ty('array', n=n, el=el)
        if t == '<':
            if self.peek() == '{':
                self.next()
                els = []
                if not self.accept('}'):
                    while True:
                        els.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                return Ty('struct', w=1, el=els)
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect('>')
            return Ty('vec', n=n, el=el)
        if t == '{':
            els = []
            if not self.accept('}'):
                while True:
                    els.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            return Ty('struct', el=els)
        if t[0] == '%':
            return Ty('named', name=t)
        raise Unsupported('IR type %s' % t)


# tokens that may follow a type in args
_PATTRS = {'noundef', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext', 'nonnull',
           'immarg', 'inreg', 'returned', 'nofree', 'noreturn', 'writable'}


class Module:
    def __init__(self, text, rt, name):
        self.rt = rt
        self.name = name
        self.types = {}
        self.globals_src = {}
        self.globals = {}
        self.funcs_src = {}
        self.declared = set()
        self.parse(text)

    # ---- layout
    def res(self, t):
        if t.k == 'named':
            return self.types[t.name]
        return t

    def size(self, t):
        t = self.res(t)
        if t.k == 'int':
            return max(1, (t.w + 7) // 8)
        if t.k == 'float':
            return t.w // 8
        if t.k == 'ptr':
            return 8
        if t.k in ('array', 'vec'):
            return t.n * self.size(t.el)
        if t.k == 'struct':
            return self.layout(t)[1]
        raise Unsupported('size of %s' % t.k)

    def align(self, t):
        t = self.res(t)
        if t.k == 'array':
            return self.align(t.el)
        if t.k == 'struct':
            return 1 if t.w == 1 else max([self.align(e) for e in t.el] or [1])
        return self.size(t)

    def layout(self, t):
        t = self.res(t)
        off = 0
        offs = []
        for e in t.el:
            a = 1 if t.w == 1 else self.align(e)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(e)
        a = self.align(t)
        return offs, (off + a - 1) // a * a

    # ---- parsing
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                p = P(tokenize(l), self)
                nm = p.next()
                p.expect('=')
                p.expect('type')
                if p.peek() == 'opaque':
                    self.types[nm] = Ty('struct', el=[])
                else:
                    self.types[nm] = p.type()
            elif l.startswith('@'):
                nm = l.split(' ', 1)[0]
                self.globals_src[nm] = l
            elif l.startswith('define'):
                body = []
                hdr = l
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                m = re.search(r'@([\w.$]+)\(', hdr)
                self.funcs_src[m.group(1)] = (hdr, body)
            elif l.startswith('declare'):
                m = re.search(r'@([\w.$]+)\(', l)
                self.declared.add(m.group(1))
            i += 1

    # ---- globals
    def glob(self, nm):
        g = self.globals.get(nm)
        if g is not None:
            return g
        if nm[1:] in self.funcs_src or nm[1:] in self.declared:
            return FuncPtr(nm[1:])
        src = self.globals_src.get(nm)
        if src is None:
            raise Unsupported('unknown global %s' % nm)
        p = P(tokenize(src), self)
        p.next()
        p.expect('=')
        ext = False
        while p.peek() not in ('constant', 'global'):
            if p.peek() == 'external':
                ext = True
            p.next()
        const = p.next() == 'constant'
        t = p.type()
        if ext:
            return self.rt.extern_global(nm)
        # placeholder for recursive references
        flat = []
        val = self.const_val(p, t)
        self.flatten(t, val, flat, 0)
        rt = self.res(t)
        el = rt
        while el.k == 'array':
            el = self.res(el.el)
        if el.k in ('int', 'float', 'ptr') and rt.k == 'array':
            b = ElemBlock([v for _, _, v in flat], self.size(el), 1, nm, {'int': 'i', 'float': 'f', 'ptr': 'p'}[el.k], ro=const)
        else:
            b = Block(self.size(t), nm)
            for o, n, v in flat:
                b.cells[o] = (n, v)
        if not const:
            share(b)
        g = self.globals[nm] = Ptr(b, 0)
        return g

    def flatten(self, t, v, out, off):
        t = self.res(t)
        if t.k in ('int', 'float', 'ptr'):
            out.append((off, self.size(t), v))
        elif t.k in ('array', 'vec'):
            es = self.size(t.el)
            for k in range(t.n):
                self.flatten(t.el, v[k] if v is not None else None, out, off + k * es) if v is not None else \
                    self.flatten(t.el, self.zero_val(t.el), out, off + k * es)
        elif t.k == 'struct':
            offs, _ = self.layout(t)
            for k, e in enumerate(t.el):
                self.flatten(e, v[k], out, off + offs[k])

    def zero_val(self, t):
        t = self.res(t)
        if t.k == 'int':
            return 0
        if t.k == 'float':
            return 0.0
        if t.k == 'ptr':
            return NULL
        if t.k in ('array', 'vec'):
            return [self.zero_val(t.el) for _ in range(t.n)]
        if t.k == 'struct':
            return [self.zero_val(e) for e in t.el]
        raise Unsupported('zero')

    def const_val(self, p, t):
        """evaluate a constant now (used for globals)"""
        rt = self.res(t)
        k = p.peek()
        if k in ('zeroinitializer',):
            p.next()
            return self.zero_val(t)
        if k in ('undef', 'poison'):
            p.next()
            return self.zero_val(t)
        if k == 'null':
            p.next()
            return NULL
        if rt.k == 'int':
            x = p.next()
            if x == 'true':
                return True
            if x == 'false':
                return False
            return int(x) & ((1 << rt.w) - 1)
        if rt.k == 'float':
            return fl(p.next())
        if rt.k == 'ptr':
            if k[0] == '@':
                return self.glob(p.next())
            if k == 'getelementptr':
                return eval(self.gep_const(p), {'glob': self.glob, 'gep': gep})
        if rt.k in ('array', 'vec'):
            if k[0] == 'c' and k.startswith('c"'):
                s = p.next()[2:-1]
                out = []
                i = 0
                while i < len(s):
                    if s[i] == '\\':
                        out.append(int(s[i + 1:i + 3], 16))
                        i += 3
                    else:
                        out.append(ord(s[i]))
                        i += 1
                return out
            p.next()    # [ or <
            out = []
            while True:
                et = p.type()
                out.append(self.const_val(p, et))
                if p.next() != ',':
                    break
            return out
        if rt.k == 'struct':
            p.accept('<')
            p.expect('{')
            out = []
            while True:
                et = p.type()
                out.append(self.const_val(p, et))
                if p.next() != ',':
                    break
            return out
        raise Unsupported('const %s' % k)

    def gep_const(self, p):
        p.expect('getelementptr')
        while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            p.next()
        p.expect('(')
        bt = p.type()
        p.expect(',')
        p.type()
        base = self.operand(p, Ty('ptr'))
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append((it, self.operand(p, it)))
        p.expect(')')
        return self.gep_expr(bt, base, idx)

    def gep_expr(self, bt, base, idx):
        off = 0
        dyn = []
        t = bt
        for k, (it, v) in enumerate(idx):
            if k == 0:
                sz = self.size(t)
            else:
                rt = self.res(t)
                if rt.k == 'struct':
                    off += self.layout(rt)[0][int(v)]
                    t = rt.el[int(v)]
                    continue
                sz = self.size(rt.el)
                t = rt.el
            if re.fullmatch(r'-?\d+', v):
                iv = int(v)
                if iv >> (it.w - 1):
                    iv -= 1 << it.w
                off += iv * sz
            else:
                e = v
                if it.w < 64:
                    e = 'sext(%s,%d,64)' % (e, it.w)
                dyn.append(e if sz == 1 else 'mul64(%s,%d)' % (e, sz))
        ex = base
        if dyn:
            for d in dyn:
                ex = 'gep(%s,%s)' % (ex, d)
        if off:
            ex = 'gep(%s,%d)' % (ex, off)
        return ex

    # ---- operands -> python expressions
    def operand(self, p, t):
        k = p.next()
        rt = self.res(t)
        if k[0] == '%':
            return lname(k)
        if k[0] == '@':
            return 'glob(%r)' % k
        if k == 'null':
            return 'NULL'
        if k in ('undef', 'poison'):
            if rt.k == 'int':
                return '0' if rt.w > 1 else 'False'
            if rt.k == 'float':
                return '0.0'
            if rt.k == 'ptr':
                return 'NULL'
            return repr(self.zero_val(rt)).replace('Ptr(None+0)', 'NULL')
        if k == 'zeroinitializer':
            return repr(self.zero_val(rt)).replace('Ptr(None+0)', 'NULL')
        if k == 'true':
            return 'True'
        if k == 'false':
            return 'False'
        if k == 'getelementptr':
            p.i -= 1
            return self.gep_const(p)
        if k in ('<', '{', '['):
            p.i -= 1
            return repr(self.const_val(p, t))
        if rt.k == 'int':
            v = int(k)
            if rt.w == 1:
                return 'True' if v else 'False'
            return str(v & ((1 << rt.w) - 1))
        if rt.k == 'float':
            return repr_f(fl(k))
        raise Unsupported('operand %s' % k)

    def tyop(self, p):
        t = p.type()
        return t, self.operand(p, t)

    # ---- functions
    def compile(self, name):
        hdr, body = self.funcs_src[name]
        h = tokenize(hdr)
        p = P(h, self)
        while not (p.peek()[0] == '@'):
            p.next()
        p.next()
        p.expect('(')
        args = []
        byval = []
        if not p.accept(')'):
            n = 0
            while True:
                t = p.type()
                nm = None
                bv = None
                while p.peek() not in (',', ')'):
                    x = p.next()
                    if x == 'byval':
                        p.expect('(')
                        bv = self.size(p.type())
                        p.expect(')')
                    elif x == 'align':
                        p.next()
                    elif x[0] == '%':
                        nm = x
                    elif x == 'dereferenceable' or x == 'sret':
                        p.expect('(')
                        while p.next() != ')':
                            pass
                if nm is None:
                    nm = '%%%d' % n
                n += 1
                args.append(lname(nm))
                if bv:
                    byval.append((lname(nm), bv))
                if p.next() == ')':
                    break
        # blocks
        blocks = []
        cur = None
        buf = None
        for l in body:
            s = l.strip()
            if not s or s[0] == ';':
                continue
            m = re.match(r'^("?[-\w.$]+"?):', l)
            if m:
                cur = [m.group(1).strip('"'), []]
                blocks.append(cur)
                continue
            if cur is None:
                cur = ['%entry0', []]
                blocks.append(cur)
            if buf is not None:
                buf += ' ' + s
                if s.startswith(']'):
                    cur[1].append(buf)
                    buf = None
                continue
            if s.startswith('switch') and not s.rstrip().endswith(']'):
                buf = s
                continue
            cur[1].append(s)
        if blocks[0][0] == '%entry0':
            # implicit number: count of args (unnamed)
            blocks[0][0] = str(len(args))
        idx = {b[0]: k for k, b in enumerate(blocks)}
        phis = {}
        code_blocks = []
        for k, (lab, ins) in enumerate(blocks):
            rest = []
            for s in ins:
                m = re.match(r'^(%\S+) = phi (.*)$', s)
                if m:
                    p = P(tokenize(m.group(2)), self)
                    while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                        p.next()
                    t = p.type()
                    inc = {}
                    while True:
                        p.expect('[')
                        v = self.operand(p, t)
                        p.expect(',')
                        b = p.next()[1:].strip('"')
                        p.expect(']')
                        inc[b] = v
                        if not p.accept(','):
                            break
                    phis.setdefault(lab, []).append((lname(m.group(1)), inc))
                else:
                    rest.append(s)
            code_blocks.append((lab, rest))

        def jump(src, dst):
            out = []
            ph = phis.get(dst)
            if ph:
                lhs = [a for a, _ in ph]
                rhs = [inc[src] for _, inc in ph]
                pr = [(a, b) for a, b in zip(lhs, rhs) if a != b]
                if pr:
                    out.append('%s = %s' % (', '.join(a for a, _ in pr), ', '.join(b for _, b in pr)))
            out.append('bb = %d' % idx[dst])
            return out

        lines_per = []
        for lab, ins in code_blocks:
            out = []
            for s in ins:
                self.instr(s, out, lab, jump)
            lines_per.append(out)
        src = ['def F(%s):' % ', '.join(args)]
        for a, n in byval:
            src.append('    %s = byval(%s, %d)' % (a, a, n))
        src.append('    bb = 0')
        src.append('    steps = 0')
        src.append('    while True:')
        src.append('        steps += 1')
        src.append('        if steps > STEPS[0]: raise UB("step budget exceeded (non-termination?) in %s")' % name)

        def emit(lo, hi, ind):
            pad = ' ' * ind
            if hi - lo == 1:
                for l in lines_per[lo]:
                    src.append(pad + l)
                if not lines_per[lo]:
                    src.append(pad + 'pass')
                return
            mid = (lo + hi) // 2
            src.append(pad + 'if bb < %d:' % mid)
            emit(lo, mid, ind + 1)
            src.append(pad + 'else:')
            emit(mid, hi, ind + 1)
        emit(0, len(lines_per), 8)
        text = '\n'.join(src)
        ns = dict(ENV)
        ns['glob'] = self.glob
        ns['call'] = self.rt.call
        ns['byval'] = byval_copy
        ns['rt'] = self.rt
        exec(compile(text, '<ir:%s>' % name, 'exec'), ns)
        return ns['F']

    def instr(self, s, out, lab, jump):
        m = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = (.*)$', s)
        dst = None
        if m:
            dst = lname(m.group(1))
            s = m.group(2)
        p = P(tokenize(s), self)
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        flags = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'volatile', 'inbounds', 'nusw') and op != 'getelementptr':
            flags.add(p.next())
        if op in ('add', 'sub', 'mul'):
            t = p.type()
            a = self.operand(p, t)
            p.expect(',')
            b = self.operand(p, t)
            w = t.w
            if 'nsw' in flags:
                out.append('%s = nsw_%s(%s,%s,%d)' % (dst, op, a, b, w))
            else:
                sy = {'add': '+', 'sub': '-', 'mul': '*'}[op]
                M = (1 << w) - 1
                if re.fullmatch(r'\d+', b):
                    out.append('%s = ((%s %s %s) & %d) if %s.__class__ is int else bv%s(%s,%s,%d)' % (dst, a, sy, b, M, a, op, a, b, w))
                else:
                    out.append('%s = bv%s(%s,%s,%d)' % (dst, op, a, b, w))
        elif op in ('udiv', 'sdiv', 'urem', 'srem'):
            t = p.type()
            a = self.operand(p, t)
            p.expect(',')
            b = self.operand(p, t)
            out.append('%s = bvdiv(%r,%s,%s,%d)' % (dst, op, a, b, t.w))
        elif op in ('and', 'or', 'xor'):
            t = p.type()
            a = self.operand(p, t)
            p.expect(',')
            b = self.operand(p, t)
            out.append('%s = bvbit(%r,%s,%s,%d)' % (dst, op, a, b, t.w))
        elif op in ('shl', 'lshr', 'ashr'):
            t = p.type()
            a = self.operand(p, t)
            p.expect(',')
            b = self.operand(p, t)
            out.append('%s = bvshift(%r,%s,%s,%d)' % (dst, op, a, b, t.w))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t = p.type()
            a = self.operand(p, t)
            p.expect(',')
            b = self.operand(p, t)
            if t.k != 'float':
                raise Unsupported('vector float op')
            sy = {'fadd': '(%s) + (%s)', 'fsub': '(%s) - (%s)', 'fmul': '(%s) * (%s)', 'fdiv': 'fdiv(%s,%s)', 'frem': 'frem(%s,%s)'}[op]
            e = sy % (a, b)
            out.append('%s = %s' % (dst, 'r32(%s)' % e if t.w == 32 else e))
        elif op == 'fneg':
            t, a = self.tyop(p)
            out.append('%s = -(%s)' % (dst, a))
        elif op == 'icmp':
            if p.peek() == 'samesign':
                p.next()
            pred = p.next()
            t = p.type()
            a = self.operand(p, t)
            p.expect(',')
            b = self.operand(p, t)
            w = t.w if t.k == 'int' else 64
            sy = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}.get(pred)
            if t.k == 'int' and sy and w > 1:
                out.append('%s = (%s %s %s) if %s.__class__ is int and (%s).__class__ is int else icmp(%r,%s,%s,%d)' % (
                    dst, a, sy, b, '(%s)' % a, b, pred, a, b, w))
            else:
                out.append('%s = icmp(%r,%s,%s,%d)' % (dst, pred, a, b, w))
        elif op == 'fcmp':
            pred = p.next()
            t = p.type()
            a = self.operand(p, t)
            p.expect(',')
            b = self.operand(p, t)
            if pred in ('true', 'false'):
                out.append('%s = %s' % (dst, pred.capitalize()))
            else:
                out.append('%s = fcmp(%r,%s,%s)' % (dst, pred, a, b))
        elif op in ('trunc', 'zext', 'sext'):
            t, a = self.tyop(p)
            p.expect('to')
            t2 = p.type()
            out.append('%s = %s(%s,%d,%d)' % (dst, op, a, t.w, t2.w))
        elif op == 'fptrunc':
            t, a = self.tyop(p)
            out.append('%s = r32n(%s)' % (dst, a))
        elif op in ('fpext', 'freeze', 'bitcast'):
            t, a = self.tyop(p)
            if op == 'bitcast':
                p.expect('to')
                t2 = p.type()
                if t.k != t2.k:
                    raise Unsupported('bitcast')
            out.append('%s = %s' % (dst, a))
        elif op in ('sitofp', 'uitofp'):
            t, a = self.tyop(p)
            p.expect('to')
            t2 = p.type()
            out.append('%s = i2f(%s,%d,%s,%s)' % (dst, a, t.w, op == 'sitofp', t2.w == 32))
        elif op in ('fptosi', 'fptoui'):
            t, a = self.tyop(p)
            p.expect('to')
            t2 = p.type()
            out.append('%s = f2i(%s,%d,%s)' % (dst, a, t2.w, op == 'fptosi'))
        elif op == 'ptrtoint':
            t, a = self.tyop(p)
            out.append('%s = ptr2int(%s)' % (dst, a))
        elif op == 'inttoptr':
            raise Unsupported('inttoptr')
        elif op == 'select':
            p.type()
            c = self.operand(p, Ty('int', 1))
            p.expect(',')
            t, a = self.tyop(p)
            p.expect(',')
            t, b = self.tyop(p)
            if t.k == 'int' and t.w > 1:
                out.append('%s = select(%s,%s,%s,%d)' % (dst, c, a, b, t.w))
            else:
                out.append('%s = (%s) if %s else (%s)' % (dst, a, c, b))
        elif op == 'load':
            t = p.type()
            p.expect(',')
            _, a = self.tyop(p)
            rt = self.res(t)
            if rt.k not in ('int', 'float', 'ptr'):
                raise Unsupported('load of %s' % rt.k)
            n = self.size(t)
            isf = {'int': 0, 'float': 1, 'ptr': 2}[rt.k]
            out.append('%s = %s(%s,%d,%d)' % (dst, 'ld_bf' if isf == 0 and dst.startswith('v_bf_2e_load') else 'ld', a, n, isf))
            if rt.k == 'int' and rt.w == 1:
                out.append('%s = bool(%s)' % (dst, dst))
        elif op == 'store':
            t, v = self.tyop(p)
            p.expect(',')
            _, a = self.tyop(p)
            rt = self.res(t)
            if rt.k not in ('int', 'float', 'ptr'):
                raise Unsupported('store of %s' % rt.k)
            out.append('st(%s,%d,%s)' % (a, self.size(t), v))
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            p.type()
            base = self.operand(p, Ty('ptr'))
            idx = []
            while p.accept(','):
                it = p.type()
                idx.append((it, self.operand(p, it)))
            out.append('%s = %s' % (dst, self.gep_expr(bt, base, idx)))
        elif op == 'alloca':
            t = p.type()
            n = self.size(t)
            if p.accept(',') and p.peek() != 'align':
                it = p.type()
                cnt = self.operand(p, it)
                out.append('%s = Ptr(Block(%d*%s,%r),0)' % (dst, n, cnt, dst))
            else:
                out.append('%s = Ptr(Block(%d,%r),0)' % (dst, n, dst))
        elif op == 'br':
            t = p.type()
            if t.k == 'label':
                for l in jump(lab, p.next()[1:].strip('"')):
                    out.append(l)
            else:
                c = self.operand(p, t)
                p.expect(',')
                p.type()
                a = p.next()[1:].strip('"')
                p.expect(',')
                p.type()
                b = p.next()[1:].strip('"')
                out.append('if %s:' % c)
                for l in jump(lab, a):
                    out.append(' ' + l)
                out.append('else:')
                for l in jump(lab, b):
                    out.append(' ' + l)
        elif op == 'switch':
            t, v = self.tyop(p)
            p.expect(',')
            p.type()
            d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                tt = p.type()
                c = self.operand(p, tt)
                p.expect(',')
                p.type()
                cases.append((c, p.next()[1:].strip('"')))
            kw = 'if'
            for c, tgt in cases:
                out.append('%s icmp("eq",%s,%s,%d):' % (kw, v, c, t.w))
                for l in jump(lab, tgt):
                    out.append(' ' + l)
                kw = 'elif'
            if cases:
                out.append('else:')
                for l in jump(lab, d):
                    out.append(' ' + l)
            else:
                for l in jump(lab, d):
                    out.append(l)
        elif op == 'ret':
            t = p.type()
            if t.k == 'void':
                out.append('return None')
            else:
                out.append('return %s' % self.operand(p, t))
        elif op == 'unreachable':
            out.append('raise UB("unreachable executed")')
        elif op == 'call':
            while p.peek() in ('noalias', 'zeroext', 'signext', 'noundef', 'fastcc', 'ccc', 'nonnull', 'range'):
                p.next()
            rtp = p.type()
            if p.peek() == '(':      # varargs signature
                d = 0
                while True:
                    x = p.next()
                    d += x == '('
                    d -= x == ')'
                    if d == 0:
                        break
            callee = p.next()
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    if t.k == 'meta':
                        while p.peek() not in (',', ')'):
                            p.next()
                        args.append('None')
                    else:
                        bv = None
                        while True:
                            x = p.peek()
                            if x in _PATTRS:
                                p.next()
                            elif x == 'align':
                                p.next()
                                p.next()
                            elif x in ('byval', 'dereferenceable', 'sret', 'dereferenceable_or_null'):
                                p.next()
                                p.expect('(')
                                while p.next() != ')':
                                    pass
                            else:
                                break
                        args.append(self.operand(p, t))
                    if p.next() == ')':
                        break
            if callee[0] != '@':
                e = 'call(%s.name, %s)' % (lname(callee), ', '.join(args))
            else:
                e = self.call_expr(callee[1:], args, rtp)
            if dst:
                out.append('%s = %s' % (dst, e))
            elif e != 'None':
                out.append(e)
        elif op == 'extractvalue':
            t, a = self.tyop(p)
            p.expect(',')
            out.append('%s = %s[%s]' % (dst, a, p.next()))
        elif op == 'insertvalue':
            t, a = self.tyop(p)
            p.expect(',')
            t2, v = self.tyop(p)
            p.expect(',')
            out.append('%s = ins(%s,%s,%s)' % (dst, a, p.next(), v))
        elif op == 'extractelement':
            t, a = self.tyop(p)
            p.expect(',')
            t2, v = self.tyop(p)
            out.append('%s = %s[%s]' % (dst, a, v))
        elif op == 'insertelement':
            t, a = self.tyop(p)
            p.expect(',')
            t2, v = self.tyop(p)
            p.expect(',')
            t3, k = self.tyop(p)
            out.append('%s = ins(%s,%s,%s)' % (dst, a, k, v))
        else:
            raise Unsupported('IR instruction %s' % op)

    def call_expr(self, f, a, rtp):
        if f.startswith('llvm.'):
            b = f[5:]
            if b.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'prefetch')):
                return 'None'
            if b.startswith('memcpy') or b.startswith('memmove'):
                return 'memcpy(%s,%s,%s)' % tuple(a[:3])
            if b.startswith('memset'):
                return 'memset(%s,%s,%s)' % tuple(a[:3])
            if b.startswith('fmuladd') or b.startswith('fma.'):
                e = '((%s)*(%s))+(%s)' % tuple(a)
                return 'r32(%s)' % e if rtp.w == 32 else e
            w = rtp.w
            for nm in ('ctlz', 'cttz', 'ctpop'):
                if b.startswith(nm):
                    return '%s(%s,%d)' % (nm, a[0], w)
            for nm in ('umin', 'umax', 'smin', 'smax'):
                if b.startswith(nm + '.'):
                    return 'minmax(%r,%s,%s,%d)' % (nm, a[0], a[1], w)
            if b.startswith('abs.'):
                return 'iabs(%s,%d)' % (a[0], w)
            if b.startswith('expect'):
                return a[0]
            m = re.match(r'(sqrt|exp|cos|sin|pow|fabs|floor|ceil|log|minnum|maxnum|exp2|log2|rint|round|trunc)\.f(32|64)', b)
            if m:
                nm = {'minnum': 'fmin', 'maxnum': 'fmax'}.get(m.group(1), m.group(1))
                return 'cmath_call(%r,%s)' % (nm + ('f' if m.group(2) == '32' else ''), ','.join(a))
            if b.startswith('powi.'):
                return 'powi(%s,%s)' % (a[0], a[1])
            raise Unsupported('intrinsic %s' % f)
        if f in _MATH and f not in self.rt.fmod:
            return 'cmath_call(%r,%s)' % (f, ','.join(a))
        return 'call(%r,%s)' % (f, ','.join(a))


class FuncPtr:
    def __init__(self, name):
        self.name = name


def powi(a, n):
    n = _sg(n, 32)
    return a ** n


def fl(s):
    if s.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
    return float(s)


def repr_f(v):
    if v != v:
        return 'NAN'
    if v in (float('inf'), float('-inf')):
        return 'INF' if v > 0 else '(-INF)'
    return '(%r)' % v


def lname(s):
    return 'v_' + re.sub(r'\W', lambda m: '_%x_' % ord(m.group()), s[1:].strip('"'))


def ins(a, k, v):
    a = list(a)
    a[int(k)] = v
    return a


def nsw(op):
    f = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b}[op]
    g = {'add': bvadd, 'sub': bvsub, 'mul': bvmul}[op]

    def h(a, b, w):
        if a.__class__ is int and b.__class__ is int:
            r = f(_sg(a, w), _sg(b, w))
            if not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                raise UB('signed overflow in %s' % op)
            return r & ((1 << w) - 1)
        A, B = bvz(a, w), bvz(b, w)
        if op == 'add':
            ok = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
        elif op == 'sub':
            ok = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
        else:
            ok = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
        if not bool(SymBool(ok)):
            raise UB('signed overflow in %s' % op)
        return g(a, b, w)
    return h


def byval_copy(ptr, n):
    b = Block(n, 'byval')
    b.copy_from(0, ptr.b, ptr.o, n)
    return Ptr(b, 0)


def memcpy(d, s, n):
    if n.__class__ is not int:
        raise Unsupported('symbolic memcpy size')
    if n == 0:
        return None
    if d.b is None or s.b is None:
        raise UB('memcpy with null pointer')
    if d.b is s.b:
        items = s.b.items_in(s.o, n)
        for off, (sz, v) in items:
            d.b.store(d.o + off, sz, v)
        return None
    d.b.copy_from(d.o, s.b, s.o, n)


def memset(d, c, n):
    if n.__class__ is not int:
        raise Unsupported('symbolic memset')
    if n == 0:
        return None
    if c != 0:
        raise Unsupported('memset non-zero')
    if d.b is None:
        raise UB('memset null')
    d.b.set_zero(d.o, n)


def mul64(a, k):
    if a.__class__ is int:
        return (a * k) & _M64
    return bvmul(a, k, 64)


def iabs(a, w):
    if a.__class__ is int:
        return abs(_sg(a, w)) & ((1 << w) - 1)
    return _mk(z3.If(a.z < 0, -a.z, a.z), w)


def ptr2int(p):
    return p          # only comparisons supported


STEPS = [4000000]
ENV = dict(Ptr=Ptr, Block=Block, NULL=NULL, ld=ld, ld_bf=ld_bf, st=st, gep=gep, sext=sext, zext=zext, trunc=trunc, mul64=mul64,
           bvadd=bvadd, bvsub=bvsub, bvmul=bvmul, bvdiv=bvdiv, bvbit=bvbit, bvshift=bvshift, icmp=icmp, fcmp=fcmp,
           select=select, r32=r32, r32n=r32n, fdiv=fdiv, frem=frem, i2f=i2f, f2i=f2i, ptr2int=ptr2int, UB=UB, STEPS=STEPS,
           ins=ins, memcpy=memcpy, memset=memset, ctlz=ctlz, cttz=cttz, ctpop=ctpop, minmax=minmax, iabs=iabs,
           cmath_call=cmath_call, nsw_add=nsw('add'), nsw_sub=nsw('sub'), nsw_mul=nsw('mul'),
           NAN=float('nan'), INF=float('inf'), powi=powi)


class Runtime:
    """Links all modules; resolves calls."""

    def __init__(self):
        self.mods = []
        self.fmod = {}
        self.fns = {}
        self.alloc_fail = None      # callback(size)->bool : simulate allocation failure
        self.executed = set()
        self.live = set()
        self.builtins = {
            'malloc': self.c_malloc, 'calloc': self.c_calloc, 'free': self.c_free, 'realloc': self.c_realloc,
            'memcpy': lambda d, s, n: (memcpy(d, s, n), d)[1], 'memset': lambda d, c, n: (memset(d, c, n), d)[1],
            'memmove': lambda d, s, n: (memcpy(d, s, n), d)[1],
            '__muldc3': self.mulc, '__mulsc3': lambda a, b, c, d: [r32(x) for x in self.mulc(a, b, c, d)],
            '__divdc3': self.divc, '__divsc3': lambda a, b, c, d: [r32(x) for x in self.divc(a, b, c, d)],
            'abs': lambda a: iabs(a, 32), 'labs': lambda a: iabs(a, 64), 'llabs': lambda a: iabs(a, 64),
        }

    def add(self, text, name):
        m = Module(text, self, name)
        self.mods.append(m)
        for f in m.funcs_src:
            self.fmod.setdefault(f, m)
        return m

    def extern_global(self, nm):
        for m in self.mods:
            s = m.globals_src.get(nm)
            if s and ' external ' not in s.split('{')[0][:80]:
                return m.glob(nm)
        raise Unsupported('extern global %s' % nm)

    def call(self, name, *args):
        f = self.fns.get(name)
        if f is None:
            m = self.fmod.get(name)
            if m is None:
                f = self.builtins.get(name)
                if f is None:
                    raise Unsupported('call to unknown function %s' % name)
            else:
                f = m.compile(name)
                self.executed.add(name)
            self.fns[name] = f
        return f(*args)

    def c_malloc(self, n):
        if n.__class__ is not int:
            raise Unsupported('symbolic malloc')
        if n >= 1 << 40:
            return NULL
        if self.alloc_fail is not None and self.alloc_fail(n):
            return NULL
        b = Block(n, 'malloc')
        self.live.add(b)
        return Ptr(b, 0)

    def c_calloc(self, a, n):
        p = self.c_malloc(a * n if a.__class__ is int and n.__class__ is int else a)
        if p.b is not None:
            p.b.zero = True
        return p

    def c_realloc(self, p, n):
        raise Unsupported('realloc')

    def c_free(self, p):
        if p.b is None:
            return
        if not p.b.alive or p.o != 0 or not isinstance(p.b, Block):
            raise UB('invalid free')
        p.b.alive = False
        self.live.discard(p.b)

    @staticmethod
    def mulc(a, b, c, d):
        return [a * c - b * d, a * d + b * c]

    @staticmethod
    def divc(a, b, c, d):
        r = Cx(a, b) / Cx(c, d)
        return [r.re, r.im]
