"""Symbolic values: exact real polynomials (Sx), complex pairs (Cx),
symbolic bit-vectors (SBV), symbolic booleans."""
import math
from fractions import Fraction
import numbers
import numpy as _np
import z3
from . import explore


from .errs import Unsupported, UB

_vars = []          # id-1 -> name
_zvars = {}         # id -> z3 Real
CONSTRAINED = set()


def fresh(name):
    _vars.append(name)
    return Sx({len(_vars): 1}, 0)


def reset_vars():
    del _vars[:]
    _zvars.clear()


def nvars():
    return len(_vars)


def var_name(i):
    return _vars[i - 1]


def zvar(i):
    z = _zvars.get(i)
    if z is None:
        z = _zvars[i] = z3.Real('v%d' % i)
    return z


_INVP = 256


def _const(v):
    """concrete number -> (mantissa, exp) with value = m * 2**-e"""
    if isinstance(v, (int, _np.integer)):
        return int(v), 0
    if isinstance(v, Fraction):
        d = v.denominator
        if d & (d - 1) == 0:
            return v.numerator, d.bit_length() - 1
        return (v.numerator << _INVP) // d, _INVP
    n, d = float(v).as_integer_ratio()
    return n, d.bit_length() - 1


def _mulkey(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a.__class__ is int:
        a = (a,)
    if b.__class__ is int:
        b = (b,)
    if OPAQUE[0] is not None and OPAQUE[0].inv:
        return OPAQUE[0].mulkey(a, b)
    return tuple(sorted(a + b))


def _isfin(v):
    return math.isfinite(v)


_NUM = (int, float, bool, Fraction, _np.floating, _np.integer, _np.bool_)


NOISE = [None]          # set by the environment: eps -> fresh relative rounding error in [-eps, eps]
_MANT = {'f2': 11, 'f4': 24, 'c8': 24}


def round_to(v, code):
    """v converted to a narrower floating dtype: an unknown rounding error of half a unit in the last place"""
    if NOISE[0] is None or code not in _MANT:
        return v
    if isinstance(v, Sx):
        if v.is_const():
            return v
        return v + v * NOISE[0](2.0 ** -_MANT[code])
    if isinstance(v, Cx):
        return Cx(round_to(v.re, code), round_to(v.im, code))
    return v


class SymBool:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return explore.decide(self.c)

    def __and__(self, o):
        return SymBool(z3.And(self.c, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.c, zb(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.c))

    def logical_not(self):
        return not bool(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return id(self)


def zb(o):
    return o.c if isinstance(o, SymBool) else z3.BoolVal(bool(o))


class Sx:
    """Sum of integer-coefficient monomials times 2**-e (exact)."""
    __slots__ = ('t', 'e')

    def __init__(self, t, e):
        self.t = t
        self.e = e

    # -- helpers
    @staticmethod
    def const(v):
        m, e = _const(v)
        return Sx({0: m} if m else {}, e)

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and 0 in t)

    def const_value(self):
        return Fraction(self.t.get(0, 0), 1 << self.e)

    def is_zero(self):
        return not any(self.t.values())

    def coeff(self, k):
        return Fraction(self.t.get(k, 0), 1 << self.e)

    def norm(self):
        return Sx({k: v for k, v in self.t.items() if v}, self.e)

    # -- arithmetic
    def __add__(self, o):
        c = o.__class__
        if c is Sx:
            e1, e2 = self.e, o.e
            if e1 == e2:
                r = dict(self.t)
                for k, v in o.t.items():
                    if k in r:
                        r[k] += v
                    else:
                        r[k] = v
                return Sx(r, e1)
            if e1 > e2:
                s = e1 - e2
                r = dict(self.t)
                for k, v in o.t.items():
                    if k in r:
                        r[k] += v << s
                    else:
                        r[k] = v << s
                return Sx(r, e1)
            s = e2 - e1
            r = dict(o.t)
            for k, v in self.t.items():
                if k in r:
                    r[k] += v << s
                else:
                    r[k] = v << s
            return Sx(r, e2)
        if c is float or isinstance(o, _NUM):
            if o == 0:
                return self
            if c is not int and not isinstance(o, Fraction) and not _isfin(o):
                return float(o)
            return self + Sx.const(o)
        if isinstance(o, Cx):
            return Cx(self + o.re, o.im)
        if isinstance(o, (complex, _np.complexfloating)):
            return Cx(self + o.real, o.imag)
        return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        return Sx({k: -v for k, v in self.t.items()}, self.e)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, (Sx, Cx) + _NUM):
            return self + (-o if not isinstance(o, _np.bool_) else -int(o))
        if isinstance(o, (complex, _np.complexfloating)):
            return Cx(self - o.real, -o.imag)
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        c = o.__class__
        if c is Sx:
            if len(o.t) == 1 and 0 in o.t:
                m = o.t[0]
                return Sx({k: v * m for k, v in self.t.items()}, self.e + o.e)
            r = {}
            for k1, v1 in self.t.items():
                if not v1:
                    continue
                for k2, v2 in o.t.items():
                    k = _mulkey(k1, k2)
                    if k in r:
                        r[k] += v1 * v2
                    else:
                        r[k] = v1 * v2
            return Sx(r, self.e + o.e)
        if c is float:
            if o == 0.0:
                return Sx({}, 0)
            if o == 1.0:
                return self
            if not _isfin(o):
                return self._mul_inf(o)
            m, d = o.as_integer_ratio()
            return Sx({k: v * m for k, v in self.t.items()},
                      self.e + d.bit_length() - 1)
        if isinstance(o, _NUM):
            if not isinstance(o, Fraction) and not _isfin(o):
                return self._mul_inf(float(o))
            m, e = _const(o)
            return Sx({k: v * m for k, v in self.t.items()} if m else {}, self.e + e)
        if isinstance(o, Cx):
            return Cx(self * o.re, self * o.im)
        if isinstance(o, (complex, _np.complexfloating)):
            return Cx(self * float(o.real), self * float(o.imag))
        return NotImplemented
    __rmul__ = __mul__

    def _mul_inf(self, o):
        if o != o:
            return float('nan')
        if self == 0:
            return float('nan')
        if self > 0:
            return o
        return -o

    def __truediv__(self, o):
        if isinstance(o, _NUM):
            if o == 0:
                return self._div_zero()
            if not isinstance(o, Fraction) and not _isfin(o):
                return float('nan') if o != o else Sx({}, 0)
            n, e = _const(o)
            neg = n < 0
            n = abs(n)
            if n & (n - 1) == 0:
                k = n.bit_length() - 1
                # value / (2**k * 2**-e) = value * 2**(e-k)
                sh = e - k
                if neg:
                    self = -self
                if sh >= 0:
                    return Sx({q: v << sh for q, v in self.t.items()}, self.e)
                return Sx(dict(self.t), self.e - sh)
            inv = ((1 << (_INVP + n.bit_length())) + n // 2) // n
            if neg:
                inv = -inv
            # 1/(n*2^-e) = 2^e/n ~ inv*2^e / 2^(INVP+bl)
            return Sx({q: (v * inv) << e for q, v in self.t.items()},
                      self.e + _INVP + n.bit_length())
        if isinstance(o, Sx):
            if o.is_const():
                return self / o.const_value()
            return div(self, o)
        if isinstance(o, Cx):
            return Cx(self, 0.0) / o
        if isinstance(o, (complex, _np.complexfloating)):
            return Cx(self, 0.0) / Cx(float(o.real), float(o.imag))
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, _NUM):
            if not isinstance(o, Fraction) and not _isfin(o):
                if o != o:
                    return float('nan')
                return o if self > 0 else -o
            return Sx.const(o) / self
        if isinstance(o, (complex, _np.complexfloating)):
            return Cx(o.real / self, o.imag / self)
        return NotImplemented

    def _div_zero(self):
        if self == 0:
            return float('nan')
        return float('inf') if self > 0 else float('-inf')

    def __pow__(self, n):
        if isinstance(n, Sx) and n.is_const():
            n = n.const_value()
        n = float(n)
        if n == int(n) and n >= 0:
            r = Sx({0: 1}, 0)
            for _ in range(int(n)):
                r = r * self
            return r
        if n == 0.5:
            return self.sqrt()
        if n == int(n):
            return 1.0 / (self ** (-n))
        raise Unsupported("pow %r" % n)

    def __abs__(self):
        if self.is_const():
            return self if self.const_value() >= 0 else -self
        return self if self >= 0 else -self

    def sqrt(self):
        if self.is_const():
            c = self.const_value()
            return Sx.const(math.sqrt(c))
        return sqrt_sym(self)

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def fabs(self):
        return abs(self)

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, _NUM) and not isinstance(o, Fraction) and not _isfin(o):
            return op(0, float(o)) if o == o else (op is _ne)
        if isinstance(o, Cx):
            if op is _eq or op is _ne:
                r = bool(self == o.re) and bool(o.im == 0)
                return r if op is _eq else not r
            return NotImplemented
        if not isinstance(o, (Sx,) + _NUM):
            if op is _eq:
                return False
            if op is _ne:
                return True
            return NotImplemented
        d = self - o
        if d.is_const() or d.is_zero():
            return op(d.const_value(), 0)
        return SymBool(op(to_z3(d), z3.RealVal(0)))

    def __lt__(self, o):
        return self._cmp(o, _lt)

    def __le__(self, o):
        return self._cmp(o, _le)

    def __gt__(self, o):
        return self._cmp(o, _gt)

    def __ge__(self, o):
        return self._cmp(o, _ge)

    def __eq__(self, o):
        return self._cmp(o, _eq)

    def __ne__(self, o):
        return self._cmp(o, _ne)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        raise Unsupported("float() of symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        raise Unsupported("int() of symbolic value")

    def __repr__(self):
        out = []
        for k, v in list(self.t.items())[:8]:
            out.append('%.6g*%s' % (float(Fraction(v, 1 << self.e)), k))
        return 'Sx(' + ' + '.join(out) + (' ...' if len(self.t) > 8 else '') + ')'


def _lt(a, b):
    return a < b


def _le(a, b):
    return a <= b


def _gt(a, b):
    return a > b


def _ge(a, b):
    return a >= b


def _eq(a, b):
    return a == b


def _ne(a, b):
    return a != b


def key_z3(k):
    if k.__class__ is int:
        return zvar(k)
    r = zvar(k[0])
    for i in k[1:]:
        r = r * zvar(i)
    return r


def to_z3(p):
    if isinstance(p, _NUM):
        p = Sx.const(p)
    terms = []
    for k, v in p.t.items():
        if not v:
            continue
        f = Fraction(v, 1 << p.e)
        c = z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
        terms.append(c if k == 0 else (key_z3(k) if f == 1 else c * key_z3(k)))
    if not terms:
        return z3.RealVal(0)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(terms)


def _pkey(p):
    return (tuple(sorted((str(k), Fraction(v, 1 << p.e)) for k, v in p.t.items() if v)))


OPAQUE = [None]         # engine.opaque.Opaque while transcendental functions are opaque


def div(a, b):
    """a / b, b symbolic: forks on b == 0, else fresh q with q*b == a."""
    if OPAQUE[0] is not None:
        return OPAQUE[0].div(a, b)
    if b == 0:
        return a._div_zero()
    ctx = explore.Ctx.cur
    key = ('div', _pkey(a), _pkey(b))
    if key in ctx.memo:
        return ctx.memo[key]
    q = fresh('q%d' % nvars())
    ctx.assume(to_z3(q) * to_z3(b) == to_z3(a))
    ctx.memo[key] = q
    return q


def sqrt_sym(a):
    if OPAQUE[0] is not None:
        return OPAQUE[0].fn('sqrt', a)
    if a < 0:
        return float('nan')
    ctx = explore.Ctx.cur
    key = ('sqrt', _pkey(a))
    if key in ctx.memo:
        return ctx.memo[key]
    q = fresh('s%d' % nvars())
    ctx.assume(z3.And(to_z3(q) >= 0, to_z3(q) * to_z3(q) == to_z3(a)))
    ctx.memo[key] = q
    return q


def _re(o):
    return o.re if isinstance(o, Cx) else (o.real if isinstance(o, (complex, _np.complexfloating)) else o)


def _im(o):
    return o.im if isinstance(o, Cx) else (o.imag if isinstance(o, (complex, _np.complexfloating)) else 0.0)


_CNUM = _NUM + (Sx, complex, _np.complexfloating)


class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __add__(self, o):
        if isinstance(o, Cx):
            return Cx(self.re + o.re, self.im + o.im)
        if isinstance(o, _CNUM):
            return Cx(self.re + _re(o), self.im + _im(o))
        return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, (Cx,) + _CNUM):
            return Cx(self.re - _re(o), self.im - _im(o))
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Cx) or isinstance(o, (complex, _np.complexfloating)):
            a, b = _re(o), _im(o)
            return Cx(self.re * a - self.im * b, self.re * b + self.im * a)
        if isinstance(o, _CNUM):
            return Cx(self.re * o, self.im * o)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Cx) or isinstance(o, (complex, _np.complexfloating)):
            a, b = _re(o), _im(o)
            d = a * a + b * b
            return Cx((self.re * a + self.im * b) / d, (self.im * a - self.re * b) / d)
        if isinstance(o, _CNUM):
            return Cx(_d(self.re, o), _d(self.im, o))
        return NotImplemented

    def __rtruediv__(self, o):
        return Cx(_re(o), _im(o)) / self

    def __pow__(self, n):
        if n == int(n) and n >= 0:
            r = Cx(1.0, 0.0)
            for _ in range(int(n)):
                r = r * self
            return r
        raise Unsupported('complex pow')

    def __abs__(self):
        m = self.re * self.re + self.im * self.im
        if isinstance(m, Sx):
            return m.sqrt()
        return math.sqrt(m)

    def conjugate(self):
        return Cx(self.re, -self.im)
    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __eq__(self, o):
        if not isinstance(o, (Cx,) + _CNUM):
            return False
        return bool(self.re == _re(o)) and bool(self.im == _im(o))

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return self != 0

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __repr__(self):
        return 'Cx(%r,%r)' % (self.re, self.im)


def _d(a, b):
    if isinstance(a, Sx) or isinstance(b, Sx):
        return a / b if isinstance(a, Sx) else Sx.const(a) / b
    if b == 0:
        return float('nan') if a == 0 or a != a else math.copysign(float('inf'), a)
    return a / b


numbers.Real.register(Sx)
numbers.Complex.register(Cx)


# ---------------------------------------------------------------- bit-vectors
class SBV:
    """Symbolic w-bit machine integer; python-int operands are masked."""
    __slots__ = ('z', 'w')

    def __init__(self, z, w):
        self.z = z
        self.w = w

    def __repr__(self):
        return 'SBV(%s,%d)' % (self.z, self.w)


def bvz(a, w):
    if isinstance(a, SBV):
        assert a.w == w, (a.w, w)
        return a.z
    if isinstance(a, SymBool):
        return z3.If(a.c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return z3.BitVecVal(int(a), w)


# ------------------------------------------------------------------ floating-point values of symbolic machine integers
_F64 = z3.Float64()
_RNE = z3.RNE()


def fpz(v):
    return v.z if isinstance(v, SFP) else z3.FPVal(float(v), _F64)


class SFP:
    """Exact IEEE double computed from symbolic integers (z3 floating-point theory); never mixed with the real-valued data path."""
    __slots__ = ('z', 'src', 'fl')

    def __init__(self, z, src=None):
        self.z = z
        self.src = src      # the unsigned machine integer this is the conversion of
        self.fl = None      # known floor, if any

    def _first(self, c):
        # smallest integer n with float(n) >= c
        lo, hi = 0, 1 << 66
        while lo < hi:
            m = (lo + hi) // 2
            if float(m) >= c:
                hi = m
            else:
                lo = m + 1
        return lo

    def _ge(self, c):
        n = self._first(c)
        return z3.BoolVal(False) if n >> self.src.w else z3.UGE(self.src.z, z3.BitVecVal(n, self.src.w))

    def _cmp(self, c):
        return self.src is not None and isinstance(c, (int, float)) and c == c

    def _b(op):
        def f(self, o):
            return SFP(op(_RNE, self.z, fpz(o)))
        def r(self, o):
            return SFP(op(_RNE, fpz(o), self.z))
        return f, r
    __add__, __radd__ = _b(z3.fpAdd)
    __sub__, __rsub__ = _b(z3.fpSub)
    __mul__, __rmul__ = _b(z3.fpMul)
    __truediv__, __rtruediv__ = _b(z3.fpDiv)

    def __neg__(self):
        return SFP(z3.fpNeg(self.z))

    def __abs__(self):
        return SFP(z3.fpAbs(self.z))

    def __lt__(self, o):
        if self._cmp(o):
            return SymBool(z3.Not(self._ge(o)))
        return SymBool(z3.fpLT(self.z, fpz(o)))

    def __le__(self, o):
        if self._cmp(o):
            return SymBool(z3.Not(self._ge(math.nextafter(float(o), math.inf))))
        return SymBool(z3.fpLEQ(self.z, fpz(o)))

    def __gt__(self, o):
        if self._cmp(o):
            return SymBool(self._ge(math.nextafter(float(o), math.inf)))
        return SymBool(z3.fpGT(self.z, fpz(o)))

    def __ge__(self, o):
        if self._cmp(o):
            return SymBool(self._ge(o))
        return SymBool(z3.fpGEQ(self.z, fpz(o)))

    def __eq__(self, o):
        return SymBool(z3.fpEQ(self.z, fpz(o)))

    def __ne__(self, o):
        return SymBool(z3.Not(z3.fpEQ(self.z, fpz(o))))

    __hash__ = object.__hash__

    def isnan(self):
        return SymBool(z3.fpIsNaN(self.z))

    def fn(self, name):
        rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': z3.RNE(), 'round': z3.RNA()}.get(name)
        if name in ('floor', 'trunc') and self.fl is not None:
            return float(self.fl)
        if rm is not None and self.src is not None:
            return self
        if rm is not None:
            return SFP(z3.fpRoundToIntegral(rm, self.z))
        if name == 'sqrt':
            return SFP(z3.fpSqrt(_RNE, self.z))
        if name == 'fabs':
            return abs(self)
        if name == 'log2' and self.src is not None:
            # fork on the binary exponent e; the result lies in [e, e+1], is e only at 2^e and rounds up to e+1 only within 2^-49 of 2^(e+1)
            for e in range(0, 65):
                if bool(self < 2.0 ** (e + 1)):
                    break
            if bool(self < 1.0):
                raise Unsupported('log2 of zero')
            if bool(self <= 2.0 ** e):
                return float(e)
            if bool(self > 2.0 ** (e + 1) * (1 - 2.0 ** -49)):
                return float(e + 1)
            r = SFP(z3.FreshConst(_F64, 'log2'))
            r.fl = e
            explore.assume(z3.And(z3.fpGT(r.z, fpz(float(e))), z3.fpLT(r.z, fpz(float(e + 1)))))
            return r
        raise Unsupported('%s of a symbolic integer' % name)


def bv2fp(v, signed):
    return SFP((z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(_RNE, v.z, _F64), None if signed else v)


def fp2bv(v, w, signed):
    if v.fl is not None:
        return v.fl
    return SBV((z3.fpToSBV if signed else z3.fpToUBV)(z3.RTZ(), v.z, z3.BitVecSort(w)), w)
