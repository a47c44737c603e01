"""Transcendental functions of symbolic reals as opaque, bounded atoms.

While active, exp/sin/cos/sqrt of a symbolic argument become fresh bounded variables, one per function and argument (arguments are exact polynomials; two
arguments closer than eps over the input box share one atom, which for these Lipschitz functions costs at most eps).  Quotients by single monomials become products
with reciprocal atoms, so that equal closed formulas written in different ways have equal polynomials.  An identity proved over free atoms holds for the true functions;
a counterexample is only kept if it is one after the atoms are evaluated with the true functions, and it is replayed on the real build as always."""
import math
from fractions import Fraction
import z3
from . import explore, sym, llir
from .sym import Sx, fresh, zvar, to_z3
from .errs import Unsupported

MINABS = Fraction(1, 1 << 20)


class Opaque:
    all = False

    def __init__(self, env, eps):
        self.env = env
        self.eps = eps
        self.atoms = {}         # name -> [(arg, atom)]
        self.inv = {}           # var id -> (inverse Sx, id)
        self.defs = {}          # atom id -> (name, arg)

    # -- helpers
    def new(self, name, arg, lo, hi):
        v = fresh('%s%d' % (name, sym.nvars()))
        i = sym.nvars()
        self.env.bounds[i] = (lo, hi)
        z = zvar(i)
        explore.Ctx.cur.assume(z3.And(z >= z3.RealVal(str(Fraction(lo))), z <= z3.RealVal(str(Fraction(hi)))))
        self.defs[i] = (name, arg)
        return v

    def range(self, x):
        """interval containing x over the input box"""
        lo = hi = Fraction(0)
        for k, c in x.t.items():
            a, b = Fraction(c), Fraction(c)
            if k != 0:
                ids = (k,) if k.__class__ is int else k
                for i in set(ids):
                    n = ids.count(i)
                    l, h = self.env.bounds[i]
                    l, h = Fraction(l), Fraction(h)
                    if n % 2 == 0:
                        l, h = (Fraction(0) if l <= 0 <= h else min(l * l, h * h)) ** (n // 2), max(l * l, h * h) ** (n // 2)
                    else:
                        l, h = l ** n, h ** n
                    q = (a * l, a * h, b * l, b * h)
                    a, b = min(q), max(q)
            lo += a
            hi += b
        s = Fraction(1, 1 << x.e) if x.e >= 0 else Fraction(1 << -x.e)
        return lo * s, hi * s

    def nonpos(self, arg):
        """arg <= 0 for all values (decided by z3)"""
        s = z3.Then('simplify', 'purify-arith', 'qfnra-nlsat').solver()
        s.set('timeout', 3000)
        for i in {i for k in arg.t if k for i in ((k,) if k.__class__ is int else k)}:
            lo, hi = self.env.bounds[i]
            s.add(zvar(i) >= z3.RealVal(str(Fraction(lo))), zvar(i) <= z3.RealVal(str(Fraction(hi))))
        s.add(to_z3(arg) > 0)
        return s.check() == z3.unsat

    def find(self, name, arg):
        for a, v in self.atoms.get(name, ()):
            d = (a - arg).norm()
            if not d.t:
                return v
            lo, hi = self.range(d)
            if max(abs(lo), abs(hi)) <= self.eps:
                return v
        return None

    def fn(self, name, arg):
        if not isinstance(arg, Sx):
            return getattr(math, name)(arg)
        if arg.is_const():
            return getattr(math, name)(float(arg.const_value()))
        arg = arg.norm()
        v = self.find(name, arg)
        if v is not None:
            return v
        if name in ('sin', 'cos'):
            # evenness and oddness: one atom for both signs
            n = -arg
            v = self.find(name, n)
            if v is not None:
                return v if name == 'cos' else -v
            r = self.new(name, arg, -1, 1)
        elif name == 'exp':
            lo, hi = self.range(arg)
            r = self.new(name, arg, 0, 1 if hi <= 0 or self.nonpos(arg) else Fraction(2) ** 60)
        elif name == 'sqrt':
            # sqrt(c * m) = sqrt(c) sqrt(m) for a positive constant c
            nz = [k for k in arg.t if arg.t[k]]
            if len(nz) == 1:
                c = arg.coeff(nz[0])
                if c != 1 and c > 0:
                    return self.fn('sqrt', Sx({nz[0]: 1}, 0)) * math.sqrt(c)
                if nz[0].__class__ is tuple and len(set(nz[0])) == 1 and len(nz[0]) % 2 == 0 and self.env.bounds[nz[0][0]][0] >= 0:
                    r = Sx({nz[0][0]: 1}, 0)
                    return r ** (len(nz[0]) // 2)
            if bool(arg < 0):
                return float('nan')
            lo, hi = self.range(arg)
            hi = Fraction(math.sqrt(hi)) * 2 + 1
            r = self.new(name, arg, Fraction(math.sqrt(lo)) * Fraction(999, 1000) if lo > 0 else 0, hi)
        else:
            raise Unsupported('math function %s of symbolic argument' % name)
        self.atoms.setdefault(name, []).append((arg, r))
        return r

    def __call__(self, name, args, f32):
        a = args[0]
        if name == 'pow':
            n = args[1]
            if isinstance(n, Sx) and n.is_const():
                n = n.const_value()
            if isinstance(n, Sx):
                raise Unsupported('symbolic exponent')
            if n == int(n) and n < 0:
                return self.div(Sx.const(1), a ** (-n))
            if n == 0.5:
                return self.fn('sqrt', a)
            return a ** n
        if name == 'fabs':
            return abs(a)
        if name in ('fmin', 'fmax'):
            b = args[1]
            c = (a < b) if name == 'fmin' else (a > b)
            return a if c else b
        return self.fn(name, a)

    def div(self, a, b):
        """a / b for symbolic b"""
        if not isinstance(b, Sx) or b.is_const():
            return a / b
        if not isinstance(a, Sx):
            a = Sx.const(a)
        nz = [k for k in b.t if b.t[k]]
        if len(nz) != 1:
            # a named value for the sum, scaled to leading coefficient one
            c = b.coeff(min(nz, key=str))
            n = (b / c).norm()
            v = self.find('sum', n)
            if v is None:
                lo, hi = self.range(n)
                v = self.new('sum', n, lo, hi)
                explore.Ctx.cur.assume(to_z3(v) == to_z3(n))
                self.atoms.setdefault('sum', []).append((n, v))
            b = v * c
            nz = [k for k in b.t if b.t[k]]
        if b == 0:
            return a._div_zero()
        k = nz[0]
        r = a
        for i in ((k,) if k.__class__ is int else k):
            r = self.cancel(r, i)
        return r / b.coeff(k)

    def cancel(self, a, i):
        """a / v_i"""
        if i not in self.inv:
            if i in {j for _, j in self.inv.values()}:
                q = [k for k, (_, j) in self.inv.items() if j == i][0]
                return a * Sx({q: 1}, 0)
            lo, hi = self.env.bounds[i]
            z = zvar(i)
            m = z3.RealVal(str(MINABS))
            explore.Ctx.cur.assume(z3.Or(z >= m, z <= -m))
            q = Fraction(1) / (Fraction(lo) if lo > 0 else MINABS)
            v = self.new('inv', Sx({i: 1}, 0), 0 if lo >= 0 else -q, q)
            j = sym.nvars()
            explore.Ctx.cur.assume(z * zvar(j) == 1)
            self.inv[i] = (v, j)
        v, j = self.inv[i]
        out = {}
        for k, c in a.t.items():
            ids = [] if k == 0 else [k] if k.__class__ is int else list(k)
            if i in ids:
                ids.remove(i)
            else:
                ids.append(j)
            ids.sort()
            nk = 0 if not ids else ids[0] if len(ids) == 1 else tuple(ids)
            out[nk] = out.get(nk, 0) + c
        return Sx(out, a.e)

    def mulkey(self, a, b):
        ids = list(a) + list(b)
        for i, (_, j) in self.inv.items():
            while i in ids and j in ids:
                ids.remove(i)
                ids.remove(j)
        ids.sort()
        return 0 if not ids else ids[0] if len(ids) == 1 else tuple(ids)

    # -- evaluation with the true functions
    def fill(self, vals, ev):
        for i in sorted(self.defs):
            name, arg = self.defs[i]
            x = float(ev(arg, vals))
            try:
                y = 1 / x if name == 'inv' else x if name == 'sum' else getattr(math, name)(x)
            except (ValueError, ZeroDivisionError, OverflowError):
                y = 0.0
            vals[i] = Fraction(y)
        return vals


def activate(env, eps):
    o = Opaque(env, eps)
    llir.MATH_HOOK[0] = o
    sym.OPAQUE[0] = o
    env.opq = o
    return o


def deactivate():
    llir.MATH_HOOK[0] = None
    sym.OPAQUE[0] = None
