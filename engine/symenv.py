"""Symbolic check environment and solver discharge."""
import math
import time
import warnings
from fractions import Fraction
import numpy as np
import z3
from . import explore, llir, opaque, sym
from .sym import Sx, Cx, SymBool, Unsupported, UB, fresh, to_z3, zvar, _NUM
from .symnp import SymArray, NP, plain, wrapa, has_sym
from .env import Base, Stop, lay, _snapc, _samec


class Oblig:
    __slots__ = ('kind', 'label', 'data', 'tol', 'grp')

    def __init__(self, kind, label, data, tol, grp=None):
        self.grp = grp          # (expected elements, scale): tolerance is relative to their magnitude
        self.kind = kind
        self.label = label
        self.data = data
        self.tol = tol


def arrsnap(a):
    if isinstance(a, SymArray):
        return ('a', plain(a).copy(order='K'), a.dtype, a.shape, a.strides)
    if isinstance(a, dict):
        return ('d', [(k, arrsnap(v)) for k, v in a.items()])
    if isinstance(a, (list, tuple)):
        return (type(a).__name__, [arrsnap(v) for v in a], [id(v) for v in a])
    return _snapc(a)


class SymEnv(Base):
    sym = True

    def __init__(self, pywt):
        self.pywt = pywt
        self.np = NP
        self.vars = {}        # name -> (shape, dtype, list of var ids)
        self.bounds = {}      # var id -> (lo, hi)
        self.ints = {}        # name -> (BitVec, signed)
        self.obl = []
        self.structural = []
        self.actuals = []
        self.nok = 0
        self.noise = set()
        self.opq = None
        sym.NOISE[0] = self._noise
        opaque.deactivate()

    def opaque_math(self, eps=1e-11):
        """from here on exp, sin, cos and sqrt of symbolic values are opaque bounded atoms (engine.opaque)"""
        opaque.activate(self, eps)

    def fun(self, name, x):
        return self.opq.fn(name, x)

    # ---------------------------------------------------------------- inputs
    def _new(self, nm, lo, hi):
        v = fresh(nm)
        i = sym.nvars()
        self.bounds[i] = (lo, hi)
        ctx = explore.Ctx.cur
        z = zvar(i)
        ctx.assume(z3.And(z >= z3.RealVal(str(lo)), z <= z3.RealVal(str(hi))))
        return v, i

    def _noise(self, eps):
        eps = Fraction(eps)
        v, i = self._new('rnd', -eps, eps)
        self.noise.add(i)
        return v

    def arr(self, name, shape, dtype='f8', order='C', lo=None, hi=None):
        lo, hi = self._sc(lo, hi)
        dt = np.dtype(dtype)
        shape = tuple(shape)
        if dt.kind == 'b':
            raise Unsupported('boolean symbolic input')
        full, (bs, ix) = shape, lay(shape, order)
        if ix == 'B':
            shape = bs
        p = np.empty(shape, object)
        ids = []
        f = p.reshape(-1)
        for i in range(f.size):
            a, k = self._new('%s%d' % (name, i), lo, hi)
            if dt.kind == 'c':
                b, k2 = self._new('%s%di' % (name, i), lo, hi)
                f[i] = Cx(a, b)
                ids.append((k, k2))
            else:
                f[i] = a
                ids.append(k)
        self.vars[name] = (shape, dt.str, ids)
        if ix == 'B':
            r = wrapa(np.broadcast_to(p, full), dt)
            r.flags.writeable = False
            return r
        if ix == 'T':
            return wrapa(np.ascontiguousarray(p.T), dt).T
        if ix is None:
            if order == 'F':
                p = np.asfortranarray(p)
            r = wrapa(p, dt.newbyteorder() if order == 'swap' else dt)
            if order == 'ro':
                r.flags.writeable = False
            return r
        b = np.empty(bs, object)
        b[...] = 77.0
        b = wrapa(b, dt)
        v = b[ix]
        plain(v)[...] = p
        return v

    def scalar(self, name, lo=None, hi=None):
        lo, hi = self._sc(lo, hi)
        v, k = self._new(name, lo, hi)
        self.vars[name] = ((), 'f8', k)
        return v

    def integer(self, name, lo, hi):
        """symbolic integer lo <= v <= hi (64-bit machine range)"""
        from .cyinterp import SInt
        z = z3.BitVec('int_' + name, 64)
        v = SInt(z, 64, lo < 0)
        self.ints[name] = (z, lo < 0)
        w = v._w()
        explore.Ctx.cur.assume(z3.And(w >= z3.BitVecVal(lo, 136), w <= z3.BitVecVal(hi, 136)))
        return v

    def index(self, name, lo, hi):
        """symbolic integer of a small range that the code may use as an axis, a level or an index"""
        from .cyinterp import IInt
        v = self.integer(name, lo, hi)
        return IInt(v.z, v.b, v.s)

    def cfun(self, name, *args):
        """call a C function of common.c directly (integers in, integer out)"""
        from .cyinterp import rt_ccall, cret
        r = rt_ccall(self.rt, name, list(args))
        return cret(r, 8 if name.endswith('max_level') else 64, False)

    def const(self, v):
        return Sx.const(v)

    def carr(self, v):
        """array of known values that may be combined in place with symbolic ones"""
        return wrapa(np.array([float(x) for x in v] + [None], object)[:-1], np.dtype('f8'))

    # ---------------------------------------------------------------- outcomes
    def ok(self, label):
        self.nok += 1

    def fail(self, kind, label):
        self.structural.append((kind, label))

    def snap(self, *arrs):
        return [arrsnap(a) for a in arrs]

    def unchanged(self, arrs, snaps, label='inputs unchanged'):
        for k, (a, s) in enumerate(zip(arrs, snaps)):
            n = arrsnap(a)
            r = _samec2(n, s)
            if r is not True:
                self.fail('mutated', '%s: argument %d' % (label, k))
        self.ok(label)

    def list(self, a):
        return list(plain(a).reshape(-1)) if isinstance(a, np.ndarray) else list(a)

    def nested(self, a):
        return plain(a).tolist()

    def sqrt(self, v):
        if isinstance(v, Sx):
            return v.sqrt()
        return float(np.sqrt(v))

    def assume(self, cond):
        if isinstance(cond, SymBool):
            explore.Ctx.cur.assume(cond.c)
            if explore.Ctx.cur.check() == z3.unsat:
                raise Stop
        elif not cond:
            raise Stop

    def branch(self, cond):
        return bool(cond)

    def eq(self, actual, expected, tol=1e-9, label='', record=True, deg=1):
        tol = tol * self.scale ** deg
        a = _elems(actual)
        e = _elems(expected)
        if record:
            self.actuals.append(list(a.reshape(-1)))
        if a.shape != e.shape:
            self.fail('shape', '%s shape %r expected %r' % (label, a.shape, e.shape))
            raise Stop
        af, ef = a.reshape(-1), e.reshape(-1)
        grp = [ef, self.scale ** deg]
        for i in range(af.size):
            x, y = af[i], ef[i]
            if x is llir.UNINIT or (isinstance(x, Cx) and (x.re is llir.UNINIT or x.im is llir.UNINIT)):
                self.fail('uninit', '%s: element %d of the result is uninitialised memory' % (label, i))
                continue
            for part, (u, v) in enumerate(_parts(x, y)):
                fu, fv = _bad(u), _bad(v)
                if fu or fv:
                    if not (fu and fv and (u == v or (u != u and v != v))):
                        self.fail('value', '%s: element %d is %r, expected %r' % (label, i, u, v))
                    else:
                        self.ok(label)
                    continue
                d = u - v
                if not isinstance(d, Sx):
                    d = Sx.const(d)
                self.obl.append(Oblig('eq', '%s[%d]%s' % (label, i, '.im' if part else ''), d, tol, grp))

    def le(self, a, b, tol=0, label=''):
        tol = tol * self.scale
        d = a - b
        if not isinstance(d, Sx):
            d = Sx.const(d)
        self.obl.append(Oblig('le', label, d, tol))

    # ------------------------------------------------- histories and schedules
    def fresh(self, fn):
        """fn(pywt) on a newly loaded instance of the package: no history"""
        from . import loader
        w0 = loader.world()
        w = loader.World(w0.scratch, w0)
        rt = self.rt
        w.rt.executed, w.cy.executed = w0.rt.executed, w0.cy.executed
        try:
            self.rt = w.rt
            return fn(w.pywt)
        finally:
            self.rt = rt

    def share(self, *objs):
        """C memory of these objects is visible to all threads"""
        for o in objs:
            q = getattr(o, 'w', None)
            if isinstance(q, llir.Ptr) and q.b is not None:
                llir.share(q.b)

    def choose(self, name, lo, hi):
        """symbolic integer in [lo, hi], decided by bisection on this path"""
        v = self.integer(name, lo, hi)
        while lo < hi:
            mid = (lo + hi) // 2
            if v <= mid:
                hi = mid
            else:
                lo = mid + 1
        return lo

    deep = (True, True, False)

    def copies(self, obj):
        """pickled (same protocol as deepcopy), deep and shallow copies"""
        import copy
        return [copy.deepcopy(obj), copy.deepcopy(obj), copy.copy(obj)]

    def interleave(self, fa, fb, every=False):
        """fa() preempted once, at a symbolic event, by fb() (every: at the first two visits of each event's
        program point) -> (result of fa, results of fb)"""
        from . import sched, cbuild
        pre = cbuild.REPO + '/pywt/'
        if every:
            ra, rb, n = sched.run(fa, fb, -1, pre, 2)
            return ra, rb or [fb()]
        n = sched.run(fa, fb, None, pre)[2]
        at = self.choose('preempt', 0, n)
        ra, rb, _ = sched.run(fa, fb, at, pre)
        return ra, rb or [fb()]

    def vcheck(self, cond, label):
        if isinstance(cond, SymBool):
            self.obl.append(Oblig('bool', label, cond.c, 0))
        elif not cond:
            self.fail('check', label)
        else:
            self.ok(label)


def _bad(v):
    return isinstance(v, (float, np.floating)) and not np.isfinite(v)


def _samec2(x, y):
    if x[0] != y[0]:
        return False
    if x[0] == 'a':
        if x[2:] != y[2:]:
            return False
        if x[1].dtype == object:
            for p, q in zip(x[1].reshape(-1), y[1].reshape(-1)):
                if p is q:
                    continue
                if p is llir.UNINIT or q is llir.UNINIT:
                    return False
                for u, v in _parts(p, q):
                    if _bad(u) or _bad(v):
                        if not (u == v or (u != u and v != v)):
                            return False
                        continue
                    d = u - v
                    if isinstance(d, Sx):
                        if not d.is_zero():
                            return False
                    elif d != 0:
                        return False
            return True
        return np.array_equal(x[1], y[1], equal_nan=x[1].dtype.kind in 'fc')
    if x[0] == 'd':
        return len(x[1]) == len(y[1]) and all(k1 == k2 and _samec2(v1, v2) for (k1, v1), (k2, v2) in zip(x[1], y[1]))
    if x[0] in ('list', 'tuple'):
        return len(x[1]) == len(y[1]) and x[2] == y[2] and all(_samec2(p, q) for p, q in zip(x[1], y[1]))
    return x == y


def _parts(x, y):
    xc = isinstance(x, (Cx, complex, np.complexfloating))
    yc = isinstance(y, (Cx, complex, np.complexfloating))
    if xc or yc:
        yield (x.real if xc else x), (y.real if yc else y)
        yield (x.imag if xc else 0.0), (y.imag if yc else 0.0)
    else:
        yield x, y


def _elems(x):
    if isinstance(x, SymArray):
        return plain(x)
    if type(x).__name__ == 'MV':
        return _elems(x.asarray())
    if isinstance(x, np.ndarray):
        return x.astype(object)
    if isinstance(x, (Sx, Cx)):
        p = np.empty((), object)
        p[()] = x
        return p
    return _elems(NP.asarray(x)) if has_sym(x) else np.asarray(x).astype(object)


# -------------------------------------------------------------------- solver
class Q:
    queries = 0
    time = 0.0
    unsat = 0
    sat = 0
    unknown = 0


def _bmax(b):
    return max(abs(b[0]), abs(b[1]))


def lin_int(d, tol, bounds):
    """round the polynomial's coefficients: returns (int terms, int threshold, shift)
    such that |d|>tol implies |sum c*m| > thr  (outward)."""
    n = len(d.t) + 1
    mags = {}
    k = 8
    mm = 1.0
    for key in d.t:
        if key != 0:
            m = 1.0
            for i in ((key,) if key.__class__ is int else key):
                b = bounds.get(i)
                if b is None:
                    return None
                m *= max(1.0, _bmax(b))
            mm = max(mm, m)
    q = n * mm / tol
    k += max(1, int(q).bit_length())
    terms = {}
    slack = 0.0
    sh = d.e - k
    for key, v in d.t.items():
        if not v:
            continue
        if sh > 0:
            c = (v + (1 << (sh - 1))) >> sh
        else:
            c = v << (-sh)
        m = 1.0
        if key != 0:
            for i in ((key,) if key.__class__ is int else key):
                b = bounds.get(i)
                if b is None:
                    return None
                m *= max(1.0, _bmax(b))
        slack += 0.5 * m
        if c:
            terms[key] = c
    thr = int(tol * (1 << k) - slack) - 1
    if thr < 0:
        return None
    return terms, thr


class Discharge:
    def __init__(self, env, ctx):
        self.env = env
        self.ctx = ctx
        self.mono = {}

    def kz(self, key):
        if key.__class__ is int:
            return zvar(key)
        z = self.mono.get(key)
        if z is None:
            z = self.mono[key] = z3.Real('m' + '_'.join(map(str, key)))
        return z

    def run(self, timeout_ms=60000):
        """-> None if all obligations hold on this path, else (oblig, model|None-if-unknown)"""
        r = self.run1(timeout_ms)
        if r is None or r[0] == 'unknown' or r[1].kind != 'eq' or self.env.opq is not None:
            return r
        done = {}
        ch = False
        for o in self.env.obl:
            if o.grp is None:
                continue
            f = done.get(id(o.grp))
            if f is None:
                m = max([0.0] + [l1(x, self.env.bounds) for x in o.grp[0]])
                f = done[id(o.grp)] = max(1.0, m / o.grp[1]) if m == m and m != float('inf') else 1.0
            if f > 1:
                o.tol = o.tol * f
                ch = True
            o.grp = None
        return self.run1(timeout_ms) if ch else r

    def run1(self, timeout_ms=60000):
        env, ctx = self.env, self.ctx
        cur = []
        hard = []
        for o in env.obl:
            (hard if o.kind != 'bool' and any(k.__class__ is not int and any(i not in env.bounds for i in k) for k in o.data.t) else cur).append(o)
        unk = False
        for o in hard:          # products with quotients or square roots: exact nonlinear arithmetic
            r = self.exact(o)
            if r == 'unknown':
                unk = True
            elif r is not None:
                return ('sat', o, r)
        if unk:
            return ('unknown', None, None)
        if not cur:
            return None
        s = z3.Solver()
        s.set('timeout', timeout_ms)
        for c in ctx.pc:
            s.add(c)
        lits = []
        exact = True
        for n, o in enumerate(cur):
            p = z3.Bool('viol%d' % n)
            if o.kind == 'bool':
                f = z3.Not(o.data)
            else:
                r = lin_int(o.data, o.tol, env.bounds) if o.tol > 0 else None
                if r is None:
                    d = to_z3(o.data)
                    t = z3.RealVal(repr(float(o.tol)))
                    f = d > t if o.kind == 'le' else z3.Or(d > t, d < -t)
                else:
                    terms, thr = r
                    if env.noise:
                        # rounding terms are bounded outright and taken off the tolerance
                        nz = {k: c for k, c in terms.items() if k != 0 and any(i in env.noise for i in ((k,) if k.__class__ is int else k))}
                        if nz:
                            B = 0
                            for k, c in nz.items():
                                m = Fraction(abs(c))
                                for i in ((k,) if k.__class__ is int else k):
                                    m *= Fraction(_bmax(env.bounds[i]))
                                B += m
                            if B < thr:
                                thr -= int(B) + 1
                                terms = {k: c for k, c in terms.items() if k not in nz}
                    if not terms:
                        ssum = z3.RealVal(0)
                    else:
                        xs = [z3.IntVal(c) if k == 0 else z3.RealVal(c) * self.kz(k) for k, c in terms.items()]
                        xs = [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in xs]
                        ssum = z3.Sum(xs) if len(xs) > 1 else xs[0]
                    t = z3.RealVal(thr)
                    f = ssum > t if o.kind == 'le' else z3.Or(ssum > t, ssum < -t)
            s.add(z3.Implies(p, f))
            lits.append(p)
        for key, z in self.mono.items():
            exact = False
            B = 1
            for i in key:
                B *= Fraction(str(_bmax(env.bounds[i])))
            s.add(z <= z3.RealVal(str(B)), z >= z3.RealVal(str(-B)))
        s.add(z3.Or(lits) if len(lits) > 1 else lits[0])
        t0 = time.time()
        r = s.check()
        Q.queries += 1
        Q.time += time.time() - t0
        if r == z3.unsat:
            Q.unsat += 1
            return None
        if r == z3.unknown:
            Q.unknown += 1
            return ('unknown', None, None)
        Q.sat += 1
        m = s.model()
        bad = [o for o, p in zip(cur, lits) if z3.is_true(m.eval(p, model_completion=True))]
        ob = bad[0] if bad else cur[0]
        if env.opq is not None:
            v = self.values(m)
            for o in bad:
                d = ev(o.data, v) if o.kind != 'bool' else 0
                if (abs(d) if o.kind == 'eq' else d) > o.tol:
                    return ('sat', o, v)
            for o in bad[:6]:
                v = self.nonlin(o)
                if v is not None:
                    return ('sat', o, v)
            return ('sat', ob, None)
        if exact:
            v = self.values(m)
            if ob.kind != 'bool' and not ctx.trail and all(k.__class__ is int for k in ob.data.t) and \
                    all(k == 0 or k in env.bounds for k in ob.data.t):
                # single path, linear: move to the vertex maximising the violation
                cur_d = ev(ob.data, v)
                sg = 1 if cur_d > 0 else -1
                for k, c in ob.data.t.items():
                    if k and c:
                        lo, hi = env.bounds[k]
                        v[k] = Fraction(str(hi if c * sg > 0 else lo))
            return ('sat', ob, v)
        # nonlinear: the monomials were relaxed to independent bounded reals; decide the exact polynomials where that is affordable
        if len(self.mono) <= 48 and any(k[0] in ('div', 'sqrt') for k in ctx.memo if isinstance(k, tuple)):
            unk = False
            for o in cur:
                r = self.exact(o)
                if r is None:
                    continue
                if r == 'unknown':
                    unk = True
                    continue
                return ('sat', o, r)
            return ('unknown', None, None) if unk else None
        # look for a genuine model of this obligation
        for o in bad[:3]:
            v = self.nonlin(o)
            if v is not None:
                return ('sat', o, v)
        return ('sat', ob, None)

    def exact(self, o, timeout_ms=20000):
        """one obligation over the true products: None if it holds, 'unknown', or the values of a counterexample"""
        t0 = time.time()
        fs = [z3.Not(o.data)] if o.kind == 'bool' else None
        if fs is None:
            d = to_z3(o.data)
            t = z3.RealVal(repr(float(o.tol)))
            fs = [d > t] if o.kind == 'le' else [d > t, d < -t]
        res = None
        for f in fs:
            r = z3.unknown
            for mk in (lambda: z3.Then('simplify', 'purify-arith', 'solve-eqs', 'qfnra-nlsat').solver(), z3.Solver):
                s = mk()
                s.set('timeout', timeout_ms)
                for c in self.ctx.pc:
                    s.add(c)
                s.add(f)
                r = s.check()
                Q.queries += 1
                if r != z3.unknown:
                    break
            if r == z3.unsat:
                Q.unsat += 1
                continue
            if r == z3.sat:
                Q.sat += 1
                res = self.values(s.model())
                break
            Q.unknown += 1
            res = 'unknown'
        Q.time += time.time() - t0
        return res

    def nonlin(self, o):
        import random
        env = self.env
        rnd = random.Random(1)
        # exploit linearity: fix all but... try corner/random assignments of the exact polynomial
        for k in range(60):
            vals = {}
            for i, b in env.bounds.items():
                vals[i] = Fraction(rnd.choice([b[0], b[1]])) if k % 2 else Fraction(rnd.getrandbits(40), 1 << 40) * (Fraction(str(b[1])) - Fraction(str(b[0]))) + Fraction(str(b[0]))
            if env.opq is not None:
                env.opq.fill(vals, ev)
            d = ev(o.data, vals)
            if (abs(d) if o.kind == 'eq' else d) > o.tol:
                return vals
        return None

    def values(self, m):
        vals = {}
        for i in self.env.bounds:
            v = m.eval(zvar(i), model_completion=True)
            vals[i] = zfrac(v)
        if self.env.opq is not None:
            self.env.opq.fill(vals, ev)
        for nm, (z, sg) in self.env.ints.items():
            v = m.eval(z, model_completion=True)
            vals['int:' + nm] = v.as_signed_long() if sg else v.as_long()
        return vals


def l1(x, bounds):
    """bound on |x| over the input box"""
    if isinstance(x, Cx):
        return max(l1(x.re, bounds), l1(x.im, bounds))
    if not isinstance(x, Sx):
        try:
            v = abs(complex(x))
        except (TypeError, ValueError):
            return 0.0
        return v if np.isfinite(v) else 0.0
    r = 0
    for k, v in x.t.items():
        m = 1.0
        if k != 0:
            for i in ((k,) if k.__class__ is int else k):
                b = bounds.get(i)
                if b is None:
                    return 0.0
                m *= _bmax(b)
        r += abs(v) * int(math.ceil(m))
    return float(Fraction(r) / (1 << x.e)) if r else 0.0


def zfrac(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def ev(p, vals):
    if not isinstance(p, Sx):
        return Fraction(p) if np.isfinite(p) else p
    r = 0
    for k, v in p.t.items():
        x = v
        if k != 0:
            for i in ((k,) if k.__class__ is int else k):
                x = x * vals[i]
        r += x
    return Fraction(r) / (1 << p.e)


def inputs_from(env, vals):
    """assignment -> JSON-able inputs for ConEnv"""
    out = {}
    for nm in env.ints:
        out[nm] = vals.get('int:' + nm, 0)
    for nm, (shape, dt, ids) in env.vars.items():
        def f(i):
            return float(vals[i])
        if shape == ():
            if isinstance(ids, list):
                k = ids[0]
                out[nm] = [f(k[0]), f(k[1])] if isinstance(k, tuple) else f(k)
                if isinstance(k, tuple):
                    out[nm] = {'c': [[f(k[0]), f(k[1])]], 'shape': []}
            else:
                out[nm] = f(ids)
            continue
        if np.dtype(dt).kind == 'c':
            out[nm] = {'c': [[f(a), f(b)] for a, b in ids], 'shape': list(shape)}
        else:
            out[nm] = {'r': [f(a) for a in ids], 'shape': list(shape)}
    return out
