"""Path explorer: depth-first re-execution with z3 feasibility checks.

`decide(cond)` is called by symbolic booleans when the code under analysis
branches.  Each run follows a recorded trail and extends it; both outcomes of
every feasible branch are eventually visited (or the path budget is exceeded,
which is reported as inconclusive, never as success).
"""
import time
import z3


class PathLimit(Exception):
    pass


class Stats:
    paths = 0
    forks = 0
    queries = 0
    solver_time = 0.0
    sat = 0
    unsat = 0
    unknown = 0


STATS = Stats()


class Ctx:
    """One symbolic execution (a single path)."""
    cur = None

    def __init__(self, trail, base):
        self.trail = trail          # list of [choice, other_feasible]
        self.pos = 0
        self.base = base            # assumptions
        self.pc = list(base)
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        for b in base:
            self.solver.add(b)
        self.memo = {}

    def assume(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        STATS.queries += 1
        STATS.solver_time += time.time() - t
        if r == z3.sat:
            STATS.sat += 1
        elif r == z3.unsat:
            STATS.unsat += 1
        else:
            STATS.unknown += 1
        return r

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.memo and self.memo[key][0].eq(cond):
            return self.memo[key][1]
        if self.pos < len(self.trail):
            choice = self.trail[self.pos][0]
            self.pos += 1
        else:
            # new decision
            t_ok = self.check(cond)
            if t_ok == z3.unsat:
                choice, other = False, False
            else:
                f_ok = self.check(z3.Not(cond))
                if f_ok == z3.unsat:
                    choice, other = True, False
                else:
                    choice, other = True, True
                    STATS.forks += 1
            self.trail.append([choice, other])
            self.pos += 1
        c = cond if choice else z3.Not(cond)
        self.pc.append(c)
        self.solver.add(c)
        self.memo[key] = (cond, choice)
        return choice


def decide(cond):
    if Ctx.cur is None:
        raise RuntimeError("symbolic branch outside exploration: %s" % cond)
    return Ctx.cur.decide(cond)


def assume(cond):
    Ctx.cur.assume(cond)


def explore(fn, base=(), max_paths=4096):
    """Run fn(ctx) on every feasible path; yields (ctx, result)."""
    trail = []
    n = 0
    while True:
        ctx = Ctx(trail, base)
        prev = Ctx.cur
        Ctx.cur = ctx
        try:
            res = fn(ctx)
        finally:
            Ctx.cur = prev
        n += 1
        STATS.paths += 1
        Ctx.cur = ctx
        try:
            yield ctx, res
        finally:
            Ctx.cur = prev
        trail = ctx.trail
        while trail and not trail[-1][1]:
            trail.pop()
        if not trail:
            return
        trail[-1] = [not trail[-1][0], False]
        if n >= max_paths:
            raise PathLimit("more than %d paths" % max_paths)
