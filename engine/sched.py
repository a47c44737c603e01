"""Interleavings and histories of calls.

SymEnv side.  `Preempt` runs a call A and, at one chosen event of it, runs a
call B to completion (as another thread would).  Events are every line of the
Python and Cython layers (the package supports free-threaded interpreters), the
entry of every C function, and every access to C memory that outlives the call
(non-constant globals and whatever they point to) or to memory shared by the
threads.  B runs atomically: one preemption of A."""
import sys
from . import llir

TOOL = 3
_on = [False]
_run = [None]


class Preempt:
    def __init__(self, fb, at, cap):
        self.fb, self.at, self.n, self.busy, self.rb, self.ran = fb, at, 0, False, None, False
        self.cap, self.seen = cap, {}

    def event(self, loc):
        if self.busy:
            return
        if self.cap:
            c = self.seen.get(loc, 0)
            if c >= self.cap:
                return
            self.seen[loc] = c + 1
        k = self.n
        self.n += 1
        if self.at is not None and (self.at == k or self.at < 0):
            self.busy = True
            try:
                rb = self.fb()
                if not self.ran:
                    self.rb = []
                self.rb.append(rb)
                self.ran = True
            finally:
                self.busy = False


def _line(code, line):
    f = code.co_filename
    if not (f.startswith(_pre[0]) or f.startswith('<cy:')):
        return sys.monitoring.DISABLE
    if _run[0] is not None:
        _run[0].event((code, line))


def _start(code, off):
    if not code.co_filename.startswith('<ir:'):
        return sys.monitoring.DISABLE
    if _run[0] is not None:
        _run[0].event(code)


_pre = ['']


def _mem():
    r = _run[0]
    if r is not None:
        f = sys._getframe(3)
        r.event((f.f_code, f.f_lineno))


def run(fa, fb, at, prefix, cap=0):
    """-> (result of fa, results of fb, number of events).  at: event index, None: never, -1: at every event;
    cap: only the first so many visits of each program point count"""
    p = Preempt(fb, at, cap)
    m = sys.monitoring
    _pre[0] = prefix
    if not _on[0]:
        m.use_tool_id(TOOL, 'vsched')
        m.register_callback(TOOL, m.events.LINE, _line)
        m.register_callback(TOOL, m.events.PY_START, _start)
        _on[0] = True
    _run[0] = p
    llir.SHARED[0] = _mem
    m.set_events(TOOL, m.events.LINE | m.events.PY_START)
    try:
        ra = fa()
    finally:
        m.set_events(TOOL, 0)
        _run[0] = None
        llir.SHARED[0] = None
    return ra, p.rb, p.n
