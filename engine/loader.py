"""Load the current tree's pywt under the symbolic engine."""
import builtins
import importlib
import os
import sys
import tempfile
import types
from . import cbuild, llir, cyinterp
from .symnp import NP
from .sym import Unsupported

PKG = 'pywt'


class Importer:
    """import machinery for the code under analysis"""

    def __init__(self, world_dir):
        self.mods = {}
        self.world = None
        self.loaded_src = []
        b = dict(builtins.__dict__)
        b['__import__'] = self.import_
        b['isinstance'] = isinstance_
        b['float'] = FloatT
        self.builtins = b
        bm = types.ModuleType('builtins')
        bm.__dict__.update(b)
        self.bmod = bm

    # ---- resolution
    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            parts = pk.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            full = '.'.join(parts + ([name] if name else []))
        else:
            full = name
        if full == PKG or full.startswith(PKG + '.'):
            if not fromlist:
                self.load(full)
                return self.load(full.split('.')[0]) if not level else self.load(full)
            m = self.load(full)
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        sub = self.load(full + '.' + f)
                        setattr(m, f, sub)
                    except ModuleNotFoundError:
                        pass
            return m
        if full == 'numpy' or full.startswith('numpy.'):
            if full == 'numpy':
                return NP
            if not fromlist:
                return NP
            if full == 'numpy.fft':
                return NP.fft
            return importlib.import_module(full)
        if full in ('cython', 'Cython'):
            raise ModuleNotFoundError(full)
        return builtins.__import__(full, None, None, fromlist, 0)

    def imp(self, name, package, level):
        g = {'__package__': package, '__name__': package + '.x'}
        level = level if level and level > 0 else 0
        m = self.import_(name, g, None, ('*',) if level else (), level)
        if not level and '.' in name:
            pass
        return m

    def load(self, full):
        m = self.mods.get(full)
        if m is not None:
            return m
        if '.' in full:
            self.load(full.rpartition('.')[0])
            m = self.mods.get(full)
            if m is not None:
                return m
        rel = full.split('.')
        base = os.path.join(cbuild.REPO, *rel)
        m = types.ModuleType(full)
        m.__dict__['__builtins__'] = self.builtins
        if full == PKG + '.version':
            m.version = m.full_version = '0'
            m.git_revision = ''
            self._reg(full, m)
            return m
        if full in (PKG + '._pytesttester', PKG + '._pytest', PKG + '.data'):
            if full.endswith('_pytesttester'):
                m.PytestTester = lambda n: None
            self._reg(full, m)
            return m
        if full == PKG + '._c99_config':
            with open(base + '.py.in') as f:
                t = f.read()
            import re
            t = re.sub(r'@\w*complex\w*@', '1', t)
            exec(compile(t, base + '.py.in', 'exec'), m.__dict__)
            self._reg(full, m)
            return m
        if full.startswith(PKG + '._extensions.') and os.path.exists(os.path.join(self.world.dir, rel[-1] + '.pyx')):
            m.__package__ = PKG + '._extensions'
            self._reg(full, m)
            cm = cyinterp.CyModule(self.world, rel[-1], m)
            m.__dict__['__cymod__'] = cm
            cm.run()
            return m
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            fn = os.path.join(base, '__init__.py')
            m.__package__ = full
            m.__path__ = [base]
        elif os.path.exists(base + '.py'):
            fn = base + '.py'
            m.__package__ = full.rpartition('.')[0]
        else:
            raise ModuleNotFoundError('No module named %r' % full, name=full)
        m.__file__ = fn
        self._reg(full, m)
        with open(fn) as f:
            src = f.read()
        self.loaded_src.append(os.path.relpath(fn, cbuild.REPO))
        exec(compile(src, fn, 'exec'), m.__dict__)
        return m

    def _reg(self, full, m):
        self.mods[full] = m
        if '.' in full:
            p, _, c = full.rpartition('.')
            if p in self.mods:
                setattr(self.mods[p], c, m)


isinstance_ = isinstance


FloatT = float


class World:
    """One loaded instance of the code under analysis."""

    def __init__(self, scratch, like=None):
        self.scratch = scratch
        self.dir = like.dir if like else cbuild.prepare(scratch)
        self.rt = llir.Runtime()
        self.imp = Importer(self.dir)
        self.cy = cyinterp.CyWorld(self.dir, self.rt, NP, self.imp)
        self.imp.world = self.cy
        for b in ('common', 'wavelet', 'c_wt', '_pywt', '_dwt', '_swt', '_cwt'):
            self.cy.decls(b)
        if like:
            self.ir = like.ir
        else:
            shim = os.path.join(scratch, 'vshim.c')
            with open(shim, 'w') as f:
                f.write(cbuild.shim_source(self.cy.structs))
            self.ir = list(cbuild.lower(os.path.join(self.dir, 'c'), os.path.join(scratch, 'ir'), [shim]))
        for nm, text in self.ir:
            self.rt.add(text, nm)
        self.pywt = self.imp.load(PKG)


_world = None


def world():
    global _world
    if _world is None:
        d = tempfile.mkdtemp(prefix='vpywt_')
        import atexit
        import shutil
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        _world = World(d)
    return _world
