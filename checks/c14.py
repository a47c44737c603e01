"""C14: packet trees: node contents are the single-level transforms along the path, level listings and traversals are complete and in the
documented orders, reconstruction from any complete leaf set is the identity, replacing or deleting a node changes only that sub-band."""
from .common import *
from itertools import product

BOUNDS = ('1-D (any axis of arrays with up to 3 axes), 2-D and n-D trees over shapes with axes <= 12, 1-3 transformed axes, depth <= 3 (4 in every mode, 6 for two samples), random leaf sets and random sequences of up to 8 '
          'reads, assignments, deletions, traversals and reconstructions against an independent tree model; nine modes, wavelets of 2..8 taps, five dtypes; data and assigned '
          'blocks are symbolic')
OUTSIDE = ('assigning data to an inner node that keeps its own sub-nodes, trees made without data whose level sizes do not halve exactly (the sizes are unknown to the tree), '
           'maximum level of 2-D and n-D trees made without data')
K2 = {'a': 'aa', 'h': 'da', 'v': 'ad', 'd': 'dd'}


class Model:
    """independent tree"""

    def __init__(self, data, bs, mode, axes, parts, keymap, maxlevel, path='', shape=None):
        self.data, self.path = data, path
        self.bs, self.mode, self.axes, self.parts, self.keymap, self.maxlevel = bs, mode, axes, parts, keymap, maxlevel
        self.ch = {}
        self.level = len(path) // len(parts[0])
        self.shape = None if data is None else data.shape

    def sub(self, part, data):
        m = Model(data, self.bs, self.mode, self.axes, self.parts, self.keymap, self.maxlevel, self.path + part)
        return m

    def split(self):
        d = dwtn(self.data, [b[:2] for b in self.bs], [self.mode] * len(self.axes), self.axes)
        return {p: self.sub(p, d[self.keymap(p)]) for p in self.parts}

    def child(self, part):
        if part not in self.ch and self.data is not None:
            if not self.ch:
                self.ch = self.split()
            else:
                self.ch[part] = self.split()[part]
        return self.ch.get(part)

    def get(self, path):
        if not path:
            return self
        k = len(self.parts[0])
        return self.child(path[:k]).get(path[k:])

    def set(self, path, data):
        k = len(self.parts[0])
        if not path:
            self.data, self.shape = data, data.shape
            return
        p = path[:k]
        if not self.ch and self.data is not None:
            self.ch = self.split()
        if p not in self.ch:
            self.ch[p] = self.sub(p, None)
        self.ch[p].set(path[k:], data)

    def delete(self, path):
        k = len(self.parts[0])
        self.get(path)
        self.get(path[:-k]).ch.pop(path[-k:])

    def rec(self):
        if not self.ch:
            return self.data
        d = {self.keymap(p): c.rec() for p, c in self.ch.items()}
        d = {k: v for k, v in d.items() if v is not None}
        r = idwtn(d, [b[2:] for b in self.bs], [self.mode] * len(self.axes), self.axes)
        if self.shape is not None:
            r = r[tuple(slice(0, n) for n in self.shape)]
        return r

    def leaves(self, decompose):
        if decompose and self.level < self.maxlevel and self.data is not None:
            for p in self.parts:
                self.child(p)
        if self.level == self.maxlevel and self.data is not None or not self.ch:
            return [self]
        return [l for p in self.parts if p in self.ch for l in self.ch[p].leaves(decompose)]

    def at(self, level):
        """nodes of a level in natural order with decomposition"""
        if self.level == level:
            return [self]
        r = []
        for p in self.parts:
            c = self.child(p)
            if c is not None:
                r += c.at(level)
        return r


def gray(i):
    return i ^ (i >> 1)


def make(E, x, kind, wav, mode, axes, maxlevel):
    P = E.pywt
    if kind == '1':
        return P.WaveletPacket(x, wav, mode, maxlevel=maxlevel, axis=axes[0])
    if kind == '2':
        return P.WaveletPacket2D(x, wav, mode, maxlevel=maxlevel, axes=tup(axes))
    return P.WaveletPacketND(x, wav, mode, maxlevel=maxlevel, axes=None if axes is None else tup(axes))


def model(E, data, kind, wav, mode, axes, maxlevel, nd):
    ax = list(range(nd)) if axes is None else [a % nd for a in axes]
    parts = {'1': ['a', 'd'], '2': ['a', 'h', 'v', 'd']}.get(kind) or [''.join(p) for p in product('ad', repeat=len(ax))]
    km = K2.get if kind == '2' else (lambda p: p)
    return Model(data, [filters(E.pywt.Wavelet(wav))] * len(ax), mode, ax, parts, km, maxlevel)


def same_node(E, n, m, tol, label):
    E.same(n.path, m.path, label + ': path')
    k = len(m.parts[0])
    E.same(n.level, m.level, label + ': level')
    E.same(n.node_name, m.path[-k:] if m.path else '', label + ': node_name')
    E.same(n.path_tuple, tuple(m.path[i:i + k] for i in range(0, len(m.path), k)), label + ': path_tuple')
    E.same(n.is_empty, m.data is None, label + ': is_empty')
    E.same(n.has_any_subnode, bool(m.ch), label + ': has_any_subnode')
    if m.data is not None:
        E.eq(n.data, m.data, tol, label + ': data of %r' % m.path)


def tree(E, kind, shape, axes, wav, mode, level, dt='f8', order='C', dflt=False):
    """whole tree: contents, listings, traversals, reconstruction at every depth"""
    x = E.arr('x', tup(shape), dt, order, **lohi(dt))
    s = E.snap(x)
    t = make(E, x, kind, wav, mode, axes, None if dflt else level)
    m = model(E, objarr(E, x), kind, wav, mode, axes, level, len(shape))
    tol = tol_of('haar', dt, 4 ** level)
    if dflt:
        L = min(_lv(shape[a], flen(wav)) for a in m.axes)
        E.same(t.maxlevel, L, 'default maxlevel')
        m.maxlevel = L
    for l in range(0, min(level, m.maxlevel) + 1):
        g, e = t.get_level(l), m.at(l)
        E.same([n.path for n in g], [n.path for n in e], 'natural order of level %d' % l)
        E.same(len({n.path for n in g}), len(m.parts) ** l, 'every path once')
        for a, b in zip(g, e):
            E.eq(a.data, b.data, tol, 'node %r' % b.path)
            if l:
                E.dtype(a.data, outdt(dt), 'node')
            E.check(t[b.path] is a and t[a.path_tuple] is a, 'access by path')
            if l:
                E.check(a.parent is t[b.path[:-len(m.parts[0])]], 'parent')
        if kind == '1':
            E.same([n.path for n in t.get_level(l, 'natural')], [n.path for n in e], 'explicit natural order')
            E.same([n.path for n in t.get_level(l, 'freq')], [''.join('ad'[(gray(i) >> (l - 1 - b)) & 1] for b in range(l)) for i in range(2 ** l)], 'frequency order')
        if kind == '2':
            def pth(i, j):
                r = ''
                for b in range(l):
                    u, v = (gray(i) >> (l - 1 - b)) & 1, (gray(j) >> (l - 1 - b)) & 1
                    r += {(0, 0): 'a', (1, 0): 'h', (0, 1): 'v', (1, 1): 'd'}[u, v]
                return r
            E.same([[n.path for n in row] for row in t.get_level(l, 'freq')], [[pth(i, j) for j in range(2 ** l)] for i in range(2 ** l)], 'frequency order')
        E.unchanged([x], s)
        y = t.reconstruct(update=False)
        E.same(tuple(y.shape), tuple(shape), 'shape of the reconstruction')
        E.eq(y, x, tol_of(wav, dt, 4 ** level), 'reconstruction from level %d' % l)
    for f, post in ((t.walk, False), (t.walk_depth, True)):
        got = []
        f(lambda n: got.append(n.path) or True, decompose=False)
        E.same(got, order_of(m, post), 'traversal order')
    E.same([n.path for n in t.get_leaf_nodes()], [n.path for n in m.leaves(False)], 'leaf nodes')
    y = t.reconstruct(update=True)
    E.eq(t.data, y, 0 if False else tol, 'update stores the reconstruction')
    E.eq(t.data, x, tol_of(wav, dt, 4 ** level), 'reconstruction with update')


def order_of(m, post):
    r = [] if post else [m.path]
    for p in m.parts:
        if p in m.ch:
            r += order_of(m.ch[p], post)
    return r + [m.path] if post else r


def _lv(n, F):
    L = 0
    while (F - 1) * 2 ** (L + 1) <= n:
        L += 1
    return L


def leafset(m, rnd, depth):
    """random complete set of leaf paths"""
    if depth == 0 or (m and rnd.random() < .35):
        return [m]
    return None


def rand_leaves(parts, rnd, depth, path=''):
    if depth == 0 or (path and rnd.random() < .4):
        return [path]
    return [q for p in parts for q in rand_leaves(parts, rnd, depth - 1, path + p)]


def leaves(E, kind, shape, axes, wav, mode, level, seed, dt='f8', fresh=False):
    """random complete leaf set: identity, then replace, then delete; optionally in a new tree made without data"""
    rnd = random.Random(seed)
    x = E.arr('x', tup(shape), dt)
    t = make(E, x, kind, wav, mode, axes, level)
    m = model(E, objarr(E, x), kind, wav, mode, axes, level, len(shape))
    tol = tol_of('haar', dt, 4 ** level)
    ls = rand_leaves(m.parts, rnd, level)
    if fresh:
        u = make(E, None, kind, wav, mode, list(range(len(shape))) if axes is None and kind == 'n' else axes, level)
        v = model(E, None, kind, wav, mode, axes, level, len(shape))
        order = list(ls)
        rnd.shuffle(order)
        for p in order:
            u[p] = t[p] if rnd.random() < .5 else t[p].data
            v.set(p, m.get(p).data)
            E.dtype(u[p].data, outdt(dt), 'assigned node')
        t, m = u, v
    else:
        for p in ls:
            t[p]
            m.get(p)
    E.same([n.path for n in t.get_leaf_nodes()], ls, 'leaf nodes')
    E.eq(t.reconstruct(update=False), x, tol_of(wav, dt, 4 ** level), 'reconstruction from leaves %s' % ls)
    p = rnd.choice(ls)
    w = E.arr('w', tuple(m.get(p).data.shape), dt)
    t[p] = w
    m.set(p, objarr(E, w))
    E.eq(t.reconstruct(update=False), m.rec(), tol_of(wav, dt, 4 ** level), 'reconstruction with %r replaced' % p)
    for q in ls:
        E.eq(t[q].data, m.get(q).data, tol, 'leaf %r after replacing %r' % (q, p))
    if len(ls) > 1:
        q = rnd.choice(ls)
        del t[q]
        m.delete(q)
        E.same([n.path for n in t.get_leaf_nodes()], [n.path for n in m.leaves(False)], 'leaf nodes after deletion')
        if m.rec() is not None and usable_rec(m):
            E.eq(t.reconstruct(update=False), m.rec(), tol_of(wav, dt, 4 ** level), 'reconstruction with %r deleted' % q)


def usable_rec(m):
    return True


def history(E, kind, shape, axes, wav, mode, level, seed, steps, dt='f8'):
    """random operation sequence against the model"""
    rnd = random.Random(seed)
    x = E.arr('x', tup(shape), dt)
    t = make(E, x, kind, wav, mode, axes, level)
    m = model(E, objarr(E, x), kind, wav, mode, axes, level, len(shape))
    tol = tol_of('haar', dt, 4 ** level)
    nset = 0
    log = []
    for st in range(steps):
        op = rnd.choice(['read', 'read', 'set', 'set', 'del', 'rec', 'rec', 'level', 'leaves', 'data'])
        L = rnd.randint(1, level)
        p = ''.join(rnd.choice(m.parts) for _ in range(L))
        log.append(op + ':' + p)
        lab = ' '.join(log)
        if op == 'read':
            same_node(E, t[p], m.get(p), tol, lab)
        elif op in ('set', 'data'):
            if op == 'data':
                sh = m.get(p).data
                t[p]
                if sh is None:
                    continue
                sh = sh.shape
            else:
                # shape the sub-band has
                sh = sizes(m, p)
                probe = m
                k = len(m.parts[0])
                inner = True
                for i in range(0, len(p), k):
                    probe = probe.ch.get(p[i:i + k])
                    if probe is None:
                        inner = False
                        break
                if inner and probe.ch:
                    log.append('skip')
                    continue
                if not inner:
                    pass
            w = E.arr('w%d' % nset, sh, dt)
            nset += 1
            if op == 'data':
                if m.get(p).ch:
                    continue
                t[p].data = w
                m.get(p).data = objarr(E, w)
            else:
                t[p] = w
                m.set(p, objarr(E, w))
        elif op == 'del':
            m.delete(p)
            del t[p]
        elif op == 'rec':
            upd = rnd.random() < .4
            e = m.rec()
            if e is None:
                continue
            if noleaf(m):
                continue
            E.eq(t.reconstruct(update=upd), e, tol_of(wav, dt, 8 ** level), lab)
            if upd and m.ch:
                m.data = e
        elif op == 'level':
            e = m.at(L)
            E.same([n.path for n in t.get_level(L)], [n.path for n in e], lab)
        else:
            d = rnd.random() < .5
            E.same([n.path for n in t.get_leaf_nodes(d)], [n.path for n in m.leaves(d)], lab)
    for n in m.leaves(False):
        E.same(t[n.path].path, n.path, 'final leaf')
        if n.data is not None:
            E.eq(t[n.path].data, n.data, tol_of('haar', dt, 8 ** level), 'final leaf %r after %s' % (n.path, ' '.join(log)))


def noleaf(m):
    return any(noleaf(c) or c.rec() is None for c in m.ch.values())


def sizes(m, p):
    sh = list(m.shape)
    k = len(m.parts[0])
    for _ in range(len(p) // k):
        for a, b in zip(m.axes, m.bs):
            sh[a] = dwt_len(sh[a], len(b[0]), m.mode)
    return tuple(sh)


def inner(E, kind, shape, axes, wav, mode, level, seed, dt='f8'):
    """reconstruction of an inner node, with and without update, after leaves were replaced"""
    rnd = random.Random(seed)
    x = E.arr('x', tup(shape), dt)
    t = make(E, x, kind, wav, mode, axes, level)
    m = model(E, objarr(E, x), kind, wav, mode, axes, level, len(shape))
    tol = tol_of(wav, dt, 8 ** level)
    ls = [n.path for n in t.get_level(level)]
    m.at(level)
    k = len(m.parts[0])
    for i, p in enumerate(rnd.sample(ls, min(2, len(ls)))):
        w = E.arr('w%d' % i, tuple(m.get(p).data.shape), dt)
        t[p] = w
        m.set(p, objarr(E, w))
    p = rnd.choice(ls)
    for upd in (False, True):
        for q in [p[:k * j] for j in range(level)]:
            n = m.get(q)
            old, e = n.data, n.rec()
            E.eq(t[q].reconstruct(update=upd), e, tol, 'reconstruction of the node %r' % q)
            E.eq(t[q].data, e if upd else old, tol, 'data of the node %r after reconstruct(update=%s)' % (q, upd))
            if upd:
                n.data = e
            for o in [q[:k * j] for j in range(len(q) // k)] + ls[:3]:
                E.eq(t[o].data, m.get(o).data, tol, 'node %r after reconstructing %r' % (o, q))


def present(m, level):
    if m.level == level:
        return [m]
    return [r for p in m.parts if p in m.ch for r in present(m.ch[p], level)]


def sub2(path):
    e = {'a': 'll', 'h': 'hl', 'v': 'lh', 'd': 'hh'}
    return tuple(''.join(e[c][i] for c in path) for i in (0, 1))


def freq(m, nodes, level, kind):
    gc = [gray(i) for i in range(2 ** level)]
    bits = lambda g, x, y: ''.join(y if (g >> (level - 1 - b)) & 1 else x for b in range(level))
    names = {n.path for n in nodes}
    if kind == '1':
        return [q for q in (bits(g, 'a', 'd') for g in gc) if q in names]
    d = {sub2(q): q for q in names}
    o = [bits(g, 'l', 'h') for g in gc]
    rows = [[d[r, c] for c in o if (r, c) in d] for r in o]
    return [r for r in rows if r]


def partial(E, kind, shape, axes, wav, mode, level, seed, dt='f8', data=True):
    """partly grown trees: listings without decomposition, single children, siblings deleted together"""
    rnd = random.Random(seed)
    x = E.arr('x', tup(shape), dt)
    t = make(E, x, kind, wav, mode, axes, level)
    m = model(E, objarr(E, x), kind, wav, mode, axes, level, len(shape))
    tol = tol_of('haar', dt, 8 ** level)
    k = len(m.parts[0])

    def listing(lab):
        for l in range(level + 1):
            e = present(m, l)
            g = t.get_level(l, decompose=False)
            E.same([n.path for n in g], [n.path for n in e], lab + ': level %d without decomposition' % l)
            if kind != 'n':
                g = t.get_level(l, 'freq', decompose=False)
                E.same([n.path for n in g] if kind == '1' else [[n.path for n in r] for r in g], freq(m, e, l, kind), lab + ': frequency order of level %d' % l)
        for f, post in ((t.walk, False), (t.walk_depth, True)):
            got = []
            f(lambda n, a, b=0: got.append((n.path, a, b)) or True, args=(1,), kwargs={'b': 2}, decompose=False)
            E.same(got, [(q, 1, 2) for q in order_of(m, post)], lab + ': traversal')
        got = []
        t.walk(lambda n: got.append(n.path), decompose=False)
        E.same(got, [''], lab + ': the traversal stops where the function says so')

    for p in m.parts:
        E.check(t.get_subnode(p, False) is None, 'a child that was not made')
    listing('fresh')
    c = t.decompose()
    m.ch = m.split()
    E.same([n.path for n in c], list(m.parts), 'decompose returns the children')
    for p in m.parts:
        E.check(t.get_subnode(p, False) is t[p], 'child')
    listing('one level')
    if level > 1:
        q = ''.join(rnd.choice(m.parts) for _ in range(2))
        t[q]
        m.get(q)
        listing('one branch')
    gone = rnd.sample(m.parts, len(m.parts) - 1)
    for p in gone:
        del t[p]
        m.delete(p)
        E.check(t.get_subnode(p, False) is None, 'deleted child')
    listing('children deleted')
    E.eq(t.reconstruct(update=False), m.rec(), tol_of(wav, dt, 8 ** level), 'reconstruction from the child that is left')
    p = gone[0]
    n = t.get_subnode(p)
    e = m.child(p)
    E.eq(n.data, e.data, tol, 'child made again')
    E.check(t[p] is n, 'child made again')
    listing('one child made again')
    E.eq(t.reconstruct(update=False), m.rec(), tol_of(wav, dt, 8 ** level), 'reconstruction with deleted children')


def atroot(E, kind, shape, dt='f8'):
    """maximum level zero: the root is the only node"""
    x = E.arr('x', tup(shape), dt)
    t = make(E, x, kind, 'db2', 'symmetric', list(range({'1': 1, '2': 2}.get(kind, len(shape)))), 0)
    for d in (False, True):
        E.check([n is t for n in t.get_leaf_nodes(d)] == [True], 'leaf nodes')
        for f in (t.walk, t.walk_depth):
            got = []
            f(lambda n: got.append(n.path) or True, decompose=d)
            E.same(got, [''], 'traversal')
    E.check([n is t for n in t.get_level(0)] == [True], 'level 0')
    E.raises(t.decompose, ValueError, 'decompose at the maximum level')
    E.raises(lambda: t['a' * len(list(t.PARTS)[0])], IndexError, 'path too long')
    E.eq(t.reconstruct(), x, 1e-9, 'reconstruction')
    E.eq(t.data, x, 1e-9, 'data')


def resize(E, wav, mode, n1, n2):
    """a sub-band assigned twice, in different sizes, in a tree made without data"""
    P = E.pywt
    t = P.WaveletPacket(None, wav, mode, maxlevel=3)
    m = Model(None, [filters(E.pywt.Wavelet(wav))], mode, [0], ['a', 'd'], lambda p: p, 3)
    for i, n in enumerate((n1, n2)):
        for p in 'ad':
            w = E.arr('%s%d' % (p, i), (n,))
            t[p] = w
            m.set(p, objarr(E, w))
    w = E.arr('w', (dwt_len(n2, flen(wav), mode),))
    t['ad'] = w
    m.set('ad', objarr(E, w))
    E.eq(t['aa'].data, m.get('aa').data, tol_of(wav, 'f8', 8), 'sibling of the replaced node')
    y, e = t.reconstruct(update=False), m.rec()
    E.shape(y, tuple(e.shape), 'reconstruction')
    E.eq(y, e, tol_of(wav, 'f8', 64), 'reconstruction')


def nodata(E, wav, path, n):
    """maximum level of a tree made without data"""
    t = E.pywt.WaveletPacket(None, wav)
    E.same(t.maxlevel, None, 'maximum level without any data')
    t[path] = E.arr('x', (n,))
    L = len(path) + _lv(n, flen(wav))
    E.same(t.maxlevel, L, 'maximum level with one node')
    E.same(t[path].maxlevel, L, 'maximum level of the node')


def rej(E):
    P = E.pywt
    x = E.arr('x', (8,))
    X = E.arr('X', (8, 8))
    t = P.WaveletPacket(x, 'haar', maxlevel=2)
    u = P.WaveletPacket2D(X, 'haar', maxlevel=2)
    v = P.WaveletPacketND(X, 'haar', maxlevel=2)
    for w, bad, deep in ((t, 'x', 'aad'), (u, 'x', 'hvd'), (v, 'xx', 'aadaad')):
        E.raises(lambda: w[bad], ValueError, 'unknown node')
        E.raises(lambda: w[deep], IndexError, 'path too long')
        E.raises(lambda: w.__setitem__(deep, x), IndexError, 'path too long')
        E.raises(lambda: w[1], TypeError, 'path type')
        E.raises(lambda: w.__setitem__(1, x), TypeError, 'path type')
        E.raises(lambda: w.get_level(3), ValueError, 'level too large')
        E.raises(lambda: w[deep[:len(deep) // 3 * 2]].decompose(), ValueError, 'decompose at the maximum level')
    for w in (t, u):
        E.raises(lambda: w.get_level(1, 'foo'), ValueError, 'unknown order')
    E.raises(lambda: P.WaveletPacket(x, 'haar', axis=1), ValueError, 'axis')
    E.raises(lambda: P.WaveletPacket2D(X, 'haar', axes=(0, 0)), ValueError, 'axes')
    E.raises(lambda: P.WaveletPacket2D(X, 'haar', axes=(0, -2)), ValueError, 'axes')
    E.raises(lambda: P.WaveletPacket2D(x, 'haar'), ValueError, '1-D data')
    E.raises(lambda: P.WaveletPacketND(X, 'haar', axes=(1, 1)), ValueError, 'axes')
    E.raises(lambda: P.WaveletPacketND(None, 'haar'), ValueError, 'no data and no axes')


def cases(tier, seed):
    rnd = random.Random(seed + 14)
    T = tier == 'thorough'
    out, seen = [], set()

    def add(nm, fn, **k):
        if nm not in seen:
            seen.add(nm)
            out.append((nm, fn, k))
    W = ['haar', 'db2', 'bior2.2', 'rbio1.3', 'sym3', 'db4', 'bior3.1']
    DT = ['f8', 'f8', 'f8', 'f4', 'c16', 'c8']

    def cfg(level):
        while True:
            kind = rnd.choice('112n')
            nd = {'1': rnd.choice([1, 1, 2, 3]), '2': rnd.choice([2, 2, 3]), 'n': rnd.choice([1, 2, 3])}[kind]
            if kind == '1':
                axes = [rnd.randrange(nd) - nd * rnd.randint(0, 1)]
            elif kind == '2':
                axes = [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), 2)]
            else:
                axes = rnd.choice([None, [a - nd * rnd.randint(0, 1) for a in rnd.sample(range(nd), rnd.randint(1, nd))]])
            na = nd if axes is None else len(axes)
            sh = [rnd.randint(1, 4) for _ in range(nd)]
            for a in (range(nd) if axes is None else axes):
                sh[a] = rnd.randint(2, {1: 12, 2: 7, 3: 4}[na])
            lev = level if na == 1 else min(level, 2 if na == 2 else 1)
            w, m = rnd.choice(W), rnd.choice(MODES)
            if na > 1 and flen(w) > 4:
                w = rnd.choice(['haar', 'db2'])
            if 'refl' in m and w == 'haar':
                m = 'symmetric'
            return dict(kind=kind, shape=sh, axes=axes, wav=w, mode=m, level=lev)
    for r in range(400 if T else 130):
        add('tree-%d' % r, 'tree', dt=rnd.choice(DT), order=rnd.choice(LAYOUTS), **cfg(rnd.randint(1, 3)))
    for r, (k, s, a, w, L) in enumerate([('1', [16], [-1], 'haar', 3), ('1', [13], [0], 'db2', 2), ('1', [3, 9], [1], 'db2', 1), ('1', [9, 3], [0], 'haar', 2), ('2', [8, 9], [-2, -1], 'haar', 2),
                                         ('2', [9, 2, 8], [0, 2], 'haar', 2), ('n', [8, 2], [0], 'haar', 2), ('n', [6, 5], None, 'haar', 2)]):
        add('treed-%d' % r, 'tree', kind=k, shape=s, axes=a, wav=w, mode='symmetric', level=L, dflt=True)
    # deep trees, every mode
    for r, m in enumerate(MODES * (3 if T else 1)):
        w = rnd.choice(['haar', 'db2', 'bior2.2', 'rbio1.3'])
        add('deep1-%d' % r, 'tree', kind='1', shape=[rnd.randint(9, 16) if 'refl' in m else rnd.randint(2, 13)], axes=[-1], wav='db2' if 'refl' in m else w, mode=m, level=4, dt=rnd.choice(DT))
        add('deep2-%d' % r, 'tree', kind='2', shape=[rnd.randint(3, 6), rnd.randint(3, 6)], axes=[-2, -1], wav=rnd.choice(['db2', 'haar']) if 'refl' not in m else 'db2', mode=m, level=3, dt=rnd.choice(DT))
        add('deepn-%d' % r, 'tree', kind='n', shape=[rnd.randint(3, 7)], axes=None, wav='db2', mode=m, level=4, dt=rnd.choice(DT))
        add('deepn3-%d' % r, 'tree', kind='n', shape=[2, 3, 2], axes=rnd.choice([None, [2, 0, 1], [1, -1]]), wav='db2' if 'refl' in m else 'haar', mode=m, level=2, dt=rnd.choice(DT))
    add('deep1-6', 'tree', kind='1', shape=[2], axes=[0], wav='haar', mode='symmetric', level=6)
    add('deep2-4', 'tree', kind='2', shape=[2, 2], axes=[0, 1], wav='haar', mode='periodization', level=4)
    for r in range(150 if T else 45):
        add('inner-%d' % r, 'inner', seed=rnd.randrange(10 ** 6), dt=rnd.choice(DT), **cfg(rnd.choice([2, 3])))
    for r in range(150 if T else 45):
        add('part-%d' % r, 'partial', seed=rnd.randrange(10 ** 6), dt=rnd.choice(DT), **cfg(rnd.choice([1, 2, 3])))
    for k, sh in (('1', [5]), ('1', [8, 2]), ('2', [6, 7]), ('n', [8]), ('n', [4, 5]), ('n', [2, 4, 3])):
        add('root-%s-%s' % (k, 'x'.join(map(str, sh))), 'atroot', kind=k, shape=sh)
    for r, (w, m, a, b) in enumerate([('haar', 'symmetric', 5, 7), ('db2', 'zero', 8, 5), ('db2', 'periodization', 4, 7), ('sym3', 'smooth', 7, 8), ('haar', 'constant', 3, 2)]):
        add('resize-%d' % r, 'resize', wav=w, mode=m, n1=a, n2=b)
    for w, p, n in [('haar', 'a', 8), ('db2', 'dd', 13), ('haar', 'ada', 5), ('sym3', 'a', 4)]:
        add('nodata-%s-%s' % (w, p), 'nodata', wav=w, path=p, n=n)
    for r in range(500 if T else 150):
        c = cfg(3)
        add('leaf-%d' % r, 'leaves', seed=rnd.randrange(10 ** 6), dt=rnd.choice(DT), **c)
    for r in range(120 if T else 40):
        c = cfg(rnd.randint(2, 3))
        c['mode'] = 'periodization'
        nd = len(c['shape'])
        for a in (range(nd) if c['axes'] is None else c['axes']):
            c['shape'][a] = 2 ** c['level'] * rnd.choice([1, 1, 2] if c['level'] > 1 else [1, 2, 3])
        if c['axes'] is not None and c['kind'] == '1':
            c['axes'] = [-1] if c['axes'][0] in (-1, nd - 1) else c['axes']
        if c['kind'] == '1' and nd > 1 and c['axes'][0] >= 0:
            c['axes'] = [c['axes'][0]]
        if c['kind'] == 'n' and c['axes'] is not None and len(c['axes']) < nd:
            c['axes'] = None
            c['shape'] = [2 ** c['level']] * nd if nd < 3 else [2] * 3
            c['level'] = min(c['level'], 2) if nd < 3 else 1
            c['wav'] = 'haar'
        add('new-%d' % r, 'leaves', seed=rnd.randrange(10 ** 6), fresh=True, dt=rnd.choice(DT), **c)
    for r in range(600 if T else 200):
        c = cfg(rnd.randint(1, 3))
        add('hist-%d' % r, 'history', seed=rnd.randrange(10 ** 6), steps=rnd.randint(3, 12 if T else 8), dt=rnd.choice(['f8', 'f8', 'c16']), **c)
    add('rej', 'rej')
    return out
