"""Independent specifications, in plain Python over numbers or symbolic
elements.  Nothing here imports pywt."""
MODES = ['zero', 'constant', 'symmetric', 'reflect', 'periodic', 'smooth', 'periodization', 'antisymmetric', 'antireflect']
EXTMODES = [m for m in MODES if m != 'periodization']


def ext(x, k, mode):
    """value at integer position k of the documented infinite extension of x"""
    n = len(x)
    if 0 <= k < n:
        return x[k]
    if mode == 'zero':
        return 0.0
    if mode == 'constant':
        return x[0] if k < 0 else x[n - 1]
    if mode == 'periodic':
        return x[k % n]
    if mode == 'symmetric':
        r = k % (2 * n)
        return x[r] if r < n else x[2 * n - 1 - r]
    if mode == 'antisymmetric':
        r = k % (2 * n)
        return x[r] if r < n else -x[2 * n - 1 - r]
    if mode == 'smooth':
        if n == 1:
            return x[0]
        if k < 0:
            return x[0] + (-k) * (x[0] - x[1])
        return x[n - 1] + (k - n + 1) * (x[n - 1] - x[n - 2])
    if mode == 'reflect':
        if n == 1:
            return x[0]
        p = n - 1
        r = k % (2 * p)
        return x[r] if r <= p else x[2 * p - r]
    if mode == 'antireflect':
        if n == 1:
            return x[0]
        p = n - 1
        q, r = divmod(k, 2 * p)
        base = x[r] if r <= p else 2 * x[p] - x[2 * p - r]
        return base + (2 * q) * (x[p] - x[0])
    raise ValueError(mode)


def dwt_len(n, f, mode):
    return (n + 1) // 2 if mode == 'periodization' else (n + f - 1) // 2


def convdec(x, h, mode):
    """one branch of the single-level DWT"""
    n, f = len(x), len(h)
    out = []
    if mode == 'periodization':
        y = list(x) + ([x[-1]] if n % 2 else [])
        m = len(y)
        for i in range(m // 2):
            s = 0.0
            for j in range(f):
                s = s + h[j] * y[(2 * i + f // 2 - j) % m]
            out.append(s)
        return out
    for i in range((n + f - 1) // 2):
        s = 0.0
        for j in range(f):
            if h[j].__class__ is float and h[j] == 0.0:
                continue
            s = s + h[j] * ext(x, 2 * i + 1 - j, mode)
        out.append(s)
    return out


def dwt(x, lo, hi, mode):
    return convdec(x, lo, mode), convdec(x, hi, mode)


def idwt_len(n, f, mode):
    return 2 * n if mode == 'periodization' else 2 * n - f + 2


def convrec(c, g, mode):
    """one branch of the inverse: filter the upsampled coefficients"""
    n, f = len(c), len(g)
    if mode == 'periodization':
        out = [0.0] * (2 * n)
        for k in range(n):
            for j in range(f):
                p = (2 * k + j - (f // 2 - 1)) % (2 * n)
                out[p] = out[p] + g[j] * c[k]
        return out
    full = upfull(c, g)
    return full[f - 2:f - 2 + 2 * n - f + 2]


def upfull(c, g):
    """full convolution of the zero-upsampled coefficients with g: length 2n+f-2"""
    n, f = len(c), len(g)
    out = [0.0] * (2 * n + f - 2)
    for k in range(n):
        for j in range(f):
            out[2 * k + j] = out[2 * k + j] + g[j] * c[k]
    return out


def idwt(ca, cd, lo, hi, mode):
    r = None
    for c, g in ((ca, lo), (cd, hi)):
        if c is None:
            continue
        t = convrec(c, g, mode)
        r = t if r is None else [a + b for a, b in zip(r, t)]
    return r


def along(arr, axis, fn):
    """apply fn(list)->list along an axis of a nested object ndarray"""
    import numpy as np
    a = np.moveaxis(arr, axis, -1)
    sh = a.shape[:-1]
    rows = []
    L = None
    for ix in np.ndindex(*sh):
        r = fn(list(a[ix]))
        L = len(r)
        rows.append(r)
    if L is None:
        L = 0
    out = np.empty(sh + (L,), object)
    for ix, r in zip(np.ndindex(*sh), rows):
        for k, v in enumerate(r):
            out[ix + (k,)] = v
    return np.moveaxis(out, -1, axis)


def objarr(E, a):
    """check-environment array -> plain object ndarray of elements"""
    import numpy as np
    a = E.np.asarray(a) if not isinstance(a, np.ndarray) else a
    lst = E.list(a)
    out = np.empty(len(lst), object)
    for i, v in enumerate(lst):
        out[i] = v
    return out.reshape(tuple(a.shape))


def filters(w):
    return [list(map(float, f)) for f in (w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi)]
