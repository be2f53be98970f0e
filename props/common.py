"""Oracles shared by several properties.

Everything here is written from the documentation of the methods, with
independent formulas, on nested lists of scalars so that it works on symbolic
and on concrete values alike.
"""
import math
import numpy as onp


def bilin(img, y, x):
    """Bilinear value of img (2D) at constant coordinates inside it."""
    h, w = len(img), len(img[0])
    y = min(max(y, 0.0), h - 1.0)
    x = min(max(x, 0.0), w - 1.0)
    y0, x0 = int(math.floor(y + 1e-9)), int(math.floor(x + 1e-9))
    fy, fx = y - y0, x - x0
    r = 0.0
    for dy, wy in ((0, 1 - fy), (1, fy)):
        for dx, wx in ((0, 1 - fx), (1, fx)):
            if wy * wx > 1e-9 or wy * wx < -1e-9:
                r = r + img[min(y0 + dy, h - 1)][min(x0 + dx, w - 1)] * (
                    wy * wx)
    return r


def rows(ctx, a):
    """Nested lists of an array of 2 or 3 dimensions."""
    return ctx.list(a)


def cols(m):
    return [list(c) for c in zip(*m)]


def distinct(ctx, lines, gap=0.05):
    """Values of a line keep a distance, so their order is unique."""
    for r in lines:
        for i in range(len(r)):
            for j in range(i):
                ctx.assume(ctx.any([r[i] - r[j] > gap, r[j] - r[i] > gap]))


def ordered(ctx, lines, gap=0.05):
    """Like distinct, but one path per order of the values of a line."""
    for r in lines:
        for i in range(len(r)):
            for j in range(i):
                if r[i] > r[j]:
                    ctx.assume(r[i] - r[j] > gap)
                else:
                    ctx.assume(r[j] - r[i] > gap)


def ranks(ctx, line):
    """Position of every value in the sorted line (distinct values)."""
    out = []
    for i, v in enumerate(line):
        r = 0
        for j, u in enumerate(line):
            if j != i:
                r = r + ctx.ite(u < v, 1, 0)
        out.append(r)
    return out


def pick(ctx, line, k):
    """line[k] for a possibly symbolic index."""
    e = line[0]
    for i in range(1, len(line)):
        e = ctx.ite(k == i, line[i], e)
    return e


def srt(ctx, line):
    return ctx.nested(ctx.np.sort(ctx.np.asarray(list(line))))


def med(ctx, line):
    return srt(ctx, line)[len(line) // 2]


def refl(i, n):
    """Index under scipy's 'reflect' boundary."""
    i = i % (2 * n)
    return i if i < n else 2 * n - 1 - i


def median2d(ctx, m, sy, sx):
    """Median filter of nested lists, window (sy, sx), scipy's alignment."""
    h, w = len(m), len(m[0])
    out = []
    for y in range(h):
        r = []
        for x in range(w):
            r.append(med(ctx, [m[refl(y - sy // 2 + a, h)]
                               [refl(x - sx // 2 + b, w)]
                               for a in range(sy) for b in range(sx)]))
        out.append(r)
    return out


_MAT = {}


def linmap(f, m, key=None):
    """f (numpy function, linear) applied to nested lists of scalars."""
    h, w = len(m), len(m[0])
    k = (key, h, w) if key is not None else None
    if k is None or k not in _MAT:
        cs = []
        for i in range(h * w):
            b = onp.zeros(h * w)
            b[i] = 1.0
            cs.append(onp.asarray(f(b.reshape(h, w)), dtype=float))
        if k is not None:
            _MAT[k] = cs
    else:
        cs = _MAT[k]
    fl = [v for r in m for v in r]
    sh = cs[0].shape
    out = onp.empty(sh, dtype=object)
    for p in onp.ndindex(*sh):
        s = 0.0
        for i, v in enumerate(fl):
            c = float(cs[i][p])
            if abs(c) > 1e-13:
                s = s + v * c
        out[p] = s
    return out.tolist()


def add(a, b, f=1.0):
    return [[x + y * f for x, y in zip(r, q)] for r, q in zip(a, b)]


def mean(vs):
    s = 0.0
    for v in vs:
        s = s + v
    return s * (1.0 / len(vs))


def gauss2d(sx, sy, pad=None, m1='edge', m2='mean'):
    """Low-pass filter with a centred Gaussian frequency window."""
    def f(a):
        p = min(150, int(0.1 * min(a.shape))) if pad is None else pad
        b = onp.pad(a, ((0, 0), (p, p)), mode=m1)
        b = onp.pad(b, ((p, p), (0, 0)), mode=m2)
        h, w = b.shape
        y = onp.arange(h)[:, None]
        x = onp.arange(w)[None, :]
        win = onp.exp(-(x - (w - 1) / 2) ** 2 / (2 * sx ** 2)
                      - (y - (h - 1) / 2) ** 2 / (2 * sy ** 2))
        sg = (-1.0) ** (x + y)
        r = onp.fft.ifft2(onp.fft.fft2(b * sg) * win).real * sg
        return r[p:h - p, p:w - p]
    return f


def low1d(window):
    """Low-pass along a line of n points; window has n + 2 pad values."""
    def f(line):
        n = len(line)
        p = min(150, int(0.1 * n))
        b = onp.pad(line, p, mode='reflect')
        sg = (-1.0) ** onp.arange(n + 2 * p)
        return ((onp.fft.ifft(onp.fft.fft(b * sg) * window(n, p)) * sg).real
                [p:n + p])
    return f


def low_axis0(window):
    f = low1d(window)
    return lambda a: onp.apply_along_axis(f, 0, a)


def gwin(sigma):
    def w(n, p):
        k = onp.arange(n + 2 * p) - (n + 2 * p - 1) / 2
        return onp.exp(-k ** 2 / (2.0 * sigma ** 2))
    return w


def sort_restore(ctx, m, f):
    """Sort every column, apply f to the sorted rows, put the values back."""
    c = cols(m)
    rk = [ranks(ctx, ln) for ln in c]
    s = f(cols([srt(ctx, ln) for ln in c]))
    sc = cols(s)
    return cols([[pick(ctx, sc[k], r) for r in rk[k]]
                 for k in range(len(c))])
