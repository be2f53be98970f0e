"""Fresnel and double-wedge filters."""
import cmath
import math
from engine.registry import Prop

P = Prop('C25', ['prep.filtering.make_fresnel_window',
                 'prep.filtering.fresnel_filter',
                 'prep.filtering.make_double_wedge_mask',
                 'prep.filtering.double_wedge_filter'],
         'images of 1..5 x 2..6 pixels, paddings 0..3, every pixel '
         'symbolic; symbolic strength of the Fresnel filter on fixed images; '
         'any mask of a sinogram of 3x4 pixels; listed centers, iterations',
         ['float32 rounding', 'the logarithm is an uninterpreted function of '
          'every pixel'], 'larger images')
FIL = 'algotom.prep.filtering'
CONV = 'algotom.prep.conversion'


def clip(v, lo, hi):
    return min(max(v, lo), hi)


def edge_pad(m, py, px):
    h, w = len(m), len(m[0])
    return [[m[clip(i, 0, h - 1)][clip(j, 0, w - 1)]
             for j in range(-px, w + px)] for i in range(-py, h + py)]


def response(win, py, px):
    """Values of a window at the frequencies (row, column) of the padded
    image, repeated beyond its border; its centre is frequency zero."""
    h, w = len(win), len(win[0])
    H, W = h + 2 * py, w + 2 * px

    def at(f, n, pad):
        N = n + 2 * pad
        k = f if f < (N + 1) // 2 else f - N       # signed frequency
        return clip(k + n // 2, 0, n - 1)
    return [[win[at(f, h, py)][at(g, w, px)] for g in range(W)]
            for f in range(H)]


def filtered(m, resp, two):
    """Real part of the image whose DFT is multiplied by resp; per row when
    two is false."""
    H, W = len(m), len(m[0])
    if not two:
        # the response has its own row for every image row
        out = []
        for i in range(H):
            k = [sum(resp[i][f] * math.cos(2 * math.pi * f * d / W)
                     for f in range(W)) / W for d in range(W)]
            out.append([sum(k[(x - y) % W] * m[i][y] for y in range(W))
                        for x in range(W)])
        return out
    ker = [[sum(resp[f][g] * math.cos(2 * math.pi * (
        f * dy / H + g * dx / W)) for f in range(H) for g in range(W))
        / (H * W) for dx in range(W)] for dy in range(H)]
    return [[sum(ker[(i - p) % H][(j - q) % W] * m[p][q]
                 for p in range(H) for q in range(W))
             for j in range(W)] for i in range(H)]


def strength(h, w, ratio, dim):
    return [[1.0 + ratio * (((j - w // 2) / w) ** 2 +
                            (((i - h // 2) / h) ** 2 if dim == 2 else 0))
             for j in range(w)] for i in range(h)]


def window(ctx, h, w, dim):
    m = ctx.mod(FIL)
    r = ctx.real('ratio', 0, 100)
    ctx.equal('window', m.make_fresnel_window(h, w, r, dim),
              strength(h, w, r, dim))


def fresnel(ctx, h, w, dim, pad, ratio=None, own=False, log=False):
    """Every frequency is divided by its value in the window."""
    m = ctx.mod(FIL)
    np = ctx.np
    if ratio is None:
        r = ctx.real('ratio', 0, 20)
        a = np.asarray([[float((3 * i + 5 * j * j + i * j) % 7)
                         for j in range(w)] for i in range(h)])
    else:
        r = ratio
        a = ctx.array('a', (h, w), *((0.1, 3) if log else (-4, 4)))
    keep = np.copy(a)
    win = [[1.5 + ((i * 7 + j * 3) % 5) / 4 for j in range(w)]
           for i in range(h)] if own else strength(h, w, r, dim)
    py = pad if dim == 2 else 0
    resp = [[1.0 / v for v in row] for row in response(win, py, pad)]
    if dim == 1:    # rows keep their place; only columns are frequencies
        resp = [[1.0 / win[i][clip(
            (g if g < (w + 2 * pad + 1) // 2 else g - w - 2 * pad) + w // 2,
            0, w - 1)] for g in range(w + 2 * pad)] for i in range(h)]
    src = ctx.nested(-np.log(a)) if log else ctx.nested(a)
    want = filtered(edge_pad(src, py, pad), resp, dim == 2)
    want = [row[pad:pad + w] for row in want[py:py + h]]
    kw = {'window': np.asarray(win)} if own else {}
    out = m.fresnel_filter(a, r, dim=dim, pad=pad, apply_log=log, **kw)
    if log:
        want = np.exp(-np.asarray(want))
    ctx.equal('filtered', out, want)
    ctx.check('type', str(out.dtype) == 'float32')
    ctx.equal('input untouched', a, keep)


def constant(ctx, h, w, dim, pad):
    """A flat image passes unchanged, however strong the filter."""
    m = ctx.mod(FIL)
    r = ctx.real('ratio', 0, 50)
    c = ctx.real('c', -4, 4)
    a = ctx.np.asarray([[c] * w for _ in range(h)])
    out = m.fresnel_filter(a, r, dim=dim, pad=pad, apply_log=False)
    ctx.equal('constant', out, [[c] * w for _ in range(h)])


def wedge_mask(ctx, h, w, radius):
    """Zero within the wedge |v| > 2 pi R |u|, up to one pixel at its
    boundary; the three middle rows pass."""
    m = ctx.mod(FIL)
    mask = ctx.nested(m.make_double_wedge_mask(h, w, radius))
    yc, xc = h // 2, w // 2
    ctx.check('shape', len(mask) == h and all(len(r) == w for r in mask))
    for i in range(h):
        x = abs(i - yc) * (h - 1) * w / (2 * math.pi * h * radius)
        for j in range(w):
            if abs(i - yc) <= 1:
                ctx.check('middle rows', mask[i][j] == 1)
            elif abs(j - xc) <= x - 1e-9:
                ctx.check('inside the wedge', mask[i][j] == 0)
            elif abs(j - xc) >= x + 1:
                ctx.check('outside the wedge', mask[i][j] == 1)
    ctx.check('values', all(v == 0 or v == 1 for r in mask for v in r))


def masked(mask, py, px):
    h, w = len(mask), len(mask[0])
    return [[mask[(f + h // 2) % h][(g + w // 2) % w] for g in range(w)]
            for f in range(h)]


def wedge(ctx, h, w, pad, iteration, mode='given', center=None, where=None):
    """Every iteration pads the sinogram and keeps the frequencies of the
    mask; a 180-degree sinogram goes through its 360-degree form."""
    m = ctx.mod(FIL)
    np = ctx.np
    a = ctx.array('a', (h, w))
    keep = np.copy(a)
    kind = '180' if center is not None else '360'
    s = ctx.nested(a)
    if kind == '180':
        s = ctx.nested(ctx.mod(CONV).convert_sinogram_180_to_360(
            a, center))
    H, W = len(s), len(s[0])
    kw = {}
    if mode == 'given':
        mask = [[float((i * i + 2 * j + i * j) % 3 != 0)
                 for j in range(W + 2 * pad)] for i in range(H)]
        kw['mask'] = np.asarray(mask)
    else:
        kw['ratio'] = mode
        mask = ctx.nested(m.make_double_wedge_mask(H, W + 2 * pad,
                                                   mode * W / 2.0))
    resp = masked(mask, 0, 0)
    for _ in range(iteration):
        s = filtered(edge_pad(s, 0, pad), resp, True)
        s = [r[pad:pad + W] for r in s]
    if kind == '180':
        kw['center'] = center
        s = s[:h]
    out = m.double_wedge_filter(a, sino_type=kind, iteration=iteration,
                                pad=pad, **kw)
    ctx.equal('filtered', out, s)
    ctx.equal('input untouched', a, keep)


def any_mask(ctx, h, w):
    """One iteration with any mask on a fixed sinogram."""
    m = ctx.mod(FIL)
    np = ctx.np
    mask = ctx.array('mask', (h, w), 0, 1)
    a = [[float((3 * i + 5 * j * j + i * j) % 7) for j in range(w)]
         for i in range(h)]
    out = m.double_wedge_filter(np.asarray(a), sino_type='360', iteration=1,
                                pad=0, mask=mask)
    ctx.equal('filtered', out,
              filtered(a, masked(ctx.nested(mask), 0, 0), True))


def refused(ctx):
    m = ctx.mod(FIL)
    a = ctx.array('a', (5, 6))
    f = m.double_wedge_filter
    ctx.raises('type', ValueError, lambda: f(a, 3, sino_type='90', pad=1))
    ctx.raises('no center', ValueError, lambda: f(a, pad=1))
    for s in ((5, 6), (6, 8), (4, 8)):
        b = ctx.np.ones(s)
        ctx.raises('mask', ValueError, lambda: f(a, sino_type='360', pad=1,
                                                 mask=b))
    b = ctx.np.ones((5, 8))
    ctx.raises('mask', ValueError, lambda: f(a, 3, sino_type='180', pad=1,
                                             mask=b))


for h, w in ((1, 5), (4, 6), (5, 4), (3, 3), (6, 7)):
    for dim in (1, 2):
        P.case(window, h=h, w=w, dim=dim)
for dim in (1, 2):
    for h, w, pad in ((2, 5, 0), (3, 4, 2), (4, 5, 1), (1, 6, 3)):
        P.case(fresnel, h=h, w=w, dim=dim, pad=pad, ratio=3.0)
        P.case(fresnel, h=h, w=w, dim=dim, pad=pad, ratio=7.5, own=True)
        P.case(constant, h=h, w=w, dim=dim, pad=pad)
    P.case(fresnel, h=3, w=4, dim=dim, pad=1, ratio=2.0, log=True)
    P.case(fresnel, h=2, w=5, dim=dim, pad=0, ratio=20.0, log=True, own=True)
    P.case(fresnel, h=2, w=4, dim=dim, pad=1)
    P.case(fresnel, h=3, w=3, dim=dim, pad=0)
for h, w, r in ((9, 12, 4.0), (12, 9, 3.0), (15, 21, 7.0), (16, 16, 2.0),
                (31, 40, 10.0), (7, 30, 3.0), (200, 30, 2.0)):
    P.case(wedge_mask, h=h, w=w, radius=r)
P.case(wedge, h=5, w=4, pad=1, iteration=1)
P.case(wedge, h=4, w=5, pad=2, iteration=2)
P.case(wedge, h=3, w=4, pad=0, iteration=3)
P.case(wedge, h=7, w=4, pad=1, iteration=1, mode=1.0)
P.case(wedge, h=8, w=5, pad=1, iteration=2, mode=0.5)
P.case(wedge, h=3, w=5, pad=1, iteration=1, center=2.0)
P.case(wedge, h=3, w=6, pad=1, iteration=2, center=2.5)
P.case(wedge, h=4, w=5, pad=1, iteration=1, center=2.0, mode=1.0)
P.case(wedge, h=4, w=5, pad=1, iteration=2, center=2.5, mode=0.7)
P.case(any_mask, h=3, w=4)
P.case(any_mask, h=4, w=3)
P.case(refused)
