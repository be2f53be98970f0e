"""Correlation maps, sub-pixel peaks and the shift read from them."""
import numpy as onp
from engine.registry import Prop
from props.common import mean

P = Prop('C23', ['util.correlation.generate_correlation_map',
                 'util.correlation._generate_correlation_map_2d_input_cpu',
                 'util.correlation._generate_correlation_map_3d_input_cpu',
                 'util.correlation._generate_correlation_map_2d_input_gpu',
                 'util.correlation._generate_correlation_map_3d_input_gpu',
                 'util.correlation.locate_peak',
                 'util.correlation._locate_1d_peak_subpixel',
                 'util.correlation._locate_2d_peak_subpixel',
                 'util.correlation.find_shift_based_correlation_map',
                 'util.correlation.normalize_image'],
         'images of 1..3 x 2..7 pixels (stacks of 2) with 2..4 symbolic '
         'pixels or a symbolic gain and offset, every position of the '
         'window; peaks in maps of 3..5 x 3..7 values, quadratic peaks at '
         'any symbolic place, all values',
         ['float32 rounding', 'sqrt is the exact square root'],
         'larger images')
CO = 'algotom.util.correlation'
ONE = onp.asarray([[3., 1, 4, 1, 5, 9, 2, 6], [6, 5, 3, 5, 8, 9, 7, 1],
                   [9, 3, 2, 3, 8, 4, 6, 7], [2, 6, 4, 3, 3, 8, 3, 5],
                   [2, 7, 9, 5, 0, 2, 8, 3], [8, 4, 1, 9, 7, 1, 6, 9],
                   [9, 3, 9, 9, 3, 7, 5, 0], [1, 0, 5, 8, 2, 0, 9, 4]])
TWO = onp.asarray([ONE, ONE[::-1, ::-1] * 2 - ONE + 3])


def texture(shape):
    """Concrete values without repetition."""
    if len(shape) == 2:
        return ONE[:shape[0], :shape[1]].copy()
    return TWO[:shape[0], :shape[1], :shape[2]].copy()


def planted(ctx, name, shape, where, lo=0, hi=10):
    """Texture with symbolic values at the listed pixels."""
    b = texture(shape).tolist()
    x = ctx.list(ctx.array(name, (len(where),), lo, hi)) if where else []
    for p, v in zip(where, x):
        r = b
        for k in p[:-1]:
            r = r[k]
        r[p[-1]] = v
    return ctx.np.asarray(b)


def flat(m):
    if isinstance(m, list):
        return [v for r in m for v in flat(r)]
    return [m]


def crop(m, i, j, h, w):
    """Window of nested lists of 2 or 3 dimensions."""
    if isinstance(m[0][0], list):
        return [crop(r, i, j, h, w) for r in m]
    return [r[j:j + w] for r in m[i:i + h]]


def sums(a, b):
    """Co-moment and squared deviations of two lists of values."""
    ma, mb = mean(a), mean(b)
    s = aa = bb = 0.0
    for x, y in zip(a, b):
        s = s + (x - ma) * (y - mb)
        aa = aa + (x - ma) * (x - ma)
        bb = bb + (y - mb) * (y - mb)
    return s, aa, bb


def is_pearson(ctx, label, c, a, b):
    s, aa, bb = sums(a, b)
    flatline = ctx.any([aa <= 0, bb <= 0])
    ctx.check(label + ' of flat windows', ctx.any(
        [ctx.all([aa > 0, bb > 0]), abs(c) < 1e-6]))
    ctx.check(label, ctx.any([flatline, abs(
        c * c * (aa * bb) - s * s) < 1e-3 * (aa * bb)]))
    ctx.check(label + ' sign', ctx.any(
        [flatline, ctx.all([s > -1e-3 * aa, s < 1e-3 * aa]),
         ctx.all([s > 0, c > 0]), ctx.all([s < 0, c < 0])]))


def pearson(ctx, rs, ms, rw, mw, gpu=False, block=(16, 16)):
    """Every entry of the map is the Pearson coefficient of the image and
    the window of the reference at that offset."""
    m = ctx.mod(CO)
    np = ctx.np
    ref = planted(ctx, 'r', rs, rw)
    mat = planted(ctx, 'm', ms, mw)
    k0, k1 = np.copy(ref), np.copy(mat)
    out = m.generate_correlation_map(ref, mat, gpu, block)
    h, w = ms[-2:]
    nh, nw = rs[-2] - h + 1, rs[-1] - w + 1
    ctx.check('shape', tuple(out.shape) == (nh, nw))
    rl, ml = ctx.nested(ref), ctx.nested(mat)
    ol = ctx.nested(out)
    for i in range(nh):
        for j in range(nw):
            is_pearson(ctx, 'coefficient', ol[i][j], flat(ml),
                       flat(crop(rl, i, j, h, w)))
    ctx.equal('reference untouched', ref, k0)
    ctx.equal('image untouched', mat, k1)


def same(ctx, rs, ms, rw, mw):
    """GPU and CPU give the same map, for any block."""
    m = ctx.mod(CO)
    ref = planted(ctx, 'r', rs, rw)
    mat = planted(ctx, 'm', ms, mw)
    a = m.generate_correlation_map(ref, mat)
    for block in ((16, 16), (2, 1), (1, 3)):
        ctx.equal('GPU', m.generate_correlation_map(
            ref, mat, gpu=True, block=block), a)


def refused(ctx):
    m = ctx.mod(CO)
    a = ctx.array('a', (2, 3, 4))
    f = m.generate_correlation_map
    ctx.raises('dimensions', ValueError, lambda: f(a[0, 0], a[0, 0]))
    ctx.raises('too high', ValueError, lambda: f(a[:, :2], a))
    ctx.raises('too wide', ValueError, lambda: f(a[:, :, :2], a))
    ctx.raises('depth', ValueError, lambda: f(a, a[:1]))
    ctx.raises('block', ValueError, lambda: f(a, a, gpu=True, block=16))
    for axis in (None, 0, 1):
        ctx.raises('margin', ValueError, lambda:
                   m.find_shift_based_correlation_map(
                       a[0], a[0][:2, :3], 1, axis))


def top(ctx, ml):
    """First place of the maximum, one path per place."""
    y = x = 0
    for i, r in enumerate(ml):
        for j, v in enumerate(r):
            if v > ml[y][x]:
                y, x = i, j
    return y, x


def part(a, b, c):
    """Offset of the vertex of the parabola through three points."""
    den = a + c - 2 * b
    if den != 0:
        return -(c - a) / 2.0 / den
    return 0.0


def peak(ctx, h, w, dim, sub=True, highest=True, where=None, default=False):
    """Whole-pixel maximum, refined from its direct neighbours; along the
    border only along the border; a minimum is the maximum of the negative."""
    m = ctx.mod(CO)
    np = ctx.np
    if where is None:
        a = ctx.array('a', (h, w), -4, 4)
    else:
        base = texture((h, w)) / 4.0
        base[h // 2, w // 2] = 4.0 if highest else -4.0
        b = base.tolist()
        x = ctx.list(ctx.array('a', (len(where),), -2, 2))
        for (i, j), v in zip(where, x):
            b[i][j] = v
        a = np.asarray(b)
    keep = np.copy(a)
    al = ctx.nested(a)
    if not highest:
        al = [[-v for v in r] for r in al]
    k = {} if default else {'sub_pixel': sub, 'dim': dim,
                            'max_peak': highest}
    gx, gy = m.locate_peak(a, **k)
    y, x = top(ctx, al)
    wx, wy = x, y
    iy, ix = 0 < y < h - 1, 0 < x < w - 1
    if sub and iy and ix and h >= 3 and w >= 3:
        c = al[y][x]
        if dim == 1:
            wx = x + part(al[y][x - 1], c, al[y][x + 1])
            wy = y + part(al[y - 1][x], c, al[y + 1][x])
        else:
            fx = (al[y][x + 1] - al[y][x - 1]) * 0.5
            fy = (al[y + 1][x] - al[y - 1][x]) * 0.5
            fxx = al[y][x + 1] + al[y][x - 1] - 2 * c
            fyy = al[y + 1][x] + al[y - 1][x] - 2 * c
            fxy = (al[y + 1][x + 1] + al[y - 1][x - 1] -
                   al[y + 1][x - 1] - al[y - 1][x + 1]) * 0.25
            # the offset (u, v) solves  H (u, v) = - grad
            u, v = gx - x, gy - y
            ctx.check('offset inside one pixel',
                      ctx.all([abs(u) < 1.0, abs(v) < 1.0]))
            det = fxx * fyy - fxy * fxy
            su, sv = fyy * fx - fxy * fy, fxx * fy - fxy * fx
            tol = 1e-4
            ctx.check('x offset', ctx.any([
                abs(u * det + su) < tol,
                ctx.all([abs(u) < 1e-9, abs(su) >= abs(det) * 0.999]),
                ctx.all([abs(u) < 1e-9, abs(det) < 1e-9])]))
            ctx.check('y offset', ctx.any([
                abs(v * det + sv) < tol,
                ctx.all([abs(v) < 1e-9, abs(sv) >= abs(det) * 0.999]),
                ctx.all([abs(v) < 1e-9, abs(det) < 1e-9])]))
            wx = wy = None
    elif sub and ix and w >= 3 and not iy:
        wx = x + part(al[y][x - 1], al[y][x], al[y][x + 1])
    elif sub and iy and h >= 3 and not ix:
        wy = y + part(al[y - 1][x], al[y][x], al[y + 1][x])
    if wx is not None:
        ctx.check('x', abs(gx - wx) < 1e-3)
        ctx.check('y', abs(gy - wy) < 1e-3)
    ctx.equal('input untouched', a, keep)


def quadratic(ctx, h, w, dim, method, size, a=1.0, b=0.5, c=0.25, top=2.0,
              highest=True):
    """A quadratic peak is located exactly wherever it lies."""
    m = ctx.mod(CO)
    cy, cx = h // 2, w // 2
    y0 = ctx.real('y0', cy - 0.45, cy + 0.45)
    x0 = ctx.real('x0', cx - 0.45, cx + 0.45)
    s = 1.0 if highest else -1.0
    mat = ctx.np.asarray([[s * (top - a * (j - x0) * (j - x0)
                                - b * (i - y0) * (i - y0)
                                - c * (i - y0) * (j - x0))
                           for j in range(w)] for i in range(h)])
    gx, gy = m.locate_peak(mat, True, method, dim, size, highest)
    ctx.check('x', abs(gx - x0) < 1e-2)
    ctx.check('y', abs(gy - y0) < 1e-2)


def line_peak(ctx, n, axis, method, size):
    """Maps of a single row or column (search along one axis)."""
    m = ctx.mod(CO)
    p = ctx.real('p', n // 2 - 0.45, n // 2 + 0.45)
    v = [2.0 - (i - p) * (i - p) for i in range(n)]
    mat = ctx.np.asarray([v] if axis == 1 else [[u] for u in v])
    gx, gy = m.locate_peak(mat, True, method, 1, size)
    ctx.check('along the line', abs((gx if axis == 1 else gy) - p) < 1e-2)
    ctx.check('across the line', abs(gy if axis == 1 else gx) < 1e-9)


def shift(ctx, rs, ms, at, margin=1, axis=None, sub=False, gpu=False):
    """An image that is a window of the reference, with any gain and offset,
    is found where it was taken from; shifts count from the middle."""
    m = ctx.mod(CO)
    np = ctx.np
    g, o = ctx.real('g', 0.5, 3), ctx.real('o', -5, 5)
    t = texture(rs)
    w = t[..., at[0]:at[0] + ms[-2], at[1]:at[1] + ms[-1]]
    ref = np.asarray(t.tolist())
    lift = (lambda v: [lift(u) for u in v] if isinstance(v, list)
            else g * v + o)
    mat = np.asarray(lift(w.tolist()))
    x, y = m.find_shift_based_correlation_map(
        ref, mat, margin=margin, axis=axis, sub_pixel=sub, gpu=gpu)
    h2, w2 = rs[-2] - ms[-2] + 1, rs[-1] - ms[-1] + 1
    ctx.check('x shift', abs(x - (0 if axis == 0 else at[1] - w2 // 2))
              < 1e-6)
    ctx.check('y shift', abs(y - (0 if axis == 1 else at[0] - h2 // 2))
              < 1e-6)


def equal_size(ctx, n, d, axis, margin, stack=False):
    """Images of the same size: the second one moved by d pixels."""
    m = ctx.mod(CO)
    np = ctx.np
    g = ctx.real('g', 0.5, 3)
    big = texture((2, 8, 8) if stack else (8, 8))
    dy, dx = d
    y0, x0 = 1, 1
    ref = big[..., y0:y0 + n[0], x0:x0 + n[1]]
    mov = big[..., y0 + dy:y0 + dy + n[0], x0 + dx:x0 + dx + n[1]]
    lift = (lambda v: [lift(u) for u in v] if isinstance(v, list)
            else g * v)
    x, y = m.find_shift_based_correlation_map(
        np.asarray(ref.tolist()), np.asarray(lift(mov.tolist())),
        margin=margin, axis=axis, sub_pixel=False)
    ctx.check('x shift', abs(x - dx) < 1e-6)
    ctx.check('y shift', abs(y - dy) < 1e-6)


def norm(ctx, shape, where):
    """Rows and columns are divided by their sums, then mean zero and
    deviation one; stacks keep one gain and start at zero."""
    m = ctx.mod(CO)
    np = ctx.np
    a = planted(ctx, 'a', shape, where, 1, 9)
    keep = np.copy(a)
    al = ctx.nested(a)
    out = ctx.nested(m.normalize_image(a))
    if len(shape) == 2:
        cs = [sum(c[1:], c[0]) for c in zip(*al)]
        rs = [sum(r[1:], r[0]) for r in al]
        al = [[v / cs[j] / rs[i] for j, v in enumerate(r)]
              for i, r in enumerate(al)]
    f = np.asarray(flat(al))
    want = ctx.list((f - np.mean(f)) / np.std(f))
    if len(shape) == 3:
        low = want[0]
        for v in want[1:]:
            low = ctx.min(low, v)
        want = [v - low for v in want]
    for v, w in zip(flat(out), want):
        ctx.check('normalised', abs(v - w) < 1e-3)
    ctx.equal('input untouched', a, keep)


for gpu in (False, True):
    P.case(pearson, rs=(2, 4), ms=(2, 3), rw=((0, 1),), mw=((1, 1),), gpu=gpu)
    P.case(pearson, rs=(3, 4), ms=(2, 2), rw=((1, 1),), mw=(), gpu=gpu)
    P.case(pearson, rs=(1, 5), ms=(1, 3), rw=((0, 1), (0, 3)), mw=(),
           gpu=gpu, block=(2, 2))
    P.case(pearson, rs=(2, 2, 3), ms=(2, 2, 2), rw=((1, 0, 1),),
           mw=((0, 1, 1),), gpu=gpu)
    P.case(pearson, rs=(2, 3, 3), ms=(2, 2, 2), rw=(), mw=((1, 1, 0),),
           gpu=gpu, block=(1, 2))
P.case(same, rs=(4, 5), ms=(2, 3), rw=((1, 1), (2, 3)), mw=((0, 1),))
P.case(same, rs=(2, 3, 4), ms=(2, 2, 2), rw=((1, 1, 1), (0, 2, 3)),
       mw=((0, 1, 0),))
P.case(refused)
P.case(peak, h=3, w=3, dim=2, default=True,
       where=((0, 1), (1, 0), (2, 2), (1, 2)))
P.case(peak, h=3, w=3, dim=1, where=((0, 1), (1, 0), (2, 1), (1, 2)))
P.case(peak, h=2, w=3, dim=2, sub=False)
P.case(peak, h=3, w=3, dim=2, sub=False,
       where=((0, 1), (1, 0), (2, 2), (1, 2)))
P.case(peak, h=1, w=5, dim=1)
P.case(peak, h=4, w=1, dim=1)
P.case(peak, h=2, w=4, dim=1)
P.case(peak, h=3, w=2, dim=2)
P.case(peak, h=3, w=3, dim=1, highest=False,
       where=((0, 1), (1, 0), (2, 1), (1, 2)))
P.case(peak, h=5, w=5, dim=2, highest=False,
       where=((1, 2), (2, 1), (3, 2), (2, 3)))
for dim in (1, 2):
    P.case(quadratic, h=5, w=5, dim=dim, method='diff', size=3,
           c=0.25 if dim == 2 else 0.0)
    P.case(quadratic, h=5, w=5, dim=dim, method='diff', size=5, a=0.5, b=2.0,
           c=-0.25 if dim == 2 else 0.0, highest=False)
    P.case(quadratic, h=5, w=7, dim=dim, method='poly_fit', size=5,
           c=0.25 if dim == 2 else 0.0)
    P.case(quadratic, h=5, w=5, dim=dim, method='poly_fit', size=3,
           c=-0.5 if dim == 2 else 0.0, highest=False)
    P.case(quadratic, h=5, w=5, dim=dim, method='poly_fit', size=4,
           c=0.0)
for ax in (0, 1):
    P.case(line_peak, n=5, axis=ax, method='diff', size=3)
    P.case(line_peak, n=7, axis=ax, method='poly_fit', size=5)
for at in ((0, 0), (1, 2), (2, 1), (2, 2)):
    P.case(shift, rs=(5, 5), ms=(3, 3), at=at)
    P.case(shift, rs=(5, 5), ms=(3, 3), at=at, gpu=True)
P.case(shift, rs=(2, 5, 5), ms=(2, 3, 3), at=(0, 1))
P.case(shift, rs=(2, 6, 4), ms=(2, 3, 2), at=(3, 2), gpu=True)
P.case(shift, rs=(3, 7), ms=(3, 3), at=(0, 3), axis=1)
P.case(shift, rs=(7, 3), ms=(3, 3), at=(4, 0), axis=0)
P.case(shift, rs=(2, 3, 7), ms=(2, 3, 4), at=(0, 0), axis=1)
for d in ((0, 0), (1, 1), (1, 0), (0, -1), (-1, 1)):
    P.case(equal_size, n=(6, 6), d=d, axis=None, margin=1)
P.case(equal_size, n=(3, 6), d=(0, 1), axis=1, margin=1)
P.case(equal_size, n=(6, 3), d=(-1, 0), axis=0, margin=1)
P.case(equal_size, n=(6, 2), d=(1, 0), axis=0, margin=1, stack=True)
P.case(equal_size, n=(6, 6), d=(1, -1), axis=None, margin=1, stack=True)
P.case(norm, shape=(2, 3), where=((0, 1),))
P.case(norm, shape=(2, 2, 2), where=((0, 1, 1), (1, 0, 0)))
