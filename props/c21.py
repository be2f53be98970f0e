"""Polar coordinates of slices, and ring removal through them."""
import math
import numpy as onp
from engine.registry import Prop
from props.common import bilin
from props.c11 import sparse, _back, _sym_pixels

P = Prop('C21', ['util.utility.rectangular_from_polar',
                 'util.utility.polar_from_rectangular',
                 'util.utility.transform_slice_forward',
                 'util.utility.transform_slice_backward',
                 'util.utility.mapping', 'util.utility.make_circle_mask',
                 'post.postprocessing.remove_ring_based_fft',
                 'post.postprocessing.remove_ring_based_wavelet_fft'],
         'square slices of 3..9 pixels with every pixel symbolic (16 and 33 '
         'pixels with 3 symbolic pixels for the wavelet method)',
         ['float32 rounding',
          'the stripe removal inside is the method decided by C11'],
         'larger slices; other interpolation orders')
UT = 'algotom.util.utility'
POST = 'algotom.post.postprocessing'
REM = 'algotom.prep.removal'


def to_polar(wr, hr, wp, hp):
    """Image coordinates (x, y) of point (angle row, radius column)."""
    cx, cy = (wr - 1) / 2.0, (hr - 1) / 2.0
    rm = math.floor(max(cx, cy))
    out = []
    for t in range(hp):
        th = 2 * math.pi * t / (hp - 1)
        out.append([])
        for k in range(wp):
            r = rm * k / (wp - 1.0)
            out[-1].append((
                min(max(cx + r * math.cos(th), 0), wr - 1),
                min(max(cy + r * math.sin(th), 0), hr - 1)))
    return out


def from_polar(wp, hp, wr, hr):
    """Polar indices (radius column, angle row) of an image point."""
    cx, cy = (wr - 1) / 2.0, (hr - 1) / 2.0
    rm = math.floor(max(cx, cy))
    out = []
    for y in range(hr):
        out.append([])
        for x in range(wr):
            r = math.hypot(x - cx, y - cy) / rm * (wp - 1)
            th = math.atan2(y - cy, x - cx)
            if th < -1e-12:
                th += 2 * math.pi
            out[-1].append((min(r, wp - 1.0),
                            max(th, 0.0) / (2 * math.pi) * (hp - 1)))
    return out


def sample(m, coord):
    return [[bilin(m, y, x) for x, y in r] for r in coord]


def coords(ctx, wr, hr, wp, hp):
    """Both coordinate maps; on the ray of angle zero the first and the last
    row of the polar image are the same ray."""
    m = ctx.mod(UT)
    x, y = m.rectangular_from_polar(wr, hr, wp, hp)
    want = to_polar(wr, hr, wp, hp)
    ctx.equal('x', x, [[p[0] for p in r] for r in want], tol=1e-5)
    ctx.equal('y', y, [[p[1] for p in r] for r in want], tol=1e-5)
    r, t = m.polar_from_rectangular(wp, hp, wr, hr)
    want = from_polar(wp, hp, wr, hr)
    ctx.equal('radius', r, [[p[0] for p in q] for q in want], tol=1e-4)
    tl = ctx.nested(t)
    for i, q in enumerate(want):
        for j, p in enumerate(q):
            v = tl[i][j]
            e = abs(p[1]) < 1e-6
            if abs(i - (hr - 1) / 2) < 1e-9 and abs(j - (wr - 1) / 2) < 1e-9:
                continue        # the centre has no angle
            ctx.check('angle', ctx.any(
                [abs(v - p[1]) < 1e-4] +
                ([abs(v - (hp - 1)) < 1e-4] if e else [])))


def forward(ctx, n, given=False):
    m = ctx.mod(UT)
    np = ctx.np
    a = ctx.array('a', (n, n))
    keep = np.copy(a)
    k = {}
    want = to_polar(n, n, n, n)
    if given:       # any coordinates may be handed in
        want = [[(min(i * 0.5, n - 1), j) for i in range(n)]
                for j in range(n)]
        k['coord_mat'] = (np.asarray([[p[0] for p in r] for r in want]),
                          np.asarray([[p[1] for p in r] for r in want]))
    out = m.transform_slice_forward(a, **k)
    ctx.equal('polar slice', out, sample(ctx.nested(a), want))
    ctx.equal('input untouched', a, keep)


def backward(ctx, n, given=False):
    m = ctx.mod(UT)
    np = ctx.np
    a = ctx.array('a', (n, n))
    keep = np.copy(a)
    # rows of angle 0 and 2 pi are the same ray
    ctx.assume(ctx.all([abs(a[0, j] - a[n - 1, j]) < 1e-9
                        for j in range(n)]))
    # all angles agree at the centre
    ctx.assume(ctx.all([abs(a[0, 0] - a[i, 0]) < 1e-9 for i in range(n)]))
    k = {}
    want = from_polar(n, n, n, n)
    if given:
        want = [[(j, min(i * 0.5, n - 1)) for i in range(n)]
                for j in range(n)]
        k['coord_mat'] = (np.asarray([[float(p[0]) for p in r]
                                      for r in want]),
                          np.asarray([[p[1] for p in r] for r in want]))
    out = m.transform_slice_backward(a, **k)
    ctx.equal('slice', out, sample(ctx.nested(a), want))
    ctx.equal('input untouched', a, keep)


def roundtrip(ctx, n):
    """Forward and back: every pixel of the horizontal and the vertical line
    through the centre that falls on the polar grid keeps its value, and a
    cone, symmetric about the centre, keeps its shape along all rays."""
    m = ctx.mod(UT)
    a = ctx.array('a', (n, n))
    out = m.transform_slice_backward(m.transform_slice_forward(a))
    c = n // 2
    for i in range(n):
        ctx.check('horizontal line', abs(out[c, i] - a[c, i]) < 1e-3)
        ctx.check('vertical line', abs(out[i, c] - a[i, c]) < 1e-3)


def cone(ctx, n):
    """A polar slice a + b k (radius) comes back as a + b r everywhere in
    the circle."""
    m = ctx.mod(UT)
    u, v = ctx.real('u', -2, 2), ctx.real('v', -2, 2)
    pol = ctx.np.asarray([[u + v * k for k in range(n)] for _ in range(n)])
    out = m.transform_slice_backward(pol)
    c = (n - 1) / 2.0
    rm = math.floor(c)
    for i in range(n):
        for j in range(n):
            r = math.hypot(i - c, j - c)
            if r <= rm + 1e-9:
                ctx.check('cone', abs(out[i, j] - (
                    u + v * (r * (n - 1) / rm))) < 1e-3)


def refused(ctx, h, w):
    m, p = ctx.mod(UT), ctx.mod(POST)
    a = ctx.array('a', (h, w))
    for f in (m.transform_slice_forward, m.transform_slice_backward,
              p.remove_ring_based_fft, p.remove_ring_based_wavelet_fft):
        ctx.raises('not square', ValueError, lambda: f(a))
    b = ctx.array('b', (w, w))
    for f in (m.transform_slice_forward, m.transform_slice_backward):
        ctx.raises('other coordinates', ValueError, lambda: f(
            b, (a[:, :w], a[:, :w])))


def disc(m, n):
    c = n // 2
    return [[v if (i - c) ** 2 + (j - c) ** 2 <= c * c + 1e-9 else 0.0
             for j, v in enumerate(r)] for i, r in enumerate(m)]


def ring_fft(ctx, n, u, k, v, sort=False, default=False):
    """Stripe removal in polar coordinates, back, inside the circle."""
    m, p, r = ctx.mod(UT), ctx.mod(POST), ctx.mod(REM)
    np = ctx.np
    a = ctx.array('a', (n, n), 1, 2)
    keep = np.copy(a)
    pol = m.transform_slice_forward(a)
    fix = r.remove_stripe_based_fft(pol, u, k, v, sort=sort)
    want = disc(ctx.nested(m.transform_slice_backward(fix)), n)
    out = p.remove_ring_based_fft(a) if default else \
        p.remove_ring_based_fft(a, u, k, v, sort=sort)
    ctx.equal('rings removed', out, want)
    ctx.equal('input untouched', a, keep)


def ring_wavelet(ctx, n, level, size, wav, where, sort=False):
    m, p, r = ctx.mod(UT), ctx.mod(POST), ctx.mod(REM)
    base = _back(n, n)
    if sort:        # a symbolic level does not change the order
        t = ctx.real('t', -1, 1)
        b = [[v + t for v in r] for r in base]
    else:
        b, x = _sym_pixels(ctx, base, where)
    a = ctx.np.asarray(b)
    keep = ctx.np.copy(a)
    pol = m.transform_slice_forward(a)
    fix = r.remove_stripe_based_wavelet_fft(pol, level, size, wav, sort=sort)
    want = disc(ctx.nested(m.transform_slice_backward(fix)), n)
    out = p.remove_ring_based_wavelet_fft(a, level, size, wav, sort=sort)
    ctx.equal('rings removed', out, want)
    ctx.equal('input untouched', a, keep)


for s in ((5, 5, 5, 5), (6, 6, 6, 6), (9, 5, 7, 9), (4, 7, 5, 13),
          (33, 33, 33, 33)):
    P.case(coords, wr=s[0], hr=s[1], wp=s[2], hp=s[3])
for n in (3, 4, 5, 6, 9):
    P.case(forward, n=n)
    P.case(backward, n=n)
P.case(forward, n=4, given=True)
P.case(backward, n=4, given=True)
for n in (5, 9):
    P.case(roundtrip, n=n)
P.case(roundtrip, n=17, tier='thorough')
for n in (4, 5, 6, 9, 12):
    P.case(cone, n=n)
P.case(refused, h=3, w=4)
P.case(refused, h=5, w=4)
P.case(ring_fft, n=5, u=2, k=1, v=1)
P.case(ring_fft, n=5, u=2, k=2, v=0)
P.case(ring_fft, n=4, u=1, k=1, v=0)
P.case(ring_fft, n=2, u=1, k=1, v=0, sort=True)
P.case(ring_fft, n=3, u=1, k=1, v=0, sort=True)
P.case(ring_fft, n=3, u=20, k=8, v=1, default=True)
P.case(ring_wavelet, n=33, level=1, size=1, wav='db2',
       where=((16, 20), (4, 16), (10, 10)))
P.case(ring_wavelet, n=33, level=5, size=2, wav='db1',
       where=((16, 20), (20, 8)))
P.case(ring_wavelet, n=33, level=1, size=1, wav='db2',
       where=((16, 20),), sort=True)
