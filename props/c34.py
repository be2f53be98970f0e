"""Simulated masks, sinograms and artifacts."""
import math
import numpy as onp
import scipy.ndimage as ndi
from engine.registry import Prop
from props.common import linmap, mean, distinct, ranks

P = Prop('C34', ['util.simulation.make_elliptic_mask',
                 'util.simulation.make_rectangular_mask',
                 'util.simulation.make_triangular_mask',
                 'util.simulation.make_sinogram',
                 'util.simulation.add_noise',
                 'util.simulation.add_stripe_artifact',
                 'util.simulation.convert_to_Xray_image',
                 'util.simulation.add_background_fluctuation'],
         'masks of 9..24 pixels of listed lengths and angles anywhere '
         '(symbolic center); images of 3..5 pixels and sinograms of 3..5 x '
         '4..7 pixels, all symbolic; any noise',
         ['float rounding', 'random numbers are arbitrary numbers'],
         'the line target and the face phantom, which have no input but the '
         'size')
SI = 'algotom.util.simulation'


def local(i, j, n, p, q, deg):
    """Coordinates of a pixel in the turned system of a shape at (p, q),
    y upwards."""
    t = math.radians(deg)
    x, y = j - n // 2 - p, n // 2 - i - q
    return (x * math.cos(t) + y * math.sin(t),
            -x * math.sin(t) + y * math.cos(t))


def place(ctx, what, span=3):
    """Center of a shape: anywhere, or anywhere along one direction."""
    p = ctx.real('p', -span, span) if what in ('any', 'x') else 1.25
    q = ctx.real('q', -span, span) if what in ('any', 'y') else -0.75
    return p, q


def ellipse(ctx, n, length, deg, what, kind='tuple'):
    """1 inside, 0 outside, up to the tolerance of the border."""
    m = ctx.mod(SI)
    p, q = place(ctx, what)
    c = (p, q)
    if kind == 'single':
        c, q = p, p
    out = m.make_elliptic_mask(n, c, length, deg)
    a, b = length if isinstance(length, tuple) else (length, length)
    got = ctx.nested(out)
    ctx.check('shape', len(got) == n and len(got[0]) == n)
    for i in range(n):
        for j in range(n):
            x, y = local(i, j, n, p, q, deg)
            r = x * x / (a * a / 4) + y * y / (b * b / 4)
            ctx.check('inside', ctx.implies(r < 0.999, got[i][j] == 1.0))
            ctx.check('outside', ctx.implies(r > 1.05, got[i][j] == 0.0))


def rectangle(ctx, n, length, deg, what='any', kind='tuple'):
    m = ctx.mod(SI)
    p, q = place(ctx, what)
    c = (p, q)
    if kind == 'single':
        c, q = p, p
    got = ctx.nested(m.make_rectangular_mask(n, c, length, deg))
    a, b = length if isinstance(length, tuple) else (length, length)
    ctx.check('shape', len(got) == n and len(got[0]) == n)
    for i in range(n):
        for j in range(n):
            x, y = local(i, j, n, p, q, deg)
            ctx.check('inside', ctx.implies(ctx.all(
                [abs(x) < 0.4999 * a, abs(y) < 0.4999 * b]),
                got[i][j] == 1.0))
            ctx.check('outside', ctx.implies(ctx.any(
                [abs(x) > 0.51 * a, abs(y) > 0.51 * b]), got[i][j] == 0.0))


def triangle(ctx, n, length, deg, what='x'):
    """Height along x (pointing to the left), base along y; up to about a
    pixel."""
    m = ctx.mod(SI)
    p, q = place(ctx, what, 1)
    got = ctx.nested(m.make_triangular_mask(n, (p, q), length, deg))
    a, b = length
    h = math.hypot(a, b / 2)
    for i in range(n):
        for j in range(n):
            x, y = local(i, j, n, p, q, deg)
            d = [a / 2 - x, ((x + a / 2) * b / 2 - y * a) / h,
                 ((x + a / 2) * b / 2 + y * a) / h]
            ctx.check('0 or 1', ctx.any([got[i][j] == 0.0,
                                         got[i][j] == 1.0]))
            ctx.check('inside', ctx.implies(ctx.all(
                [v > 1.5 for v in d]), got[i][j] == 1.0))
            ctx.check('outside', ctx.implies(ctx.any(
                [v < -1.5 for v in d] +
                [x < -0.51 * a, abs(y) > 0.51 * b]), got[i][j] == 0.0))


def slices(q, angles, rate, mode):
    """Fourier slice theorem on the padded image, odd-sized."""
    n = len(q)
    k = int(rate * n)
    b = onp.pad(q, k, mode=mode)
    if len(b) % 2 == 0:
        b = onp.pad(b, ((0, 1), (0, 1)), mode='edge')
    s = len(b)
    c = s // 2
    F = onp.fft.fftshift(onp.fft.fft2(onp.fft.ifftshift(b)))
    rows = []
    for t in angles:
        r = onp.arange(s) - c
        x = onp.clip(c + r * math.cos(-t), 0, s - 1)
        y = onp.clip(c + r * math.sin(-t), 0, s - 1)
        g = [ndi.map_coordinates(v, [y, x], order=5, mode='reflect')
             for v in (F.real, F.imag)]
        g = onp.fft.fftshift(onp.fft.ifft(onp.fft.ifftshift(
            g[0] + 1j * g[1])))
        rows.append(g.real[k:k + n])
    return onp.asarray(rows)


def project(ctx, n, angles, rate=0.5, mode='edge', plain=False):
    """Projections of the padded image; along columns and rows they are
    sums of pixels."""
    m = ctx.mod(SI)
    np = ctx.np
    a = ctx.array('a', (n, n))
    keep = np.copy(a)
    k = {} if plain else dict(pad_rate=rate, pad_mode=mode)
    out = m.make_sinogram(a, np.asarray(angles), **k)
    ctx.check('shape', tuple(out.shape) == (len(angles), n))
    b = ctx.nested(a)
    ctx.equal('projections', out, linmap(
        lambda q: slices(q, angles, rate, mode), b))
    if rate == 0 and n % 2:
        got = ctx.nested(out)
        for t, r in zip(angles, got):
            want = None
            if abs(t) < 1e-9:
                want = [sum(b[i][j] for i in range(n)) for j in range(n)]
            elif abs(t - math.pi) < 1e-9:
                want = [sum(b[i][n - 1 - j] for i in range(n))
                        for j in range(n)]
            elif abs(t - math.pi / 2) < 1e-9:
                want = [sum(b[n - 1 - j]) for j in range(n)]
            if want:
                ctx.equal('sums of pixels', r, want)
    ctx.equal('input untouched', a, keep)


def not_square(ctx):
    m = ctx.mod(SI)
    a = ctx.array('a', (3, 4))
    ctx.raises('square', ValueError, lambda: m.make_sinogram(a, [0.0]))


class Noise:
    """Random numbers: any numbers; what was asked for is recorded."""

    def __init__(self, ctx, shape):
        self.ctx = ctx
        self.noise = ctx.array('noise', shape, -2, 2)
        self.asked = []

    def __enter__(self):
        r = self.ctx.np.random
        self.real = r.normal
        r.normal = self.normal
        return self

    def __exit__(self, *a):
        self.ctx.np.random.normal = self.real

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.asked.append((loc, scale, tuple(int(v) for v in size)))
        return self.noise


def noise(ctx, h, w, ratio):
    """Noise of that share of the mean (of the pixels that are not 0)."""
    m = ctx.mod(SI)
    np = ctx.np
    a = ctx.array('a', (h, w), 1, 4)
    a[0, 0] = 0.0
    keep = np.copy(a)
    with Noise(ctx, (h, w)) as z:
        out = m.add_noise(a, ratio)
    b = [v for r in ctx.nested(a) for v in r][1:]
    ctx.equal('noise added', out, a + z.noise)
    ctx.check('size', len(z.asked) == 1 and z.asked[0][2] == (h, w))
    ctx.equal('level', list(z.asked[0][:2]), [mean(b) * ratio,
                                              mean(b) * ratio / 2])
    ctx.equal('input untouched', a, keep)


def stripe(ctx, h, w, size, pos, ratio, kind):
    """Only the columns of the stripe change, as the type tells."""
    m = ctx.mod(SI)
    np = ctx.np
    a = ctx.array('a', (h, w), 1, 4)
    keep = np.copy(a)
    b = ctx.nested(a)
    if kind in ('partial', None):
        distinct(ctx, [[b[i][j] for i in range(h)]
                       for j in range(pos, pos + size)])
    k = {} if kind is None else {'stripe_type': kind}
    with Noise(ctx, (h, size)) as z:
        out = m.add_stripe_artifact(a, size, pos, strength_ratio=ratio, **k)
    s = min(max(ratio, 0.0), 1.0)
    want = [list(r) for r in b]
    top = b[0][0]
    for r in b:
        for v in r:
            top = ctx.max(top, v)
    n = int((1.0 - s) * h)
    for j in range(size):
        col = [b[i][pos + j] for i in range(h)]
        if kind in ('partial', None):
            f = [1.0] * n + onp.linspace(1.0, 1.0 - s, h - n).tolist()
            q = ranks(ctx, col)
            for i in range(h):
                e = col[i] * f[0]
                for r in range(1, h):
                    e = ctx.ite(q[i] == r, col[i] * f[r], e)
                want[i][pos + j] = e
        else:
            for i in range(h):
                want[i][pos + j] = {
                    'dead': lambda: top * s,
                    'full': lambda: col[i] * (1 - s),
                    'fluctuating': lambda: col[i] + ctx.nested(
                        z.noise)[i][j]}[kind]()
    ctx.equal('sinogram', out, want)
    if kind == 'fluctuating':
        ctx.equal('level', list(z.asked[0][:2]), [
            0.0, s * mean([v for r in b for v in r])])
    ctx.equal('input untouched', a, keep)


def xray(ctx, h, w, top):
    """exp(-s / max): 1 where nothing absorbs, 1/e at the maximum."""
    m = ctx.mod(SI)
    np = ctx.np
    a = ctx.array('a', (h, w), 0, 4)
    keep = np.copy(a)
    b = ctx.nested(a)
    g = b[0][0]
    for r in b:
        for v in r:
            g = ctx.max(g, v)
    ctx.assume(g > 0.5)
    k = {}
    if top:
        g = ctx.real('g', 4, 9)
        k['global_max'] = g
    out = ctx.nested(m.convert_to_Xray_image(a, **k))
    ctx.equal('image', out, [[np.exp(-(v / g)) for v in r] for r in b])
    ctx.equal('input untouched', a, keep)


class Rand:
    """Listed random numbers of 0..1."""

    def __init__(self, ctx, values):
        self.ctx, self.values = ctx, list(values)

    def __enter__(self):
        r = self.ctx.np.random
        self.real = r.rand
        r.rand = self.rand

    def __exit__(self, *a):
        self.ctx.np.random.rand = self.real

    def rand(self, n):
        return self.ctx.np.asarray(self.values.pop(0))


def beam(ctx, h, w, ratio, v1, v2):
    """Every row times a Gaussian profile, narrowed and moved by at most
    the strength."""
    m = ctx.mod(SI)
    np = ctx.np
    a = ctx.array('a', (h, w), 0, 4)
    keep = np.copy(a)
    with Rand(ctx, [v1, v2]):
        out = m.add_background_fluctuation(a, ratio)
    want = []
    for i, r in enumerate(ctx.nested(a)):
        s = 0.5 * (1 - v1[i] * ratio) * w
        x = onp.arange(w) - (w - 1) / 2
        g = onp.roll(onp.exp(-0.5 * (x / s) ** 2),
                     int((0.5 - v2[i]) * ratio * w * 0.5))
        want.append([v * float(u) for v, u in zip(r, g)])
    ctx.equal('rows', out, want)
    ctx.equal('input untouched', a, keep)


for n, length, deg, what in ((11, (6, 4), 0, 'x'), (10, (7, 3), 90, 'y'),
                             (9, 5, 0.0, 'y'), (11, (8, 3), 30, 'x'),
                             (12, (3, 8), -60, 'y')):
    P.case(ellipse, n=n, length=length, deg=deg, what=what)
P.case(ellipse, n=9, length=4.5, deg=20, what='x', kind='single')
for n, length, deg in ((11, (6, 4), 0), (10, (7, 3), 90), (9, 5, 0.0),
                       (11, (8, 3), 30), (12, (3, 8), -60)):
    P.case(rectangle, n=n, length=length, deg=deg, what='x')
    P.case(rectangle, n=n, length=length, deg=deg, what='y')
P.case(rectangle, n=9, length=(4, 3), deg=25, what='any')
P.case(rectangle, n=9, length=4.5, deg=20, what='x', kind='single')
for n, length, deg, what in ((22, (12, 10), 0, 'x'), (22, (12, 10), 0, 'y'),
                             (24, (14, 9), 90, 'y'), (24, (9, 14), 35, 'x'),
                             (24, (12, 12), -120, 'y')):
    P.case(triangle, n=n, length=length, deg=deg, what=what)
A = [0.0, 0.5, math.pi / 2, 2.2, math.pi]
P.case(project, n=3, angles=A, rate=0)
P.case(project, n=5, angles=A, rate=0)
P.case(project, n=3, angles=A, plain=True)
P.case(project, n=4, angles=A, plain=True)
P.case(project, n=4, angles=A, rate=1.0, mode='constant')
P.case(project, n=4, angles=A, rate=0.25, mode='mean')
P.case(not_square)
for r in (0.1, 0.5):
    P.case(noise, h=2, w=3, ratio=r)
for kind in (None, 'partial', 'dead', 'full', 'fluctuating'):
    P.case(stripe, h=4, w=5, size=1, pos=2, ratio=0.5, kind=kind)
    P.case(stripe, h=4, w=5, size=2, pos=0, ratio=0.25, kind=kind)
    P.case(stripe, h=3, w=5, size=2, pos=3, ratio=0.6, kind=kind)
    P.case(stripe, h=3, w=4, size=1, pos=1, ratio=1.5, kind=kind)
P.case(xray, h=2, w=2, top=False)
P.case(xray, h=2, w=3, top=True)
P.case(beam, h=3, w=8, ratio=0.2, v1=[0.0, 0.5, 0.9], v2=[0.1, 0.5, 0.99])
P.case(beam, h=2, w=9, ratio=1.0, v1=[0.3, 0.8], v2=[0.0, 0.95])
