"""Tilt and roll of the rotation axis from the path of a dot."""
import math
import numpy as onp
import scipy.ndimage as ndi
from engine.registry import Prop
from props.common import linmap, mean

P = Prop('C31', ['util.calibration.fit_points_to_ellipse',
                 'util.calibration.find_tilt_roll_based_linear_fit',
                 'util.calibration.find_tilt_roll_based_ellipse_fit',
                 'util.calibration.find_tilt_roll'],
         'paths of 5..12 points on listed ellipses (axes, angle), any center, '
         'any size, either sign of the singular vector; path of 4..12 points '
         'of any heights', ['rounding', 'the singular vector of the smallest '
                            'singular value spans the conics through the '
                            'points (any sign and length)'],
         'points with noise')
CA = 'algotom.util.calibration'


def path(a, b, deg, n):
    """Points of the ellipse with axes a, b (whole lengths), turned."""
    t = onp.linspace(0.3, 0.3 + 2 * math.pi, n, endpoint=False)
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    x = 0.5 * (a * onp.cos(t) * c - b * onp.sin(t) * s)
    y = 0.5 * (a * onp.cos(t) * s + b * onp.sin(t) * c)
    return x.tolist(), y.tolist()


def conic(a, b, deg):
    """Ax2 + Bxy + Cy2 = 1 of that ellipse."""
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    p, q = 4.0 / a ** 2, 4.0 / b ** 2
    return (p * c * c + q * s * s, 2 * (p - q) * c * s,
            p * s * s + q * c * c)


class Svd:
    """Decomposition of the points on a known conic."""

    def __init__(self, ctx, vec):
        self.ctx, self.vec = ctx, vec

    def __enter__(self):
        c = self.ctx
        if c.sym:
            c.np.linalg.svd = self.run

    def __exit__(self, *a):
        if self.ctx.sym:
            del c_del(self.ctx).svd

    def run(self, A, full_matrices=True, **k):
        c = self.ctx
        c.check('design', tuple(A.shape) == (self.vec[1], 6))
        for r in c.nested(A):
            z = sum(p * q for p, q in zip(r, self.vec[0]))
            c.check('points lie on the conic', abs(z) < 1e-3)
        t = self.vec[2]
        if self.vec[1] < 6 and not full_matrices:   # no zero singular value
            z = self.vec[0]
            return None, None, c.np.asarray([[0.0] * 6] * 4 + [
                [z[2], z[3], -z[0], -z[1], 0.0, 0.0]])
        v = [t * q for q in self.vec[0]]
        return None, None, c.np.asarray([[0.0] * 6] * 5 + [v])


def c_del(ctx):
    return ctx.np.linalg


def turned(d):
    """Angle of a line, in (-90, 90]."""
    while d > 90:
        d -= 180
    while d <= -90:
        d += 180
    return d


def setting(ctx, a, b, deg, n, what, t):
    """Ellipse of any size around zero, or of a fixed size anywhere."""
    s, p, q = 1.5, 0.0, 0.0
    if what == 'size':
        s = ctx.real('s', 0.5, 4)
    else:
        p, q = ctx.real('xc', -9, 9), ctx.real('yc', -9, 9)
    x, y = path(a, b, deg, n)
    X = [s * v + p for v in x]
    Y = [s * v + q for v in y]
    A, B, C = conic(a, b, deg)
    vec = [A, B, C, -2 * A * p - B * q, -2 * C * q - B * p,
           A * p * p + B * p * q + C * q * q - 1.0 * s * s]
    return s, p, q, ctx.np.asarray(X), ctx.np.asarray(Y), (vec, n, t)


def ellipse(ctx, a, b, deg, n, what='size', t=0.7):
    """Center, axes and angle of the ellipse the points lie on."""
    m = ctx.mod(CA)
    s, p, q, X, Y, vec = setting(ctx, a, b, deg, n, what, t)
    with Svd(ctx, vec):
        roll, M, N, xc, yc = m.fit_points_to_ellipse(X, Y)
        if what == 'size':
            t2, r2 = m.find_tilt_roll_based_ellipse_fit(X, Y)
    if a < b:
        a, b, deg = b, a, deg + 90
    ctx.equal('roll', [roll], [turned(deg)])
    ctx.equal('axes', [M, N], [s * a, s * b], tol=1e-2)
    ctx.equal('center', [xc, yc], [p, q])
    if what == 'size':
        ctx.equal('roll', [r2], [turned(deg)])
        ctx.equal('tilt', [t2], [math.degrees(math.atan2(b, a))])


def hyperbola(ctx, n=8, t=1.0):
    """Points that lie on no ellipse are refused, and the linear fit takes
    over."""
    m = ctx.mod(CA)
    np = ctx.np
    s = ctx.real('s', 2, 4)
    z = onp.linspace(-1.5, 1.4, n)
    x, y = (2 * onp.sinh(z)).tolist(), (onp.cosh(z)).tolist()
    X, Y = np.asarray([s * v for v in x]), np.asarray([s * v for v in y])
    vec = [0.25, 0.0, -1.0, 0.0, 0.0, s * s]
    with Svd(ctx, (vec, n, t)):
        ctx.raises('no ellipse', ValueError,
                   lambda: m.fit_points_to_ellipse(X, Y))
        t1, r1 = m.find_tilt_roll_based_ellipse_fit(X, Y)
        ctx.check('no ellipse', t1 is None and r1 is None)
        got = m.find_tilt_roll(X, Y)
    ctx.equal('linear fit instead', list(got), list(
        m.find_tilt_roll_based_linear_fit(X, Y)))


def straight(ctx, xs, what):
    """Least-squares line; the largest smoothed distance to it is half the
    minor axis, the largest distance of two points the major one."""
    m = ctx.mod(CA)
    np = ctx.np
    n = len(xs)
    g, o = 1.25, 0.0
    if what == 'size':
        g = ctx.real('g', 0.5, 2)
    else:
        o = ctx.real('o', -5, 5)
    base = [((3 * i) % 5 - 2) * 0.4 + 0.7 * v for i, v in enumerate(xs)]
    X = np.asarray([v * g for v in xs])
    Y = np.asarray([v * g + o for v in base])
    tilt, roll = m.find_tilt_roll_based_linear_fit(X, Y)
    a, c = onp.polyfit(xs, base, 1)
    d = onp.abs(a * onp.asarray(xs) - base + c) / math.sqrt(a * a + 1)
    minor = 2 * ndi.gaussian_filter1d(d, 2).max()
    major = max(math.hypot(xs[i] - xs[j], base[i] - base[j])
                for i in range(n) for j in range(i))
    ctx.equal('roll', [roll], [math.degrees(math.atan(a))])
    if what == 'place':
        ctx.equal('tilt', [tilt], [math.degrees(math.atan2(minor, major))])
    ctx.equal('chosen', list(m.find_tilt_roll(X, Y, method='linear')),
              [tilt, roll])


def chosen(ctx, a, b, deg, n, t=-0.6):
    """The ellipse is used for paths that are wider than a pixel from the
    line, the line for others."""
    m = ctx.mod(CA)
    s, p, q, X, Y, vec = setting(ctx, a, b, deg, n, 'size', t)
    x, y = path(a, b, deg, n)
    u, c = onp.polyfit(x, y, 1)
    d = onp.abs(u * onp.asarray(x) - y + c) / math.sqrt(u * u + 1)
    wide = float(ndi.gaussian_filter1d(d, 2).max())
    ctx.assume(abs(s * wide - 1.0) > 1e-3)
    with Svd(ctx, vec):
        tilt, roll = m.find_tilt_roll(X, Y)
    if s * wide < 1.0:
        want = m.find_tilt_roll_based_linear_fit(X, Y)
        ctx.equal('linear fit', [tilt, roll], list(want))
    else:
        if a < b:
            a, b, deg = b, a, deg + 90
        ctx.equal('ellipse', [tilt, roll], [math.degrees(math.atan2(b, a)),
                                            turned(deg)])


def refused(ctx):
    m = ctx.mod(CA)
    np = ctx.np
    x, y = ctx.array('x', (7,)), ctx.array('y', (6,))
    ctx.raises('length', ValueError, lambda: m.fit_points_to_ellipse(x, y))
    ctx.raises('length', ValueError, lambda: m.find_tilt_roll(x, y))
    ctx.raises('length', ValueError,
               lambda: m.find_tilt_roll(x, y, method='linear'))
    for k in ('Linear', 'circle', '', None):
        ctx.raises('method', ValueError,
                   lambda: m.find_tilt_roll(x, x, method=k))


for a, b, deg, n in ((8, 2, 10, 8), (8, 2, -10, 8), (9, 1, 60, 7),
                     (9, 1, -60, 7), (6, 3, 85, 12), (6, 3, -85, 6),
                     (5, 4, 40, 6), (2, 8, 20, 8), (3, 7, -35, 9),
                     (8, 3, 25, 5), (4, 7, -50, 5)):
    for what in ('size', 'place'):
        for t in (0.7, -0.4):
            P.case(ellipse, a=a, b=b, deg=deg, n=n, what=what, t=t)
for t in (1.0, -0.5):
    P.case(hyperbola, t=t)
for what in ('size', 'place'):
    P.case(straight, xs=[0.0, 1.0, 2.0, 3.0, 4.5, 6.0], what=what)
    P.case(straight, xs=[3.0, -1.0, 2.0, 0.5, 4.5, 6.0, 7.0, -2.0],
           what=what)
    P.case(straight, xs=[0.0, 10.0, 20.0, 30.0], what=what)
P.case(chosen, a=8, b=1.5, deg=10, n=10)
P.case(chosen, a=6, b=2, deg=-20, n=12, t=0.3)
P.case(refused)
