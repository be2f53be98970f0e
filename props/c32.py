"""Searches of the centre of rotation and phase correlation."""
import math
import numpy as onp
import scipy.ndimage as ndi
from engine.registry import Prop
from props.common import linmap

P = Prop('C32', ['prep.calculation.find_center_vo',
                 'prep.calculation.coarse_search_cor',
                 'prep.calculation.fine_search_cor',
                 'prep.calculation.downsample_cor',
                 'prep.calculation.calculate_center_metric',
                 'prep.calculation.make_inverse_double_wedge_mask',
                 'prep.calculation.complex_gradient',
                 'prep.calculation.find_shift_based_phase_correlation',
                 'prep.calculation.find_center_based_phase_correlation'],
         'sinograms of 10..40 columns (and 1300, to be downsampled), true '
         'centre any number in the range searched, metric that grows with '
         'the distance from it; images of 2..4 x 3..6 pixels, all symbolic, '
         'for the metric; listed sinograms and images times any gain',
         ['float rounding', 'where the true centre is symbolic the metric '
          'is stood in by the distance from it'],
         'whether the metric has its minimum at the true centre for '
         'sinograms that are not listed')
CA = 'algotom.prep.calculation'


class Metric:
    """Distance from the true centre, in pixels of the full image."""

    def __init__(self, ctx, m, true, ncol):
        self.ctx, self.m, self.true, self.ncol = ctx, m, true, ncol
        self.seen = []

    def __enter__(self):
        self.real = self.m.calculate_center_metric
        self.m.calculate_center_metric = self.run
        return self

    def __exit__(self, *a):
        self.m.calculate_center_metric = self.real

    def run(self, center, sino, flip, comp, mask):
        h, w = sino.shape
        d = self.ncol // w
        self.ctx.check('sizes', tuple(mask.shape) == (2 * h, w) and
                       tuple(flip.shape) == tuple(comp.shape) == (h, w))
        self.ctx.check('centre inside', 0 <= center and center <= w - 1)
        self.seen.append(center)
        return abs(center * d + (d - 1) / 2 - self.true)


def nearest(ctx, label, got, where, true):
    """None of the places is nearer."""
    for v in where:
        ctx.check(label, abs(got - true) <= abs(v - true) + 1e-6)


def flatsino(ctx, h, w):
    return ctx.np.asarray([[float((3 * i + 7 * j) % 11) for j in range(w)]
                           for i in range(h)])


def coarse(ctx, w, start, stop, ncore, denoise=True, h=10):
    """The whole column (of start..stop, both included) with the least
    metric."""
    m = ctx.mod(CA)
    t = ctx.real('true', -2, w + 1)
    with Metric(ctx, m, t, w):
        got = m.coarse_search_cor(flatsino(ctx, h, w), start, stop,
                                  ncore=ncore, denoise=denoise)
    lo, hi = min(max(int(start), 0), w - 1), min(max(int(stop), 0), w - 1)
    nearest(ctx, 'best', got, range(lo, hi + 1), t)
    ctx.check('a candidate', any(got == v for v in range(lo, hi + 1)))


def fine(ctx, w, start, radius, step, ncore, denoise=True, h=10):
    """The best of start - radius, ..., start + radius in steps."""
    m = ctx.mod(CA)
    t = ctx.real('true', -2, w + 1)
    with Metric(ctx, m, t, w):
        got = m.fine_search_cor(flatsino(ctx, h, w), start, radius, step,
                                ncore=ncore, denoise=denoise)
    n = int(round(2 * radius / step))
    nearest(ctx, 'best', got, [min(max(start - radius + k * step, 0), w - 1)
                               for k in range(n + 1)], t)


def whole(ctx, w, start, stop, step, h=10, **k):
    """Not further from the true centre than half a step."""
    m = ctx.mod(CA)
    lo = w // 2 - w // 16 if start is None else start
    hi = w // 2 + w // 16 if stop is None else stop
    t = ctx.real('true', lo, hi)
    a = flatsino(ctx, h, w)
    keep = ctx.np.copy(a)
    with Metric(ctx, m, t, w) as z:
        got = m.find_center_vo(a, start, stop, step=step, **k)
        r = k.get('radius', 4)
    ctx.check('centre', abs(got - t) <= step / 2 + 1e-6)
    ctx.equal('input untouched', a, keep)


def usual(ctx, w, h=10):
    """Default range, step and radius."""
    m = ctx.mod(CA)
    t = ctx.real('true', w // 2 - w // 16, w // 2 + w // 16)
    with Metric(ctx, m, t, w):
        got = m.find_center_vo(flatsino(ctx, h, w))
    ctx.check('centre', abs(got - t) <= 0.125 + 1e-6)


def arcs(nrow, ncol, cen, spots):
    """Sinogram of discs about a centre."""
    th = onp.linspace(0, math.pi, nrow)
    j = onp.arange(ncol)
    s = onp.zeros((nrow, ncol))
    for x, y, r, v in spots:
        at = cen + x * onp.cos(th) - y * onp.sin(th)
        d = (j[None] - at[:, None]) / r
        s += v * onp.sqrt(onp.clip(1 - d * d, 0, None))
    return s


SPOTS = [(3, 1, 2.2, 1), (-4, 2, 1.6, .7), (1, -5, 2, .5)]


def planted(ctx, h, w, cen, tol, what):
    """A sinogram of discs, whatever its gain."""
    m = ctx.mod(CA)
    np = ctx.np
    ctx.single_bounds()
    g = ctx.real('g', 0.5, 4)
    s = onp.round(arcs(h, w, cen, SPOTS), 6).tolist()
    a = np.asarray([[v * g for v in r] for r in s])
    c = int(cen)
    if what == 'vo':
        got = m.find_center_vo(a, c - 1, c + 2, step=0.25, radius=1,
                               ncore=1)
    elif what == 'coarse':
        got = m.coarse_search_cor(a, c - 3, c + 3, ncore=1)
    else:
        got = m.fine_search_cor(a, c, 1.5, 0.5, ncore=1, denoise=False)
    ctx.check('centre', abs(got - cen) <= tol)


def stacked(a, s):
    """Sinogram of 360 degrees by flipping about (w - 1 + s) / 2."""
    h, w = a.shape
    low = ndi.shift(a[:, ::-1], (0, s), order=3, prefilter=True) if s % 1 \
        else onp.roll(a[:, ::-1], int(s), axis=1)
    n = int(math.ceil(s)) if s >= 0 else int(math.floor(s))
    if n >= 0:
        low[:, :n] = a[::-1][:, :n]
    else:
        low[:, n:] = a[::-1][:, n:]
    return onp.vstack((a, low))


def metric(ctx, h, w, center, gain=False):
    """Mean magnitude of the masked spectrum of the 360-degree sinogram
    made about the centre; columns without a partner are taken from the
    other end of the angles."""
    m = ctx.mod(CA)
    np = ctx.np
    if gain:
        ctx.single_bounds()
        g = ctx.real('g', 0.5, 4)
        a = np.asarray([[float(v) * g for v in r] for r in BASE[:h, :w]])
    else:
        a = ctx.array('a', (h, w))
    keep = np.copy(a)
    s = 2 * (center - (w - 1) / 2)
    full = np.asarray(linmap(lambda q: stacked(q, s), ctx.nested(a)))
    mask = onp.asarray([[(3 * i + j * j) % 4 for j in range(w)]
                        for i in range(2 * h)]) / 2.0
    got = m.calculate_center_metric(center, a, np.fliplr(a), np.flipud(a),
                                    np.asarray(mask.tolist()))
    f = np.abs(np.fft.fftshift(np.fft.fft2(full)))
    ctx.equal('metric', [got], [np.mean(f * np.asarray(mask.tolist()))])
    ctx.equal('input untouched', a, keep)


def wedge(ctx, h, w, hor, ver, lo=0.5):
    """1 where a sinogram of an object of that radius has no signal, except
    near the axes; mirrored about the middle up to one pixel."""
    m = ctx.mod(CA)
    r = ctx.real('r', lo, w)
    k = {}
    if hor is not None:
        k['hor_drop'] = hor
    if ver is not None:
        k['ver_drop'] = ver
    out = m.make_inverse_double_wedge_mask(h, w, r, **k)
    ctx.check('shape', tuple(out.shape) == (h, w))
    out = ctx.nested(out)
    yc, xc = h // 2, w // 2
    hor = min(20, int(0.05 * h)) if hor is None else \
        min(max(int(hor), 1), h // 3)
    ver = 1 if ver is None else min(max(int(ver), 1), w // 3)
    for i in range(h):
        e = abs(i - yc) * (h - 1) / (h * 2 * math.pi) * w   # edge times r
        for j in range(w):
            d = abs(j - xc)
            v = out[i][j]
            ctx.check('0 or 1', ctx.any([v == 0.0, v == 1.0]))
            if abs(i - yc) <= hor or d <= ver:
                ctx.check('near an axis', v == 0.0)
                continue
            ctx.check('no signal', ctx.implies(d * r < e - 1e-3, v == 1.0))
            ctx.check('signal', ctx.implies((d - 1) * r > e + 1e-3,
                                            v == 0.0))


def blocks(ctx, h, w, p, q):
    """Means of whole blocks; what is left over at the end is cut."""
    m = ctx.mod(CA)
    a = ctx.array('a', (h, w))
    keep = ctx.np.copy(a)
    out = m.downsample_cor(a, p, q)
    p, q = min(max(int(p), 1), h // 2), min(max(int(q), 1), w // 2)
    b = ctx.nested(a)
    ctx.equal('means', out, [[sum(
        b[i * p + y][j * q + x] for y in range(p) for x in range(q)) / (p * q)
        for j in range(w // q)] for i in range(h // p)])
    ctx.equal('input untouched', a, keep)


def slope(ctx, h, w):
    """Differences of pixels two apart along both axes, none at borders."""
    m = ctx.mod(CA)
    a = ctx.array('a', (h, w))
    keep = ctx.np.copy(a)
    out = m.complex_gradient(a)
    b = ctx.nested(a)
    ctx.equal('along x', out.real, [[
        b[i][j + 2] - b[i][j] if 2 <= j < w - 2 else 0.0 for j in range(w)]
        for i in range(h)])
    ctx.equal('along y', out.imag, [[
        b[i + 2][j] - b[i][j] if 2 <= i < h - 2 else 0.0 for j in range(w)]
        for i in range(h)])
    ctx.equal('input untouched', a, keep)


BASE = onp.random.RandomState(5).randint(1, 30, (16, 16)) / 4.0


def smooth(h, w):
    return onp.round(ndi.gaussian_filter(BASE[:h, :w], 0.6, mode='wrap'), 4)


def moved(ctx, h, w, dy, dx, gradient, tol, which=1):
    """An image moved round by whole pixels, of any gain (and, with
    gradients, any offset)."""
    m = ctx.mod(CA)
    np = ctx.np
    ctx.single_bounds()
    g = ctx.real('g', 0.5, 4)
    b = smooth(h, w)
    c = onp.roll(b, (dy, dx), (0, 1))
    o = ctx.real('o', -3, 3) if gradient else 0.0
    x = [[v * g + o for v in r] for r in (c if which == 1 else b).tolist()]
    y = (b if which == 1 else c).tolist()
    if which == 2:
        x, y = y, x
    got = m.find_shift_based_phase_correlation(
        np.asarray(x), np.asarray(y), gradient=gradient)
    ctx.check('two numbers', len(got) == 2)
    ctx.equal('shift', list(got), [float(dy), float(dx)], tol=tol)


def mirrored(ctx, w, s, flip, gradient, h=8, tol=0.3):
    """Projections at 0 and 180 degrees about (w - 1 + s) / 2."""
    m = ctx.mod(CA)
    np = ctx.np
    ctx.single_bounds()
    g = ctx.real('g', 0.5, 4)
    b = smooth(h, w)
    c = onp.roll(b[:, ::-1], s, 1)
    if not flip:
        c = c[:, ::-1]
    y = np.asarray([[v * g for v in r] for r in c.tolist()])
    k = {} if flip else {'flip': False}
    got = m.find_center_based_phase_correlation(
        np.asarray(b.tolist()), y, gradient=gradient, **k)
    ctx.check('centre', abs(got - (w - 1 + s) / 2) <= tol)


for w, start, stop, ncore in ((24, 8, 15, 1), (24, 8, 15, 3), (12, -3, 4, 1),
                              (12, 8, 30, 2), (13, 6.7, 6.9, 1),
                              (16, 4.5, 11.2, 1)):
    P.case(coarse, w=w, start=start, stop=stop, ncore=ncore)
P.case(coarse, w=20, start=5, stop=14, ncore=1, denoise=False)
for w, start, radius, step, ncore in (
        (24, 11, 2, 0.5, 1), (24, 11.5, 1, 0.25, 2), (12, 1, 3, 1, 1),
        (12, 10, 3, 0.75, 1), (20, 9.25, 2, 0.4, 3)):
    P.case(fine, w=w, start=start, radius=radius, step=step, ncore=ncore)
for w, start, stop, step, k in (
        (24, 8, 15, 0.5, {}), (24, 8, 15, 0.25, {'radius': 1}),
        (24, 9, 14, 0.5, {'dsp': False, 'radius': 2}),
        (24, 9, 14, 1.0, {'dsp': False, 'ncore': 1, 'ratio': 0.8}),
        (40, 17, 23, 0.5, {'radius': 1, 'ncore': 1, 'hor_drop': 2,
                           'ver_drop': 2}),
        (1300, 645, 650, 0.5, {'radius': 1, 'ncore': 1}),
        (1300, 651, 654, 0.5, {'radius': 4}),
        (1300, 648, 655, 1.0, {'radius': 1, 'dsp': False, 'h': 4}),
        (1950, 966, 976, 0.5, {'radius': 1, 'h': 6}),
        (24, 10, 12, 0.5, {'radius': 2, 'h': 1850})):
    P.case(whole, w=w, start=start, stop=stop, step=step, **k)
P.case(usual, w=24)
P.case(usual, w=50)
for h, w, cen in ((10, 20, 9.5), (12, 24, 11), (12, 24, 12.75)):
    P.case(planted, h=h, w=w, cen=cen, tol=0.5, what='coarse')
    P.case(planted, h=h, w=w, cen=cen, tol=0.5, what='fine')
P.case(planted, h=12, w=24, cen=11.0, tol=0.25, what='vo')
P.case(planted, h=12, w=24, cen=12.75, tol=0.25, what='vo')
for c in (1.5, 1.0, 2.5):
    P.case(metric, h=2, w=4, center=c)
for h, w, c in ((3, 5, 2.5), (4, 6, 2.75), (4, 6, 2.2), (5, 8, 4.0),
                (4, 7, 4.3), (5, 7, 1.6), (3, 8, 6.25), (4, 5, 2.0)):
    P.case(metric, h=h, w=w, center=c, gain=True)
for h, w, hor, ver in ((10, 8, None, None), (12, 9, 1, None), (9, 12, 2, 3),
                       (14, 7, None, 5), (8, 8, 0, 0), (21, 6, 3, 1)):
    P.case(wedge, h=h, w=w, hor=hor, ver=ver)
for h, w, p, q in ((4, 6, 2, 2), (5, 7, 2, 3), (4, 5, 9, 1), (3, 8, 0, 9),
                   (6, 6, 1, 2)):
    P.case(blocks, h=h, w=w, p=p, q=q)
for h, w in ((5, 6), (6, 5), (4, 4)):
    P.case(slope, h=h, w=w)
for dy, dx in ((0, 0), (2, 3), (-3, 1), (1, -4), (3, 4)):
    P.case(moved, h=9, w=10, dy=dy, dx=dx, gradient=False, tol=0.05)
P.case(moved, h=8, w=9, dy=-1, dx=2, gradient=False, tol=0.05, which=2)
for dy, dx in ((0, 0), (2, 1), (-1, -2)):
    P.case(moved, h=12, w=12, dy=dy, dx=dx, gradient=True, tol=0.5)
for w, s in ((12, 0), (12, 3), (13, -2), (12, -5)):
    for flip in (True, False):
        P.case(mirrored, w=w, s=s, flip=flip, gradient=False)
P.case(mirrored, w=14, s=2, flip=True, gradient=True, h=12, tol=0.4)
