"""Joining two images separated by a gap."""
from engine.registry import Prop

P = Prop('C02', ['prep.conversion.join_image'],
         'image heights 2..3, widths 7..9 (24 for fractional gaps), gap 0..3 '
         'columns, both sides, optional extra width, all pixel values',
         ['scipy RectBivariateSpline / ndimage.shift are exactly linear in '
          'the image values'],
         'larger images, wider gaps')
CONV = 'algotom.prep.conversion'


def join(ctx, h, w1, w2, gap, side, norm, extra):
    np = ctx.np
    m = ctx.mod(CONV)
    lo = 0.25 if norm else -4
    a = ctx.array('a', (h, w1), lo, 4)
    b = ctx.array('b', (h, w2), lo, 4)
    a0, b0 = np.copy(a), np.copy(b)
    tw = None if extra is None else w1 + w2 + gap + extra
    r = m.join_image(a, b, gap, side, norm=norm, total_width=tw)
    n = w1 + w2 + gap
    fac = 1.0
    if norm:
        if side == 1:
            f1 = sum(a0[i, w1 - 3 + k] for i in range(h) for k in range(3))
            f2 = sum(b0[i, k] for i in range(h) for k in range(3))
        else:
            f1 = sum(a0[i, k] for i in range(h) for k in range(3))
            f2 = sum(b0[i, w2 - 3 + k] for i in range(h) for k in range(3))
        fac = f1 / f2
    if side == 1:
        left, right, fl, fr = a0, b0, 1.0, fac
    else:
        left, right, fl, fr = b0, a0, fac, 1.0
    nl = left.shape[1]
    x0, x1 = nl - 3, nl + gap + 3
    exp = []
    for i in range(h):
        row = []
        v0 = left[i, x0] * fl
        v1 = right[i, x1 - nl - gap] * fr
        for x in range(n):
            if x <= x0:
                row.append(left[i, x] * fl)
            elif x >= x1:
                row.append(right[i, x - nl - gap] * fr)
            else:
                t = (x - x0) / float(x1 - x0)
                row.append(v0 * (1.0 - t) + v1 * t)
        if extra is not None and extra > 0:
            row = row + [row[-1]] * extra
        exp.append(row)
    ctx.equal('joined', r, exp)
    ctx.equal('inputs untouched', [a, b], [a0, b0])


def scene(ctx, side, gap, frac):
    """Affine scene seen through two detectors with a fractional gap."""
    np = ctx.np
    m = ctx.mod(CONV)
    w1 = w2 = 24
    g = gap + frac
    gi = int(np.floor(g + 0.5 + 1e-3))
    p = ctx.real('p', -2, 2)
    q = ctx.real('q', -0.5, 0.5)
    x = np.arange(24) * 1.0
    if side == 1:
        im1 = p + q * x
        im2 = p + q * (x + (w1 + g))
    else:
        im2 = p + q * x
        im1 = p + q * (x + (w2 + g))
    r = m.join_image(np.vstack([im1, im1]), np.vstack([im2, im2]), g, side,
                     norm=False)
    n = 48 + gi
    ctx.equal('width', r.shape, (2, n))
    for k in range(6, n - 7):
        if not (24 - 4 <= k <= 24 + gi + 3):
            ctx.equal('uniform grid', r[0, k + 1] - r[0, k], q, tol=0.01)
    for lab, got, want in (('first column', r[0, 0], p),
                           ('last column', r[0, n - 1], p + q * (47 + g))):
        # the border is repeated, not mixed with zeros
        ctx.check(lab, ctx.all([got - want <= 0.75 * ctx.max(q, -q) + 0.02,
                                want - got <= 0.75 * ctx.max(q, -q) + 0.02]))
    ctx.equal('halves registered', r[0, 24 + gi + 8] - r[0, 12],
              q * (12 + gi + 8), tol=0.02)


def heights(ctx, side):
    m = ctx.mod(CONV)
    a = ctx.array('a', (2, 7))
    b = ctx.array('b', (3, 7))
    ctx.raises('different heights rejected', ValueError,
               lambda: m.join_image(a, b, 2, side))


for side in (0, 1):
    for norm in (True, False):
        P.case(join, h=2, w1=7, w2=8, gap=2, side=side, norm=norm,
               extra=None)
        P.case(join, h=3, w1=8, w2=7, gap=0, side=side, norm=norm, extra=2)
        P.case(join, h=2, w1=7, w2=7, gap=3, side=side, norm=norm, extra=-2)
        P.case(join, h=2, w1=9, w2=8, gap=1, side=side, norm=norm, extra=1)
    P.case(heights, side=side)
    for gap, frac in ((2, 0.25), (2, 0.75), (3, 0.5)):
        P.case(scene, side=side, gap=gap, frac=frac)
