"""Stitching two images with an overlap."""
from engine.registry import Prop

P = Prop('C01', ['prep.conversion.stitch_image',
                 'prep.conversion.make_weight_matrix'],
         'image heights 1..3, widths 4..9 (16..20 for fractional overlaps), '
         'overlap 2..6, both sides, all pixel values in [0.25, 4] (signed in '
         'the no-normalisation cases), custom weights symbolic',
         ['scipy.ndimage.shift is exactly linear in the image'],
         'larger images; overlap wider than an image')

CONV = 'algotom.prep.conversion'


def _blend(ctx, a, b, ov, side, wa, wb, norm):
    """Reference composition, element by element, from the left image to the
    right image."""
    h, na = a.shape
    nb = b.shape[1]
    fac = 1.0
    if side == 1:
        left, right, wl, wr = a, b, wa, wb
    else:
        left, right, wl, wr = b, a, wb, wa
    if norm:
        if side == 1:
            m1 = sum(a[r, na - ov + k] for r in range(h) for k in range(ov))
            m2 = sum(b[r, k] for r in range(h) for k in range(ov))
        else:
            m1 = sum(a[r, k] for r in range(h) for k in range(ov))
            m2 = sum(b[r, nb - ov + k] for r in range(h) for k in range(ov))
        fac = m1 / m2
    nl, nr = left.shape[1], right.shape[1]
    out = []
    for r in range(h):
        row = []
        for x in range(nl + nr - ov):
            v = 0.0
            if x < nl:
                s = left[r, x] * wl[r][x]
                v = v + (s if side == 1 else s * fac)
            if x >= nl - ov:
                k = x - (nl - ov)
                s = right[r, k] * wr[r][k]
                v = v + (s * fac if side == 1 else s)
            row.append(v)
        out.append(row)
    return out


def _ramp(n, ov, where, h):
    w = [1.0] * n
    for k in range(ov):
        t = k / (ov - 1.0)
        if where == 'right':
            w[n - ov + k] = 1.0 - t
        else:
            w[k] = t
    return [list(w) for _ in range(h)]


def default_weights(ctx, h, w1, w2, ov, side, norm, extra):
    np = ctx.np
    m = ctx.mod(CONV)
    lo = 0.25 if norm else -4
    a = ctx.array('a', (h, w1), lo, 4)
    b = ctx.array('b', (h, w2), lo, 4)
    a0, b0 = np.copy(a), np.copy(b)
    tw = None if extra is None else w1 + w2 - ov + extra
    r = m.stitch_image(a, b, ov, side, norm=norm, total_width=tw)
    wa = _ramp(w1, ov, 'right' if side == 1 else 'left', h)
    wb = _ramp(w2, ov, 'left' if side == 1 else 'right', h)
    exp = _blend(ctx, a0, b0, ov, side, wa, wb, norm)
    if extra is not None and extra > 0:
        exp = [row + [row[-1]] * extra for row in exp]
    ctx.equal('blend', r, exp)
    ctx.equal('first image untouched', a, a0)
    ctx.equal('second image untouched', b, b0)


def custom_weights(ctx, h, w1, w2, ov, side, norm):
    np = ctx.np
    m = ctx.mod(CONV)
    lo = 0.25 if norm else -2
    a = ctx.array('a', (h, w1), lo, 2)
    b = ctx.array('b', (h, w2), lo, 2)
    wa = ctx.array('wa', (h, w1), 0, 1)
    wb = ctx.array('wb', (h, w2), 0, 1)
    r = m.stitch_image(a, b, ov, side, wei_mat1=wa, wei_mat2=wb, norm=norm)
    exp = _blend(ctx, a, b, ov, side, wa, wb, norm)
    ctx.equal('custom blend', r, exp)


def one_weight(ctx, side):
    """Only one weight given: the defaults are used for both."""
    m = ctx.mod(CONV)
    a = ctx.array('a', (2, 5), -2, 2)
    b = ctx.array('b', (2, 5), -2, 2)
    wa = ctx.array('wa', (2, 5), 0, 1)
    r = m.stitch_image(a, b, 3, side, wei_mat1=wa, norm=False)
    r2 = m.stitch_image(a, b, 3, side, norm=False)
    ctx.equal('single weight ignored', r, r2)


def scene(ctx, frac, side, base):
    """Both images are samples of one affine scene seen with a (fractional)
    overlap: the composite is that scene on a uniform grid."""
    np = ctx.np
    m = ctx.mod(CONV)
    w1, w2, h = 26, 24, 1
    ov = base + frac
    p = ctx.real('p', -2, 2)
    q = ctx.real('q', -0.5, 0.5)
    x1 = np.arange(w1) * 1.0
    x2 = np.arange(w2) * 1.0
    if side == 1:
        im1 = p + q * x1
        im2 = p + q * (x2 + (w1 - ov))
    else:
        im2 = p + q * x2
        im1 = p + q * (x1 + (w2 - ov))
    r = m.stitch_image(im1[None, :], im2[None, :], ov, side, norm=False)
    ovi = int(np.floor(ov + 0.5 + 1e-3))
    n = w1 + w2 - ovi
    ctx.equal('width', r.shape, (1, n))
    # one common sub-pixel offset for every column away from image borders
    wl = w1 if side == 1 else w2
    lo, hi = 6, n - 6
    d = r[0, lo + 1:hi] - r[0, lo:hi - 1]
    keep = [k for k in range(lo, hi - 1)
            if not (wl - 3 <= k <= wl + 2 or
                    wl - ovi - 3 <= k <= wl - ovi + 2)]
    for k in keep:
        ctx.equal('uniform grid', d[k - lo], q, tol=0.01)
    mid = r[0, wl - ovi // 2] - p - q * (wl - ovi // 2)
    ctx.check('offset below one pixel',
              ctx.all([mid <= 1.0 * abs(q) + 0.01,
                       mid >= -1.0 * abs(q) - 0.01]))


def heights(ctx, side):
    m = ctx.mod(CONV)
    a = ctx.array('a', (2, 5))
    b = ctx.array('b', (3, 5))
    ctx.raises('different heights rejected', ValueError,
               lambda: m.stitch_image(a, b, 2, side))


for side in (0, 1):
    for norm in (True, False):
        P.case(default_weights, h=2, w1=5, w2=6, ov=3, side=side, norm=norm,
               extra=None)
        P.case(default_weights, h=1, w1=7, w2=5, ov=4, side=side, norm=norm,
               extra=2)
        P.case(default_weights, h=3, w1=6, w2=6, ov=2, side=side, norm=norm,
               extra=-1)
        P.case(default_weights, h=2, w1=6, w2=6, ov=6, side=side, norm=norm,
               extra=1)
        P.case(custom_weights, h=2, w1=5, w2=4, ov=3, side=side, norm=norm)
        P.case(default_weights, tier='thorough', h=3, w1=9, w2=8, ov=5,
               side=side, norm=norm, extra=3)
    P.case(one_weight, side=side)
    P.case(heights, side=side)
    for fr in (0.25, 0.5, 0.75):
        P.case(scene, frac=fr, side=side, base=14)
