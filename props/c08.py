"""Distortion correction: one model, three access paths."""
import math
from engine.registry import Prop
from props.common import bilin

P = Prop('C08', ['prep.correction.unwarp_projection',
                 'prep.correction.unwarp_sinogram',
                 'prep.correction.unwarp_sinogram_chunk', 'util.utility.mapping'],
         'stacks of 1..5 projections of up to 7x8 pixels, distortion centres '
         'inside and outside the image, coefficient sets that displace by up '
         'to 2.5 pixels, every row and every row range; all pixel values; on '
         'a 4x4 image also every coefficient of order 0 or 1 in a '
         'small interval',
         ['the radial model displaces rows monotonically'],
         'larger images, displacement maps that fold')
CORR = 'algotom.prep.correction'


def _model(h, w, xc, yc, fact, y, x):
    xu, yu = x - xc, y - yc
    r = math.sqrt(xu * xu + yu * yu)
    f = sum(c * r ** i for i, c in enumerate(fact))
    return (min(max(yc + f * yu, 0), h - 1), min(max(xc + f * xu, 0), w - 1))


def projection(ctx, h, w, xc, yc, fact):
    m = ctx.mod(CORR)
    img = ctx.array('img', (h, w))
    keep = ctx.np.copy(img)
    out = m.unwarp_projection(img, xc, yc, list(fact))
    src = ctx.nested(img)
    exp = []
    for y in range(h):
        exp.append([bilin(src, *_model(h, w, xc, yc, fact, y, x))
                    for x in range(w)])
    ctx.equal('backward model', out, exp)
    ctx.equal('input untouched', img, keep)


def rows(ctx, d, h, w, xc, yc, fact, opt):
    """A corrected sinogram is that row of the corrected projections, alone
    or in a chunk."""
    m = ctx.mod(CORR)
    np = ctx.np
    dat = ctx.array('dat', (d, h, w))
    keep = np.copy(dat)
    kw = {} if opt is None else {'option': opt}
    idx = range(*opt) if opt else range(d)
    full = np.asarray([m.unwarp_projection(dat[i], xc, yc, list(fact))
                       for i in idx])
    for r in range(h):
        s = m.unwarp_sinogram(dat, r, xc, yc, list(fact), **kw)
        ctx.equal('row %d' % r, s, full[:, r, :])
    for lo in range(h):
        for hi in list(range(lo + 1, h + 1)) + [-1]:
            c = m.unwarp_sinogram_chunk(dat, lo, hi, xc, yc, list(fact), **kw)
            e = h if hi == -1 else hi
            ctx.equal('rows %d to %d' % (lo, hi), c, full[:, lo:e, :])
    ctx.equal('input untouched', dat, keep)


def coefficients(ctx, xc, yc, a_rng, b_rng, row):
    """The same for every pair of coefficients in a box."""
    m = ctx.mod(CORR)
    np = ctx.np
    h, w = 4, 4
    a = ctx.real('a', *a_rng) if a_rng[0] < a_rng[1] else a_rng[0]
    b = ctx.real('b', *b_rng) if b_rng[0] < b_rng[1] else b_rng[0]
    dat = ctx.array('dat', (1, h, w))
    full = m.unwarp_projection(dat[0], xc, yc, [a, b])
    s = m.unwarp_sinogram(dat, row, xc, yc, [a, b])
    ctx.equal('row', s[0], full[row])
    c = m.unwarp_sinogram_chunk(dat, row, row + 1, xc, yc, [a, b])
    ctx.equal('chunk of one row', c[0, 0], full[row])


def wrong(ctx):
    m = ctx.mod(CORR)
    img = ctx.array('img', (3, 4))
    ctx.raises('sinogram needs 3D', ValueError,
               lambda: m.unwarp_sinogram(img, 0, 1, 1, [1.0]))
    ctx.raises('chunk needs 3D', ValueError,
               lambda: m.unwarp_sinogram_chunk(img, 0, 1, 1, 1, [1.0]))


ID = (1.0,)
BAR = (1.0, 0.03, 0.002)
PIN = (0.95, -0.02, 0.001)
MIX = (1.02, -0.015)
for f in (ID, BAR, PIN, MIX):
    P.case(projection, h=5, w=6, xc=2.3, yc=1.9, fact=f)
    P.case(rows, d=2, h=5, w=6, xc=2.3, yc=1.9, fact=f, opt=None)
P.case(projection, h=7, w=8, xc=-1.5, yc=8.2, fact=(1.0, 0.01))
P.case(projection, h=3, w=8, xc=3.0, yc=1.0, fact=BAR)
P.case(rows, d=1, h=6, w=5, xc=-1.0, yc=7.0, fact=(1.0, 0.02), opt=None)
P.case(rows, d=1, h=6, w=5, xc=7.0, yc=-2.0, fact=(0.98, -0.01), opt=None)
P.case(rows, d=5, h=3, w=4, xc=1.4, yc=1.1, fact=BAR, opt=(1, 5, 2))
P.case(rows, d=4, h=3, w=4, xc=1.4, yc=1.1, fact=ID, opt=(0, 3, 1))
for row in (0, 2, 3):
    P.case(coefficients, xc=1.5, yc=1.5, a_rng=(0.9, 1.1),
           b_rng=(0.01, 0.01), row=row, budget=200)
    P.case(coefficients, xc=1.5, yc=1.5, a_rng=(1.0, 1.0),
           b_rng=(-0.02, 0.04), row=row, budget=200)
for row in (0, 2):
    P.case(coefficients, xc=1.5, yc=1.5, a_rng=(0.9, 1.1),
           b_rng=(-0.02, 0.04), row=row, budget=400, tier='thorough')
P.case(wrong)
P.case(rows, d=2, h=9, w=9, xc=4.2, yc=3.7, fact=BAR, opt=None,
       tier='thorough')
P.case(projection, h=12, w=13, xc=5.2, yc=6.7, fact=(1.0, 0.02, -0.001),
       tier='thorough')
