"""Tilted sinograms and profiles."""
import math
from engine.registry import Prop
from props.common import bilin

P = Prop('C09', ['prep.correction.generate_tilted_sinogram',
                 'prep.correction.generate_tilted_sinogram_chunk',
                 'prep.correction.generate_tilted_profile_line',
                 'prep.correction.generate_tilted_profile_chunk',
                 'util.utility.mapping'],
         'stacks of 1..5 projections of up to 7x8 pixels, tilts -90..180 '
         'degrees from a fixed list, every row and row range, all pixel '
         'values', [], 'tilts outside the list, larger images')
CORR = 'algotom.prep.correction'


def _exp(src, h, w, row, ang):
    xc, yc = (w - 1) / 2, (h - 1) / 2
    a = math.radians(ang)
    out = []
    for x in range(w):
        xt = (x - xc) * math.cos(a) - (row - yc) * math.sin(a)
        yt = (x - xc) * math.sin(a) + (row - yc) * math.cos(a)
        out.append(bilin(src, yc + yt, xc + xt))
    return out


def tilted(ctx, d, h, w, ang, opt):
    m = ctx.mod(CORR)
    np = ctx.np
    dat = ctx.array('dat', (d, h, w))
    keep = np.copy(dat)
    kw = {} if opt is None else {'option': opt}
    idx = list(range(*opt)) if opt else list(range(d))
    src = ctx.nested(dat)
    exp = [[_exp(src[i], h, w, r, ang) for r in range(h)] for i in idx]
    for r in range(h):
        ctx.equal('sinogram', m.generate_tilted_sinogram(dat, r, ang, **kw),
                  [e[r] for e in exp])
        ctx.equal('profile', m.generate_tilted_profile_line(
            dat[idx[0]], r, ang), exp[0][r])
    for lo in range(h):
        for hi in range(lo, h):
            ctx.equal('sinogram chunk', m.generate_tilted_sinogram_chunk(
                dat, lo, hi, ang, **kw), [e[lo:hi + 1] for e in exp])
            ctx.equal('profile chunk', m.generate_tilted_profile_chunk(
                dat[idx[-1]], lo, hi, ang), exp[-1][lo:hi + 1])
    ctx.equal('input untouched', dat, keep)


def wrong(ctx):
    m = ctx.mod(CORR)
    a2 = ctx.array('a', (3, 4))
    a3 = ctx.array('b', (2, 3, 4))
    ctx.raises('3D', ValueError,
               lambda: m.generate_tilted_sinogram(a2, 0, 1.0))
    ctx.raises('3D', ValueError,
               lambda: m.generate_tilted_sinogram_chunk(a2, 0, 1, 1.0))
    ctx.raises('2D', ValueError,
               lambda: m.generate_tilted_profile_line(a3, 0, 1.0))
    ctx.raises('2D', ValueError,
               lambda: m.generate_tilted_profile_chunk(a3, 0, 1, 1.0))


for ang in (0, 3, -7.5, 20, -45, 90, 180):
    P.case(tilted, d=2, h=5, w=6, ang=ang, opt=None)
P.case(tilted, d=1, h=5, w=5, ang=90, opt=None)
P.case(tilted, d=5, h=3, w=5, ang=10, opt=(1, 5, 2))
P.case(tilted, d=4, h=4, w=4, ang=-10, opt=(0, 3, 1))
P.case(tilted, d=1, h=7, w=3, ang=-30, opt=None)
P.case(tilted, d=1, h=2, w=8, ang=5, opt=None)
P.case(wrong)
P.case(tilted, d=1, h=9, w=10, ang=17, opt=None, tier='thorough')
