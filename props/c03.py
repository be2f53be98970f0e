"""Composites of several images are the pairwise composition, in order."""
from engine.registry import Prop

P = Prop('C03', ['prep.conversion.stitch_image_multiple',
                 'prep.conversion.join_image_multiple'],
         '2..4 images of height 2 and width 6..7, integer overlaps/gaps 2..4, '
         'both sides per image, normalisation on and off, all pixel values',
         [], 'more images, fractional widths')
CONV = 'algotom.prep.conversion'


def fold(ctx, kind, sides, norm, extra, spare):
    np = ctx.np
    m = ctx.mod(CONV)
    one = m.stitch_image if kind == 'stitch' else m.join_image
    many = (m.stitch_image_multiple if kind == 'stitch'
            else m.join_image_multiple)
    lo = 0.25 if norm else -4
    n = len(sides) + 1
    ims = [ctx.array('im%d' % i, (2, 7 - i % 2), lo, 4) for i in range(n)]
    keep = [np.copy(x) for x in ims]
    lst = []
    for i, s in enumerate(sides):
        e = (3 if kind == 'stitch' else 1 + i, s)
        lst.append(e + (0.5,) if spare else e)
    exp = keep[0]
    for i in range(1, n):
        exp = one(exp, keep[i], lst[i - 1][0], lst[i - 1][1], norm=norm)
    w = exp.shape[1]
    tw = None if extra is None else w + extra
    if extra is not None and extra > 0:
        exp = np.pad(exp, ((0, 0), (0, extra)), mode='edge')
    r = many(ims, lst, norm=norm, total_width=tw)
    ctx.equal('fold of pairwise', r, exp)
    for x, y in zip(ims, keep):
        ctx.equal('inputs untouched', x, y)


def too_few(ctx, kind):
    m = ctx.mod(CONV)
    many = (m.stitch_image_multiple if kind == 'stitch'
            else m.join_image_multiple)
    a = ctx.array('a', (2, 6))
    ctx.raises('needs two images', ValueError, lambda: many([a], []))


for kind in ('stitch', 'join'):
    P.case(too_few, kind=kind)
    for norm in (True, False):
        for sides in ((1,), (0,)):
            P.case(fold, kind=kind, sides=sides, norm=norm, extra=None,
                   spare=True)
        for sides in ((1, 1), (0, 0), (1, 0), (0, 1)):
            P.case(fold, kind=kind, sides=sides, norm=norm, extra=2,
                   spare=False)
        P.case(fold, kind=kind, sides=(1, 0, 1), norm=norm, extra=-1,
               spare=False, tier='thorough' if norm else 'quick')
