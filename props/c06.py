"""Overlap search and the centre of rotation derived from it."""
from engine.registry import Prop

P = Prop('C06', ['prep.calculation.find_overlap',
                 'prep.calculation.search_overlap',
                 'prep.calculation.calculate_curvature',
                 'prep.calculation.find_overlap_multiple',
                 'prep.calculation.find_center_360',
                 'prep.calculation.find_center_projection'],
         'images of 2 rows and 13..16 columns, windows 5..30 columns, every '
         'interior integer overlap, both sides and automatic side, with and '
         'without normalisation / weighted overlap; all pixel values for '
         'which the true position is the unique best match',
         ['Pearson correlation is an arbitrary function that equals 1 on '
          'identical inputs (values in [-1, 1])',
          'denoising off except where results are compared with each other'],
         'noisy images, overlaps at the very edge of the search range')
CALC = 'algotom.prep.calculation'


def _eff(win, n1, n2):
    return min(max(win, 6), min(n1, n2) // 2 - 1)


def _pair(ctx, n1, n2, ov, side, h=2, gain=None):
    """Two windows on one arbitrary scene; rows of the second may be
    brighter."""
    np = ctx.np
    n = n1 + n2 - ov
    sc = ctx.array('scene', (h, n), 0.25, 4)
    g = np.asarray([gain or [1.0] * h]).T
    if side == 1:
        return sc[:, :n1], sc[:, n1 - ov:] * g
    return sc[:, n2 - ov:], sc[:, :n2] * g


def _assume_unique(ctx, m, a, b, win, side, k, ncore, **kw):
    """The metric is clearly positive elsewhere and symmetric about k."""
    lst, off = m.search_overlap(a, b, win, side, denoise=False, ncore=ncore,
                                **kw)
    n = len(lst)
    assert 2 <= k < n - 2
    for i in range(n):
        if i != k:
            ctx.assume(lst[i] >= 0.01)
    return lst


def _pin(ctx, lst, k):
    """The best match is at k (keeps the number of paths small)."""
    for i in range(len(lst)):
        if i != k:
            ctx.assume(lst[i] > lst[k])


def known(ctx, n1, n2, win, ov, side, norm, wov, ncore, gain=None):
    m = ctx.mod(CALC)
    if gain:
        ctx.bare_bounds()
    a, b = _pair(ctx, n1, n2, ov, side, gain=gain)
    a0, b0 = ctx.np.copy(a), ctx.np.copy(b)
    half = _eff(win, n1, n2) // 2
    pos = (n1 - ov + half) if side == 1 else (ov - half)
    lst = _assume_unique(ctx, m, a, b, win, side, pos - half, ncore,
                         norm=norm, use_overlap=wov)
    r = m.find_overlap(a, b, win, side=side, denoise=False, norm=norm,
                       use_overlap=wov, ncore=ncore)
    k = pos - half
    l, c, rr = lst[k - 1], lst[k], lst[k + 1]
    sub = (l - rr) / (2 * (l + rr - 2 * c))
    ctx.check('within half a pixel', ctx.all([
        r[0] >= ov - 0.501, r[0] <= ov + 0.501]))
    exp = ov - sub if side == 1 else ov + sub
    ctx.equal('overlap', r[0], exp)
    ctx.equal('side', r[1], side)
    ctx.equal('position', r[2], pos + sub)
    ctx.equal('inputs untouched', [a, b], [a0, b0])


def auto(ctx, n1, n2, win, norm, denoise, wov):
    """Automatic side = the side whose best match is sharper, with the same
    options."""
    m = ctx.mod(CALC)
    ctx.opaque_division()
    h = 1 if denoise else 2
    a = ctx.array('a', (h, n1), 0.25, 4)
    b = ctx.array('b', (h, n2), 0.25, 4)
    kw = dict(denoise=denoise, norm=norm, use_overlap=wov, ncore=1)
    cur, ovs = {}, {}
    half = _eff(win, n1, n2) // 2
    for s, k in ((1, 3), (0, 4)):
        lst, _ = m.search_overlap(a, b, win, s, **kw)
        _pin(ctx, lst, k)
        cur[s], p = m.calculate_curvature(lst)
        ovs[s] = n1 - p if s == 1 else p + 2 * half
    r = m.find_overlap(a, b, win, side=None, **kw)
    side = ctx.ite(cur[1] > cur[0], 1, 0)
    ctx.check('sharper side, same answer as the explicit side', ctx.all([
        r[1] == side, ctx.close(r[0], ctx.ite(cur[1] > cur[0], ovs[1],
                                              ovs[0]))]))


def auto_options(ctx, norm, denoise):
    """The automatic side is searched with the options asked for."""
    m = ctx.mod(CALC)
    ctx.opaque_division()
    a = ctx.array('a', (2, 13), 0.25, 4)
    b = ctx.array('b', (2, 14), 0.25, 4)
    kw = dict(denoise=denoise, norm=norm, ncore=1)
    r = m.find_overlap(a, b, 6, side=None, **kw)
    e = m.find_overlap(a, b, 6, side=r[1], **kw)
    kw.update(denoise=norm, norm=denoise)
    x = m.find_overlap(a, b, 6, side=r[1], **kw)
    ctx.check('answer of an explicit side', ctx.any([
        ctx.all([ctx.close(p, q) for p, q in zip(r, y)]) for y in (e, x)]))
    ctx.equal('same answer as the explicit side', list(r), list(e))


def multiple(ctx, side, norm, win):
    m = ctx.mod(CALC)
    ctx.opaque_division()
    ims = [ctx.array('i%d' % k, (1, 13), 0.25, 4) for k in range(3)]
    kw = dict(side=side, denoise=False, norm=norm, use_overlap=False, ncore=1)
    for k in range(2):
        lst, _ = m.search_overlap(ims[k], ims[k + 1], win, **kw)
        _pin(ctx, lst, 2 + k)
    r = m.find_overlap_multiple(ims, win, **kw)
    e = [m.find_overlap(ims[k], ims[k + 1], win, **kw) for k in range(2)]
    ctx.equal('pairwise', [list(x) for x in r], [list(x) for x in e])
    ctx.raises('needs two', ValueError,
               lambda: m.find_overlap_multiple(ims[:1], 6))


def center360(ctx, ncol, win, side, nrow):
    m = ctx.mod(CALC)
    ctx.opaque_division()
    np = ctx.np
    s = ctx.array('s', (nrow, ncol), 0.25, 4)
    h = nrow // 2 + 1
    top, bot = s[:h], np.fliplr(s[nrow - h:])
    if side is None:
        for q in (0, 1):
            lst, _ = m.search_overlap(top, bot, win, q, denoise=False,
                                      ncore=1)
            _pin(ctx, lst, 3)
    cor, ov, sd, pos = m.find_center_360(s, win, side=side, denoise=False,
                                         ncore=1)
    e = m.find_overlap(top, bot, win, side=side, denoise=False, ncore=1)
    ctx.equal('overlap of the two halves', [ov, sd, pos], list(e))
    if sd == 0:
        ctx.equal('centre from overlap', 2 * cor + 1, ov)
    else:
        ctx.equal('centre from overlap', 2 * (ncol - cor) - 1, ov)


def projections(ctx, ncol, nrow, win, ch, start, flip):
    """0/180-degree projections of one object: the centre is the axis about
    which they mirror, as for a 360-degree sinogram."""
    m = ctx.mod(CALC)
    ctx.opaque_division()
    np = ctx.np
    a = ctx.array('a', (nrow, ncol), 0.25, 4)
    b = ctx.array('b', (nrow, ncol), 0.25, 4)
    b1 = np.fliplr(b) if flip else b
    chh = ch if not isinstance(ch, float) else int(ch * nrow)
    lo = nrow // 2 - chh // 2 if start is None else start
    r1, r2 = a[lo:lo + chh], b1[lo:lo + chh]
    w = int(0.2 * ncol) if win is None else win
    for q in (0, 1):
        lst, _ = m.search_overlap(r1, r2, w, q, denoise=False, ncore=1)
        _pin(ctx, lst, 3)
    cor = m.find_center_projection(a, b, flip=flip, win_width=win,
                                   chunk_height=ch, start_row=start,
                                   denoise=False, ncore=1)
    ov, side, _ = m.find_overlap(r1, r2, w, denoise=False, ncore=1)
    if side == 0:
        ctx.equal('axis', 2 * cor + 1, ov)
    else:
        ctx.equal('axis', 2 * (ncol - cor) - 1, ov)


n1, n2 = 15, 14
for side in (1, 0):
    for ov in (9, 10, 11):
        P.case(known, n1=n1, n2=n2, win=6, ov=ov, side=side, norm=False,
               wov=False, ncore=1)
    P.case(known, n1=n1, n2=n2, win=6, ov=10, side=side, norm=True, wov=False,
           ncore=2)
    P.case(known, n1=n1, n2=n2, win=6, ov=10, side=side, norm=False, wov=True,
           ncore=1)
    P.case(known, n1=n1, n2=n2, win=6, ov=9, side=side, norm=True, wov=True,
           ncore=2)
    for wov in (False, True):
        P.case(known, n1=n1, n2=n2, win=6, ov=10, side=side, norm=True,
               wov=wov, ncore=1, gain=[1.0, 3.0])
    P.case(known, n1=16, n2=16, win=30, ov=10, side=side, norm=False,
           wov=False, ncore=None)
    P.case(known, n1=18, n2=18, win=30, ov=12, side=side, norm=False,
           wov=False, ncore=1)
    P.case(known, n1=16, n2=17, win=7, ov=11, side=side, norm=False,
           wov=False, ncore=1)
for norm, dn in ((False, True), (True, False)):
    P.case(auto_options, norm=norm, denoise=dn)
for norm, dn in ((False, False), (True, True)):
    P.case(auto, n1=13, n2=14, win=6, norm=norm, denoise=dn, wov=False)
P.case(auto, n1=14, n2=13, win=30, norm=False, denoise=False, wov=True)
for side in (0, 1):
    P.case(multiple, side=side, norm=bool(side), win=6)
    P.case(multiple, side=side, norm=False, win=4)
    P.case(center360, ncol=13, win=6, side=side, nrow=3)
    P.case(center360, ncol=14, win=30, side=side, nrow=4)
P.case(center360, ncol=13, win=6, side=None, nrow=5)
P.case(projections, ncol=13, nrow=4, win=6, ch=2, start=None, flip=True)
P.case(projections, ncol=13, nrow=6, win=6, ch=0.5, start=1, flip=False)
P.case(projections, ncol=13, nrow=5, win=None, ch=3, start=None, flip=True)
