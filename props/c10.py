"""Sorting-based stripe removal."""
from engine.registry import Prop
from props.common import (cols, distinct, ordered, ranks, pick, median2d, linmap,
                          gauss2d, add, low_axis0, gwin, sort_restore)

P = Prop('C10', ['util.utility.sort_forward', 'util.utility.sort_backward',
                 'util.utility.separate_frequency_component',
                 'util.utility.apply_gaussian_filter',
                 'util.utility.make_2d_gaussian_window',
                 'prep.removal.remove_stripe_based_sorting',
                 'prep.removal.remove_stripe_based_filtering',
                 'prep.removal.remove_stripe_based_2d_filtering_sorting'],
         'sinograms of 3x4 .. 4x5 pixels (10x3 .. 3x12 for the padded '
         'low-pass), every order of the values in a column, window sizes 1, '
         '3, 5 in one or two dimensions, all pixel values',
         ['values sorted together differ by at least 0.05'],
         'ties between sorted values, larger sinograms')
REM = 'algotom.prep.removal'
UT = 'algotom.util.utility'


def order(ctx, h, w, axis):
    """Forward gives sorted lines and the index; backward undoes it."""
    m = ctx.mod(UT)
    np = ctx.np
    a = ctx.array('a', (h, w))
    al = ctx.nested(a)
    lines = cols(al) if axis == 0 else al
    distinct(ctx, lines)
    keep = np.copy(a)
    s, idx = m.sort_forward(a, axis=axis)
    ctx.equal('sorted', s, np.sort(a, axis=axis))
    back = m.sort_backward(s, idx, axis=axis)
    ctx.equal('round trip', back, a)
    b = ctx.array('b', (h, w))
    bb = m.sort_backward(b, idx, axis=axis)
    bl, ol = ctx.nested(b), ctx.nested(bb)
    if axis == 0:
        bl, ol = cols(bl), cols(ol)
    for n, ln in enumerate(lines):
        for i, r in enumerate(ranks(ctx, ln)):
            ctx.equal('restored by rank', ol[n][i], pick(ctx, bl[n], r))
    ctx.equal('input untouched', a, keep)


def _win(dim, size):
    return (size, size) if dim == 2 else (1, size)


def sorting(ctx, h, w, size, dim, opt=None):
    """Columns are sorted, smoothed across, and put back in order."""
    m = ctx.mod(REM)
    np = ctx.np
    a = ctx.array('a', (h, w))
    al = ctx.nested(a)
    ordered(ctx, cols(al))
    keep = np.copy(a)
    kw = {}
    if opt is not None:
        kw = {'opt': {'method': opt[0], 'para1': opt[1]}}
    out = m.remove_stripe_based_sorting(a, size, dim, **kw)
    if opt is None:
        f = lambda s: median2d(ctx, s, *_win(dim, size))
    else:
        import scipy.ndimage as sn
        f = lambda s: linmap(lambda b: sn.gaussian_filter(b, opt[1]), s)
    ctx.equal('sorted, smoothed, restored', out, sort_restore(ctx, al, f))
    ctx.equal('input untouched', a, keep)


def same_profile(ctx, h, w, method, para):
    """A sinogram whose columns hold the same values in any order has no
    stripe, and an offset column is brought back to its neighbours."""
    m = ctx.mod(REM)
    np = ctx.np
    v = ctx.list(ctx.array('v', (h,)))
    ordered(ctx, [v])
    k = ctx.real('k', -2, 2)
    j = w // 2
    a = np.asarray([[v[(i + c) % h] + (k if c == j else 0.0)
                     for c in range(w)] for i in range(h)])
    want = [[v[(i + c) % h] for c in range(w)] for i in range(h)]
    ctx.equal('stripe removed', getattr(m, method)(a, *para), want)


def split(ctx, h, w, axis, win):
    """Smooth plus sharp is the input; smooth is the windowed spectrum."""
    m = ctx.mod(UT)
    a = ctx.array('a', (h, w))
    keep = ctx.np.copy(a)
    n = h if axis == 0 else w
    if isinstance(win, tuple):
        window = {'name': 'gaussian', 'sigma': win[1]}
        wf = gwin(win[1])
    elif win is None:
        window, wf = None, gwin(5)
    else:
        vals = [0.25 + 0.5 * ((3 * i) % 4) for i in range(n)]
        window = ctx.np.asarray(vals)

        def wf(k, p):
            return [1.0] * p + vals + [1.0] * p
    smooth, sharp = m.separate_frequency_component(a, axis=axis,
                                                   window=window)
    ctx.equal('sum', smooth + sharp, a)
    al = ctx.nested(a)
    f = low_axis0(wf)
    key = ('low', str(win))
    want = linmap(f, al, key) if axis == 0 else cols(
        linmap(f, cols(al), key))
    ctx.equal('low-pass', smooth, want)
    ctx.equal('input untouched', a, keep)


def split_wrong(ctx):
    m = ctx.mod(UT)
    a = ctx.array('a', (3, 4))
    for axis, n in ((0, 4), (1, 3), (0, 2)):
        ctx.raises('window length', ValueError,
                   lambda: m.separate_frequency_component(
                       a, axis=axis, window=ctx.np.ones(n)))


def filtering(ctx, h, w, sigma, size, dim, sort):
    """Only the smooth part is treated; the sharp part is put back."""
    m = ctx.mod(REM)
    a = ctx.array('a', (h, w))
    keep = ctx.np.copy(a)
    al = ctx.nested(a)
    out = m.remove_stripe_based_filtering(a, sigma, size, dim, sort)
    low = linmap(low_axis0(gwin(sigma)), al, ('g', sigma))
    if sort:
        ordered(ctx, cols(low))
        res = sort_restore(ctx, low, lambda s: median2d(
            ctx, s, *_win(dim, size)))
    else:
        res = median2d(ctx, low, *_win(dim, size))
    ctx.equal('smooth part treated', out, add(add(al, low, -1.0), res))
    ctx.equal('input untouched', a, keep)


def gaussian(ctx, h, w, sx, sy, pad, mode):
    m = ctx.mod(UT)
    a = ctx.array('a', (h, w))
    keep = ctx.np.copy(a)
    out = m.apply_gaussian_filter(a, sx, sy, pad=pad, mode=mode)
    if mode is None:
        m1, m2 = 'edge', 'mean'
    elif isinstance(mode, (list, tuple)):
        m1, m2 = mode
    else:
        m1 = m2 = mode
    ctx.equal('windowed spectrum', out, linmap(
        gauss2d(sx, sy, pad, m1, m2), ctx.nested(a)))
    ctx.equal('input untouched', a, keep)


def two_d(ctx, h, w, sigma, size, dim):
    """Sorting is applied to what the low-pass image leaves."""
    m = ctx.mod(REM)
    a = ctx.array('a', (h, w))
    keep = ctx.np.copy(a)
    al = ctx.nested(a)
    out = m.remove_stripe_based_2d_filtering_sorting(a, sigma, size, dim)
    low = linmap(gauss2d(sigma, sigma), al, ('g2', sigma))
    sharp = add(al, low, -1.0)
    ordered(ctx, cols(sharp))
    res = sort_restore(ctx, sharp, lambda s: median2d(
        ctx, s, *_win(dim, size)))
    ctx.equal('sharp part treated', out, add(low, res))
    ctx.equal('input untouched', a, keep)


def wrong(ctx):
    m = ctx.mod(REM)
    a = ctx.array('a', (3, 4))
    for f in (m.remove_stripe_based_sorting, m.remove_stripe_based_filtering):
        ctx.raises('unknown method', ValueError,
                   lambda: f(a, opt={'method': 'nothing_like_it'}))
        ctx.raises('not a dictionary', ValueError, lambda: f(a, opt=3))


P.case(order, h=3, w=2, axis=0)
P.case(order, h=2, w=4, axis=1)
P.case(order, h=4, w=3, axis=0)
P.case(order, h=5, w=2, axis=0, tier='thorough')
for h, w, size, dim in ((2, 4, 3, 1), (3, 3, 3, 1), (2, 6, 5, 1),
                        (2, 3, 3, 2), (3, 3, 2, 1), (3, 3, 1, 2),
                        (4, 2, 3, 1), (3, 2, 3, 2)):
    P.case(sorting, h=h, w=w, size=size, dim=dim)
P.case(sorting, h=3, w=4, size=3, dim=1, tier='thorough')
P.case(sorting, h=3, w=3, size=3, dim=2, tier='thorough')
P.case(sorting, h=3, w=3, size=3, dim=1, opt=('gaussian_filter', 1))
for me, pa in (('remove_stripe_based_sorting', (3, 1)),):
    P.case(same_profile, h=3, w=5, method=me, para=pa)
    P.case(same_profile, h=4, w=4, method=me, para=pa)
for h, w, axis, win in ((3, 4, 0, ('g', 2)), (3, 4, 1, ('g', 1)),
                        (5, 3, 0, None), (4, 3, 0, 'list'),
                        (2, 5, 1, 'list'), (11, 2, 0, ('g', 2)),
                        (2, 10, 1, 'list'), (10, 2, 0, 'list')):
    P.case(split, h=h, w=w, axis=axis, win=win)
P.case(split_wrong)
for h, w, sigma, size, dim, sort in ((3, 4, 1, 3, 1, False),
                                     (2, 4, 1, 3, 1, True),
                                     (2, 3, 1, 3, 2, False),
                                     (10, 2, 2, 3, 1, False),
                                     (3, 2, 2, 3, 1, True)):
    P.case(filtering, h=h, w=w, sigma=sigma, size=size, dim=dim, sort=sort)
for h, w, sx, sy, pad, mode in ((3, 4, 1, 2, None, None),
                                (3, 4, 2, 1, 1, None),
                                (4, 3, 1, 1, 2, ('reflect', 'edge')),
                                (2, 3, 2, 2, 1, 'edge'),
                                (10, 11, 2, 3, None, None)):
    P.case(gaussian, h=h, w=w, sx=sx, sy=sy, pad=pad, mode=mode)
P.case(two_d, h=3, w=2, sigma=1, size=3, dim=1)
P.case(two_d, h=2, w=4, sigma=1, size=3, dim=1)
P.case(two_d, h=2, w=3, sigma=2, size=2, dim=2)
P.case(two_d, h=10, w=11, sigma=2, size=1, dim=1, tier='thorough')
P.case(filtering, h=3, w=3, sigma=1, size=3, dim=1, sort=True,
       tier='thorough')
P.case(wrong)
