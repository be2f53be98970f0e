"""Beam hardening, detector blurring, upsampling of the angles."""
import math
import numpy as onp
from engine.registry import Prop
from props.common import linmap, mean

P = Prop('C29', ['prep.correction.non_linear_function',
                 'prep.correction.beam_hardening_correction',
                 'prep.correction.mtf_deconvolution',
                 'prep.correction.upsample_sinogram'],
         'images of 1..4 x 2..6 pixels, all symbolic; symbolic strength of '
         'the beam hardening, orders 2..5; windows and pads listed; '
         'sinograms of 3..5 rows, upsampled 2, 4 and 6 times',
         ['float32 rounding', 'the logarithm is an increasing function with '
          'log 1 = 0', 'the double-wedge filter is decided by C25'],
         'orders that are not whole numbers; angles other than equally '
         'spaced ones')
CO, FI, CV = ('algotom.prep.correction', 'algotom.prep.filtering',
              'algotom.prep.conversion')


def power(v, n):
    r = v
    for _ in range(n - 1):
        r = r * v
    return r


def curve(ctx, h, w, n, opt):
    """The documented curve at every pixel; 0 and 1 stay where they are,
    larger values stay larger."""
    m = ctx.mod(CO)
    np = ctx.np
    q = ctx.real('q', 0.01, 0.9)
    a = ctx.array('a', (h, w), 0, 1)
    keep = np.copy(a)
    k = {} if opt is None else {'opt': opt}
    out = ctx.nested(m.beam_hardening_correction(a, q, n, **k))
    ctx.check('shape', len(out) == h and len(out[0]) == w)
    if opt is None:
        opt = True
    num = np.log(1.0 - q * (1 - n))
    for i, r in enumerate(ctx.nested(a)):
        for j, v in enumerate(r):
            x = 1.0 - v if opt else v
            y = np.log(1.0 - q * (power(x, n) - n * x)) / num
            ctx.equal('curve', [out[i][j]], [1.0 - y if opt else y])
            ctx.equal('same for one pixel', [m.non_linear_function(
                v, q, n, **k)], [out[i][j]])
    ctx.equal('input untouched', a, keep)


def ends(ctx, n, opt):
    m = ctx.mod(CO)
    np = ctx.np
    q = ctx.real('q', 0.01, 0.9)
    out = m.beam_hardening_correction(np.asarray([[0.0, 1.0], [1.0, 0.0]]),
                                      q, n, opt=opt)
    ctx.equal('ends', out, [[0.0, 1.0], [1.0, 0.0]])


def bounds(ctx, n, ok):
    m = ctx.mod(CO)
    np = ctx.np
    a = ctx.array('a', (2, 2), 0, 3)
    f = (lambda: m.beam_hardening_correction(a, 0.1, n))
    v = [u for r in ctx.nested(a) for u in r]
    if not ok:
        return ctx.raises('order', ValueError, f)
    if ctx.any([u >= 2.0 for u in v]):
        ctx.raises('range', ValueError, f)
    else:
        ctx.check('shape', tuple(f().shape) == (2, 2))


def deblur(ctx, h, w, H, W, pad):
    """Blurring by the window gives back the padded image: the correction
    is its exact inverse, frequency by frequency, centred window or not."""
    m = ctx.mod(CO)
    np = ctx.np
    a = ctx.array('a', (h, w))
    keep = np.copy(a)
    i, j = onp.mgrid[0:H, 0:W]
    win = 1.0 + ((3 * i + 2 * j) % 5) / 4
    win = (win + onp.roll(win[::-1, ::-1], (1 - H % 2, 1 - W % 2), (0, 1))) / 2
    out = m.mtf_deconvolution(a, np.asarray(win.tolist()), pad)
    ctx.check('shape', tuple(out.shape) == (h, w))

    def ref(b):
        b = onp.concatenate([b, onp.repeat(b[-1:], H - h, 0)])
        b = onp.concatenate([b, onp.repeat(b[:, -1:], W - w, 1)], 1)
        b = onp.pad(b, pad, mode='reflect')
        hh, ww = H + 2 * pad, W + 2 * pad
        F = onp.fft.fft2(b)
        for f in range(hh):
            for g in range(ww):
                y = f if f < hh - hh // 2 else f - hh
                x = g if g < ww - ww // 2 else g - ww
                y, x = y + H // 2, x + W // 2
                if 0 <= y < H and 0 <= x < W:
                    F[f, g] /= win[y, x]
        return onp.real(onp.fft.ifft2(F))[pad:pad + h, pad:pad + w]
    ctx.equal('deconvolved', out, linmap(ref, ctx.nested(a)))
    ctx.equal('input untouched', a, keep)


def big(ctx):
    m = ctx.mod(CO)
    np = ctx.np
    a = ctx.array('a', (4, 5))
    for s in ((3, 5), (4, 4), (3, 9)):
        ctx.raises('window', ValueError, lambda: m.mtf_deconvolution(
            a, np.ones(s), 1))


def finer(ctx, h, w, scale, kind='360', center=0, iteration=1, pad=2):
    """Twice as many angles in every step: zeros between the rows, the
    filter, the old rows put back at their places with the mean kept, the
    filter again."""
    m, f, c = ctx.mod(CO), ctx.mod(FI), ctx.mod(CV)
    np = ctx.np
    a = ctx.array('a', (h, w), 1, 9)
    keep = np.copy(a)
    k = {'center': center} if center else {}
    out = m.upsample_sinogram(a, scale, sino_type=kind, iteration=iteration,
                              pad=pad, **k)
    ctx.check('number of rows', tuple(out.shape) == (scale * (h - 1) + 1, w))
    ctx.equal('input untouched', a, keep)
    if scale > 4:
        return
    one = a if kind == '360' else c.convert_sinogram_180_to_360(a, center)
    g = (lambda r: f.double_wedge_filter(
        np.asarray(r), sino_type='360', ratio=1, iteration=iteration,
        pad=pad))
    for _ in range(scale // 2):
        r = ctx.nested(one)
        z = []
        for v in r:
            z += [v, [0.0] * w]
        t = ctx.nested(g(z[:-1]))
        mu, num = mean([v for u in r for v in u]), \
            mean([v for u in t for v in u])
        t = [r[i // 2] if i % 2 == 0 else [v * mu / num for v in t[i]]
             for i in range(len(t))]
        one = g(t)
    one = ctx.nested(one)
    if kind == '180':
        one = one[:len(one) // 2 + 1]
    ctx.equal('sinogram', out, one)


def wrong(ctx):
    m = ctx.mod(CO)
    a = ctx.array('a', (4, 5), 1, 9)
    for s in (0, 1, 3, 5):
        ctx.raises('scale', ValueError, lambda: m.upsample_sinogram(
            a, s, center=2, sino_type='360'))
    ctx.raises('center', ValueError, lambda: m.upsample_sinogram(a, 2))
    ctx.raises('center', ValueError, lambda: m.upsample_sinogram(
        a, 2, center=-1.0, sino_type='180'))


for n in (2, 3, 5):
    for opt in (None, True, False):
        P.case(curve, h=1, w=2, n=n, opt=opt)
        if opt is not None:
            P.case(ends, n=n, opt=opt)
P.case(curve, h=3, w=3, n=3, opt=True)
P.case(bounds, n=2, ok=True)
P.case(bounds, n=1.9, ok=False)
P.case(bounds, n=1, ok=False)
for h, w, H, W, pad in ((3, 4, 3, 4, 1), (4, 3, 4, 3, 0), (2, 3, 4, 5, 2),
                        (3, 3, 5, 4, 1), (4, 4, 4, 4, 2), (3, 5, 3, 6, 2)):
    P.case(deblur, h=h, w=w, H=H, W=W, pad=pad)
P.case(big)
P.case(finer, h=3, w=4, scale=2)
P.case(finer, h=4, w=5, scale=2, pad=0, iteration=2)
P.case(finer, h=3, w=5, scale=2, kind='180', center=2.0)
P.case(finer, h=4, w=4, scale=2, kind='180', center=1.5)
P.case(finer, h=3, w=3, scale=4)
P.case(finer, h=3, w=3, scale=4, kind='180', center=1.0)
P.case(finer, h=3, w=3, scale=6)
P.case(wrong)
