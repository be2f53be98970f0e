"""Surfaces from gradients."""
import math
import numpy as onp
from engine.registry import Prop
from props.common import linmap

P = Prop('C27', ['prep.phase._double_image', 'prep.phase._make_window_FC_method',
                 'prep.phase.reconstruct_surface_from_gradient_FC_method',
                 'prep.phase._make_window_SCS_method',
                 'prep.phase.reconstruct_surface_from_gradient_SCS_method'],
         'gradients of 1..5 x 2..6 pixels (also not square), every pixel of '
         'both symbolic; symbolic amplitudes of the modes; pads 0..2 and '
         'padding modes listed', ['float32 rounding'],
         'larger images; the accuracy for finite-difference gradients')
PH = 'algotom.prep.phase'
PI = math.pi


def scs(ctx, h, w, pad=0, mode='linear_ramp', positive=False, given=False):
    """The surface whose periodic 5-point Laplacian is the central-difference
    divergence of the gradient, with mean zero; what is padded is cut."""
    m = ctx.mod(PH)
    np = ctx.np
    gx, gy = ctx.array('gx', (h, w)), ctx.array('gy', (h, w))
    k0, k1 = np.copy(gx), np.copy(gy)
    H, W = h + 2 * pad, w + 2 * pad
    k = {}
    if given:
        u = [[math.sin(2 * PI * j / W) for j in range(W)] for _ in range(H)]
        v = [[math.sin(2 * PI * i / H)] * W for i in range(H)]
        q = [[(0.2 + (i + 2 * j) % 3) for j in range(W)] for i in range(H)]
        k['window'] = (np.asarray(u), np.asarray(v), np.asarray(
            [[complex(0, c) for c in r] for r in q]))
    if positive:
        k['correct_negative'] = True
        raw = ctx.nested(m.reconstruct_surface_from_gradient_SCS_method(
            gx, gy, pad=pad, pad_mode=mode, correct_negative=False))
        out = ctx.nested(m.reconstruct_surface_from_gradient_SCS_method(
            gx, gy, pad=pad, pad_mode=mode, **k))
        return lifted(ctx, raw, out)
    out = m.reconstruct_surface_from_gradient_SCS_method(
        gx, gy, pad=pad, pad_mode=mode, correct_negative=False, **k)
    ctx.check('type', str(out.dtype) == 'float32')

    def ref(which):
        def f(b):
            g = onp.pad(b, pad, mode=mode) if pad else b
            F = onp.fft.fft2(g)
            i, j = onp.mgrid[0:H, 0:W]
            if given:
                Z = F * (onp.asarray(u) if which == 'x' else onp.asarray(v)) \
                    * 1j * onp.asarray(q)
            else:
                div = 1j * (onp.sin(2 * PI * j / W) if which == 'x' else
                            onp.sin(2 * PI * i / H)) * F
                lap = 2 * onp.cos(2 * PI * j / W) - 2 + \
                    2 * onp.cos(2 * PI * i / H) - 2
                lap[0, 0] = 1.0
                Z = div / lap
                Z[0, 0] = 0.0
            z = onp.real(onp.fft.ifft2(Z))
            return z[pad:pad + h, pad:pad + w]
        return f
    a = linmap(ref('x'), ctx.nested(gx))
    b = linmap(ref('y'), ctx.nested(gy))
    ctx.equal('surface', out, [[p + q for p, q in zip(r, s)]
                               for r, s in zip(a, b)])
    if not pad and not given:
        z, x, y = ctx.nested(out), ctx.nested(gx), ctx.nested(gy)
        at = (lambda t, i, j: t[i % h][j % w])
        lap = [[at(z, i + 1, j) + at(z, i - 1, j) + at(z, i, j + 1) +
                at(z, i, j - 1) - 4 * z[i][j] for j in range(w)]
               for i in range(h)]
        div = [[(at(x, i, j + 1) - at(x, i, j - 1)) * 0.5 +
                (at(y, i + 1, j) - at(y, i - 1, j)) * 0.5
                for j in range(w)] for i in range(h)]
        ctx.equal('Poisson equation', lap, div)
        ctx.check('mean', abs(sum(v for r in z for v in r)) < 1e-3)
    ctx.equal('input untouched', gx, k0)
    ctx.equal('input untouched', gy, k1)


def lifted(ctx, raw, out):
    """Nothing is left below zero; the surface moves as a whole, and only if
    it has to."""
    h, w = len(raw), len(raw[0])
    low = raw[0][0]
    for r in raw:
        for v in r:
            low = ctx.min(low, v)
    d = out[0][0] - raw[0][0]
    for i in range(h):
        for j in range(w):
            ctx.check('not negative', out[i][j] >= -1e-4)
            ctx.check('moved as a whole',
                      abs(out[i][j] - raw[i][j] - d) < 1e-4)
    ctx.check('only if needed', ctx.any([low < 0, abs(d) < 1e-4]))


def modes(ctx, h, w, positive=False):
    """Gradients made of cosines along each axis give the sines they are the
    derivatives of, in pixels along both axes."""
    m = ctx.mod(PH)
    np = ctx.np
    ax = ctx.list(ctx.array('ax', (w - 1,)))
    ay = ctx.list(ctx.array('ay', (h - 1,))) if h > 1 else []
    gx = [sum(a * math.cos(PI * (k + 1) * (j + 0.5) / w)
              for k, a in enumerate(ax)) for j in range(w)]
    gy = [sum((a * math.cos(PI * (k + 1) * (i + 0.5) / h)
               for k, a in enumerate(ay)), 0.0) for i in range(h)]
    zx = [sum(a * (math.sin(PI * (k + 1) * (j + 0.5) / w) * w
                   / (PI * (k + 1))) for k, a in enumerate(ax))
          for j in range(w)]
    zy = [sum((a * (math.sin(PI * (k + 1) * (i + 0.5) / h) * h
                    / (PI * (k + 1))) for k, a in enumerate(ay)), 0.0)
          for i in range(h)]
    out = m.reconstruct_surface_from_gradient_FC_method(
        np.asarray([list(gx) for _ in range(h)]),
        np.asarray([[g] * w for g in gy]), correct_negative=False)
    ctx.check('type', str(out.dtype) == 'float32')
    ctx.equal('surface', out, [[zx[j] + zy[i] for j in range(w)]
                               for i in range(h)])


def fc(ctx, h, w, given=False, positive=False):
    """Least-squares integration in Fourier space on the mirrored image."""
    m = ctx.mod(PH)
    np = ctx.np
    gx, gy = ctx.array('gx', (h, w)), ctx.array('gy', (h, w))
    k0, k1 = np.copy(gx), np.copy(gy)
    H, W = 2 * h, 2 * w
    f = m.reconstruct_surface_from_gradient_FC_method
    if positive:
        return lifted(ctx, ctx.nested(f(gx, gy, correct_negative=False)),
                      ctx.nested(f(gx, gy, correct_negative=True)))
    vv = onp.fft.fftfreq(H)[:, None] * onp.ones((1, W))
    uu = onp.fft.fftfreq(W)[None, :] * onp.ones((H, 1))
    q = uu * uu + vv * vv
    q[0, 0] = 1.0
    q = 1 / q
    q[0, 0] = 0.0
    k = {}
    if given:
        i, j = onp.mgrid[0:H, 0:W]
        q = 0.25 + ((i + j * 2) % 5) / 2
        s = onp.fft.fftshift
        k['window'] = [np.asarray(s(t).tolist()) for t in (uu, vv, q)]

    def ref(d):
        def g(b):
            r = onp.hstack((b, b[:, ::-1]))
            r = onp.vstack((r[::-1], r))
            Z = -1j * d * onp.fft.fft2(r) * q
            return onp.real(onp.fft.ifft2(Z))[h:, :w] / (2 * PI)
        return g
    a = linmap(ref(uu), ctx.nested(gx))
    b = linmap(ref(vv), ctx.nested(gy))
    ctx.equal('surface', f(gx, gy, correct_negative=False, **k),
              [[p + r for p, r in zip(x, y)] for x, y in zip(a, b)])
    ctx.equal('input untouched', gx, k0)
    ctx.equal('input untouched', gy, k1)


def refused(ctx, h, w):
    m = ctx.mod(PH)
    np = ctx.np
    a = ctx.array('a', (h, w))
    one = np.ones
    f, s = (m.reconstruct_surface_from_gradient_FC_method,
            m.reconstruct_surface_from_gradient_SCS_method)
    for g in (f, s):
        ctx.raises('gradients', ValueError, lambda: g(a, a[1:]))
        ctx.raises('gradients', ValueError, lambda: g(a[:, 1:], a))
        ctx.raises('window', ValueError, lambda: g(a, a, window=one((h, w))))
        ctx.raises('window', ValueError, lambda: g(
            a, a, window=[one((2 * h, 2 * w))] * 2))
        ctx.raises('window', ValueError, lambda: g(
            a, a, window=[one((h + 1, w))] * 3))
    ctx.raises('window', ValueError, lambda: f(a, a,
                                               window=[one((h, w))] * 3))
    ctx.raises('window', ValueError, lambda: s(a, a, window=[one((h, w))] * 3,
                                               pad=1))


for h, w in ((3, 3), (4, 4), (3, 5), (5, 4), (2, 6), (1, 4)):
    P.case(scs, h=h, w=w)
for h, w, pad, mode in ((3, 4, 1, 'linear_ramp'), (2, 3, 2, 'linear_ramp'),
                        (3, 3, 1, 'edge'), (3, 4, 2, 'reflect'),
                        (4, 3, 1, 'constant')):
    P.case(scs, h=h, w=w, pad=pad, mode=mode)
P.case(scs, h=3, w=4, given=True)
P.case(scs, h=2, w=3, pad=1, given=True)
P.case(scs, h=2, w=2, positive=True)
P.case(scs, h=2, w=3, positive=True)
P.case(scs, h=2, w=3, positive=True, pad=1, mode='edge')
for h, w in ((3, 3), (3, 5), (5, 3), (4, 2), (1, 6)):
    P.case(modes, h=h, w=w)
for h, w in ((2, 2), (3, 4), (4, 3), (1, 3), (5, 4)):
    P.case(fc, h=h, w=w)
P.case(fc, h=3, w=3, given=True)
P.case(fc, h=2, w=4, given=True)
P.case(fc, h=2, w=2, positive=True)
P.case(fc, h=2, w=3, positive=True)
P.case(refused, h=3, w=4)
