"""Reconstruction of slices: FBP, BPF and DFI on one slice and on chunks."""
import math
import numpy as onp
from scipy import signal
from engine.registry import Prop
from props.common import linmap
from props.c14 import bp

P = Prop('C15', ['rec.reconstruction.fbp_reconstruction',
                 'rec.reconstruction.bpf_reconstruction',
                 'rec.reconstruction.dfi_reconstruction',
                 'rec.reconstruction.apply_ramp_filter',
                 'rec.reconstruction.make_2d_ramp_window',
                 'rec.reconstruction.apply_circular_ramp_filter',
                 'rec.reconstruction.make_circular_ramp_window',
                 'rec.reconstruction.make_smoothing_window',
                 'rec.reconstruction._reconstruct_slice',
                 'util.utility.make_circle_mask',
                 'util.utility.transform_1d_window_to_2d',
                 'rec.reconstruction.generate_mapping_coordinate'],
         'sinograms of 2..5 angles x 4..7 columns, 1..3 slices, all pixels '
         'symbolic; listed angles, centers, filters, pads, mask ratios and '
         'core counts; GPU on and off',
         ['float32 rounding', 'GPU code runs on the CPU', 'the logarithm is '
          'an uninterpreted function of every pixel'],
         'gridrec and astra (C36); larger sinograms')
REC = 'algotom.rec.reconstruction'
UT = 'algotom.util.utility'


def kernel(w):
    """Ramp filter in space, centred at 0, wrapped to w samples."""
    k = onp.zeros(w)
    for i in range(w):
        n = i if i <= (w - 1) // 2 else i - w
        if n == 0:
            k[i] = 0.25
        elif n % 2:
            k[i] = -1.0 / (math.pi * n) ** 2
    return k


def smooth(flt, w):
    return onp.ones(w) if flt is None else signal.get_window(
        {'hann': 'hann', 'hamming': 'hamming', 'bartlett': 'bartlett',
         'blackman': 'blackman', 'nuttall': 'nuttall', 'parzen': 'parzen',
         'triang': 'triang'}[flt], w, fftbins=False)


def ramp(rows, pad, flt, mode='edge'):
    w0 = len(rows[0])

    def f(a):
        b = onp.pad(a, ((0, 0), (pad, pad)), mode=mode)
        w = b.shape[1]
        t = onp.fft.fft(kernel(w)) * onp.fft.ifftshift(smooth(flt, w))
        return onp.real(onp.fft.ifft(onp.fft.fft(b) * t))[:, pad:pad + w0]
    return linmap(f, rows, ('ramp', pad, flt, mode))


def radial(v):
    """2D window whose value at distance r is v at r from its centre."""
    n = len(v)
    c = n // 2
    out = onp.zeros((n, n))
    for y in range(n):
        for x in range(n):
            r = min(math.hypot(x - c, y - c), c)
            p = c + r if y >= c else c - r
            p = min(p, n - 1.0)
            k = int(math.floor(p + 1e-9))
            q = p - k
            out[y, x] = v[k] if q < 1e-9 else v[k] * (1 - q) + v[k + 1] * q
    return out


def circ(img, pad, flt, mode='edge'):
    n = len(img)

    def f(a):
        b = onp.pad(a, pad, mode=mode)
        w = len(b)
        v = onp.abs(onp.fft.fftshift(onp.fft.fft(kernel(w)))) * smooth(
            flt, w)
        return onp.real(onp.fft.ifft2(onp.fft.fft2(b) * onp.fft.ifftshift(
            radial(v))))[pad:pad + n, pad:pad + n]
    return linmap(f, img, ('circ', pad, flt, mode))


def masked(img, ratio, center):
    n = len(img)
    if ratio is None:
        return img
    if ratio == 0.0:
        ratio = min(center, n - center) / (0.5 * n)
    c = n // 2
    r2 = (ratio * c) ** 2
    return [[v if (y - c) ** 2 + (x - c) ** 2 <= r2 else 0.0
             for x, v in enumerate(r)] for y, r in enumerate(img)]


def scaled(img, nrow):
    return [[v * (math.pi / (nrow - 1)) for v in r] for r in img]


def default_pad(w):
    return min(int(0.15 * w), 150)


def neg_log(ctx, rows, on):
    if not on:
        return rows
    a = ctx.np.asarray(rows)
    one = ctx.np.ones(a.shape)
    return ctx.nested(-ctx.np.log(ctx.np.where(a > 0, a, one)))


def expected(ctx, method, sino, center, angles, ratio, flt, pad, mode, log):
    nrow, w = len(sino), len(sino[0])
    s = neg_log(ctx, sino, log)
    if angles is None:
        angles = [math.pi * i / (nrow - 1) for i in range(nrow)]
    if pad is None:
        pad = default_pad(w)
    if method == 'fbp':
        img = bp(ramp(s, pad, flt, mode), angles, center, False)
    else:
        img = circ(bp(s, angles, center, True), pad, flt, mode)
    return scaled(masked(img, ratio, center), nrow)


def build(ctx, shape, kind):
    if kind == 'pos':
        return ctx.array('s', shape, 0.001, 4)
    if kind == 'holes':          # non-positive values are taken as one
        np = ctx.np
        s = ctx.array('s', shape, 0.001, 4)
        z = ctx.array('z', (2,), -1, 0)
        f = s.reshape(-1)
        f[1] = z[0]
        f[len(f) - 2] = z[1]
        return f.reshape(shape)
    return ctx.array('s', shape)


def single(ctx, method, nrow, w, center, angles=None, ratio=1.0, flt='hann',
           pad=None, mode='edge', data=None, gpu=False, three=False,
           block=(16, 16), ncore=1):
    m = ctx.mod(REC)
    np = ctx.np
    log = data is not None
    s = build(ctx, (nrow, w), data)
    f = getattr(m, method + '_reconstruction')
    a = None if angles is None else np.asarray(list(angles))
    arg = s.reshape((nrow, 1, w)) if three else s
    keep = np.copy(arg)
    out = f(arg, center, angles=a, ratio=ratio, filter_name=flt, pad=pad,
            pad_mode=mode, apply_log=log, gpu=gpu, block=block, ncore=ncore)
    want = expected(ctx, method, ctx.nested(keep.reshape((nrow, w))), center,
                    angles, ratio, flt, pad, mode, log)
    ctx.equal('shape', list(out.shape), [w, 1, w] if three else [w, w])
    ctx.equal('reconstruction', out[:, 0, :] if three else out, want)
    ctx.equal('input untouched', arg, keep)


def chunk(ctx, method, nrow, n, w, center, angles=None, ratio=1.0,
          flt='hann', pad=None, data=None, gpu=False, ncore=1,
          block=(16, 16)):
    """Every slice of a chunk is the reconstruction of that slice."""
    m = ctx.mod(REC)
    np = ctx.np
    log = data is not None
    s = build(ctx, (nrow, n, w), data)
    keep = np.copy(s)
    f = getattr(m, method + '_reconstruction')
    a = None if angles is None else np.asarray(list(angles))
    k = {} if method == 'dfi' else dict(pad=pad, gpu=gpu, block=block)
    out = f(s, center, angles=a, ratio=ratio, filter_name=flt,
            apply_log=log, ncore=ncore, **k)
    ctx.equal('shape', list(out.shape), [w, n, w])
    ctx.equal('input untouched', s, keep)
    for i in range(n):
        one = f(np.copy(s[:, i, :]), center, angles=a, ratio=ratio,
                filter_name=flt, apply_log=log, ncore=1, **k)
        ctx.equal('slice', out[:, i, :], one, tol=4e-3)
        if method != 'dfi':
            ctx.equal('slice', one, expected(
                ctx, method, ctx.nested(s[:, i, :]), center, angles, ratio,
                flt, pad, 'edge', log))


def given_window(ctx, method, nrow, w, center, flt, fits, three=False):
    """A window passed in is used when its shape fits, else replaced."""
    m = ctx.mod(REC)
    np = ctx.np
    pad = 1
    f = getattr(m, method + '_reconstruction')
    s = ctx.array('s', (nrow, 2, w) if three else (nrow, w))
    mk = m.make_2d_ramp_window if method == 'fbp' else None
    if fits:
        win = mk(nrow, w + 2 * pad, None) if mk else \
            m.make_circular_ramp_window(w + 2 * pad, None)
        ref = None
    else:
        win = np.ones((nrow, w + 3)) if mk else np.ones((w + 3, w + 3))
        ref = flt
    out = f(s, center, ramp_win=win, filter_name=flt, pad=pad,
            apply_log=False, gpu=False, ncore=1)
    for i in range(2 if three else 1):
        r = s[:, i, :] if three else s
        ctx.equal('window', out[:, i, :] if three else out, expected(
            ctx, method, ctx.nested(r), center, None, 1.0, ref, pad, 'edge',
            False))


def polar(ws, hs):
    """Radius and angle indices of the points of the Fourier plane."""
    c = (ws - 1) * 0.5
    rm = math.floor(c)
    er, et = onp.zeros((ws, ws)), onp.zeros((ws, ws))
    for y in range(ws):
        for x in range(ws):
            u, v = (ws - 1 - x) - c, y - c
            q = min(math.hypot(u, v), rm)
            th = math.pi + math.atan2(v, u)
            if th > math.pi:
                q, th = -q, th - math.pi
            er[y, x] = min(max(q + rm, 0), ws - 1)
            et[y, x] = th * (hs - 1) / math.pi
    return er, et


def fourier(a, center, flt, rate, mode):
    """Direct Fourier inversion of a sinogram."""
    from scipy import ndimage as ndi
    n0 = a.shape[1]
    if n0 % 2 == 0:
        a = onp.pad(a, ((0, 0), (0, 1)), mode='edge')
    n1 = a.shape[1]
    a = ndi.shift(a, (0, (n1 - 1) / 2 - center), mode='nearest')
    pad = int(rate * n1)
    a = onp.pad(a, ((0, 0), (pad, pad)), mode=mode)
    w = a.shape[1]
    f = onp.fft.fftshift(onp.fft.fft(onp.fft.ifftshift(a, axes=1)), axes=1)
    f = f * smooth(flt, w)
    r, t = polar(w, len(a))
    g = onp.zeros((w, w), dtype=complex)
    for part, u in ((f.real, 1), (f.imag, 1j)):
        g = g + u * ndi.map_coordinates(part, [t, r], order=5,
                                        mode='reflect')
    y, x = onp.mgrid[:w, :w] - w // 2
    g = g * (x * x + y * y <= (w // 2) ** 2)
    o = onp.real(onp.fft.fftshift(onp.fft.ifft2(onp.fft.ifftshift(g))))
    return o[pad:pad + n0, pad:pad + n0]


def dfi_formula(ctx, nrow, w, center, rate=0.25, flt='hann', mode='edge',
                ratio=1.0, data=None):
    m = ctx.mod(REC)
    s = build(ctx, (nrow, w), data)
    out = m.dfi_reconstruction(s, center, ratio=ratio, filter_name=flt,
                               pad_rate=rate, pad_mode=mode,
                               apply_log=data is not None)
    if data is not None:       # the logarithm follows the sub-pixel shift
        s = -ctx.np.log(s)
    img = linmap(lambda a: fourier(a, center, flt, rate, mode),
                 ctx.nested(s), ('dfi', center, flt, rate, mode))
    ctx.equal('direct Fourier inversion', out, masked(img, ratio, center))


def dfi_linear(ctx, nrow, w, center, angles=None, ratio=1.0, flt='hann'):
    m = ctx.mod(REC)
    np = ctx.np
    s, t = ctx.array('s', (nrow, w)), ctx.array('t', (nrow, w))
    keep = np.copy(s)
    k = ctx.real('k', -2, 2) if nrow * w < 13 else 1.5
    a = None if angles is None else np.asarray(list(angles))

    def f(x):
        return m.dfi_reconstruction(x, center, angles=a, ratio=ratio,
                                    filter_name=flt, apply_log=False)
    fs, ft = f(s), f(t)
    ctx.equal('linear', f(s + t * 1.5), fs + ft * 1.5)
    ctx.equal('input untouched', s, keep)
    n = len(ctx.nested(fs))
    o = masked([[1.0] * n] * n, ratio, center)
    ctx.equal('zero outside the mask', fs * (1 - np.asarray(o)),
              [[0.0] * n] * n)


def dfi_angles(ctx, nrow, w, center):
    """Angles of a half turn, given or not, give the same slice; a reversed
    scan is the mirrored one."""
    m = ctx.mod(REC)
    np = ctx.np
    s = ctx.array('s', (nrow, w))
    al = ctx.nested(s)
    s = np.asarray(al[:-1] + [al[0][::-1]])
    a = [math.pi * i / (nrow - 1) for i in range(nrow)]
    ref = m.dfi_reconstruction(s, center, apply_log=False)
    ctx.equal('default angles', m.dfi_reconstruction(
        s, center, angles=np.asarray(a), apply_log=False), ref)


def dfi_start(ctx, nrow, w, start, sign, turns=1):
    """A scan may start anywhere, go either way, and be a full turn."""
    m = ctx.mod(REC)
    np = ctx.np
    c = (w - 1) / 2
    h = ctx.nested(ctx.array('s', (nrow - 1, w)))
    turn = h + [r[::-1] for r in h]
    n = 2 * (nrow - 1)
    ref = m.dfi_reconstruction(np.asarray([turn[i] for i in range(nrow)]), c,
                               apply_log=False)
    k = [start + sign * i for i in range(turns * (nrow - 1) + 1)]
    out = m.dfi_reconstruction(
        np.asarray([turn[i % n] for i in k]), c, apply_log=False,
        angles=np.asarray([i * math.pi / (nrow - 1) for i in k]))
    ctx.equal('same slice', out, ref)


def dfi_log(ctx, nrow, w, center):
    """With the logarithm: same as -log of the data."""
    m = ctx.mod(REC)
    np = ctx.np
    s = ctx.array('s', (nrow, w), 0.1, 4)
    ctx.equal('log', m.dfi_reconstruction(s, center, apply_log=True),
              m.dfi_reconstruction(-np.log(s), center, apply_log=False))


def mapping_coordinates(ctx, ws, hs, wr):
    """Radius and angle of every point of the Fourier plane."""
    m = ctx.mod(REC)
    r, t = m.generate_mapping_coordinate(ws, hs, wr, wr)
    c = (wr - 1) * 0.5
    rm = math.floor(c)
    er, et = [], []
    for y in range(wr):
        a, b = [], []
        for x in range(wr):
            u, v = (wr - 1 - x) - c, y - c
            q = min(math.hypot(u, v), rm)
            th = math.pi + math.atan2(v, u)
            if th > math.pi:
                q, th = -q, th - math.pi
            a.append(min(max(q + rm, 0), ws - 1))
            b.append(th * (hs - 1) / math.pi)
        er.append(a)
        et.append(b)
    ctx.equal('radius', r, er)
    ctx.equal('angle', t, et)


def dispatch(ctx, method, data):
    m = ctx.mod(REC)
    np = ctx.np
    s = build(ctx, (4, 5), data)
    keep = np.copy(s)
    log = data is not None
    a = np.asarray([0.1, 0.9, 1.8, 2.6]) if method != 'dfi' else None
    out = m._reconstruct_slice(s, 1.8, method, a, 0.9, 'hamming', log, False,
                               1)
    f = getattr(m, method + '_reconstruction')
    k = {} if method == 'dfi' else {'gpu': False}
    ctx.equal('method', out, f(np.copy(s), 1.8, angles=a, ratio=0.9,
                               filter_name='hamming', apply_log=log, ncore=1,
                               **k))
    ctx.equal('input untouched', s, keep)


def bad(ctx, method):
    m = ctx.mod(REC)
    np = ctx.np
    f = getattr(m, method + '_reconstruction')
    s = ctx.array('s', (3, 5), 0.5, 2)
    c = ctx.real('c', -6, 12)
    ctx.assume(ctx.any([c < 0, c >= 5]))
    ctx.raises('center', ValueError, lambda: f(s, c))
    ctx.raises('angles', ValueError,
               lambda: f(s, 2.0, angles=np.asarray([0.0, 1.0])))
    ctx.raises('angles', ValueError, lambda: f(
        s.reshape((3, 1, 5)), 2.0, angles=np.asarray([0.0, 1.0, 2.0, 3.0])))


def circle(ctx, w, lo, hi):
    """Disc of the given diameter about the middle pixel, any ratio."""
    m = ctx.mod(UT)
    r = ctx.real('r', lo, hi)
    out = m.make_circle_mask(w, r)
    c = w // 2
    want = []
    for y in range(w):
        q = []
        for x in range(w):
            d = (y - c) ** 2 + (x - c) ** 2
            rr = (r * c) * (r * c)
            ctx.assume(ctx.any([rr - d > 1e-3, d - rr > 1e-3]))
            q.append(ctx.ite(rr >= d, 1.0, 0.0))
        want.append(q)
    ctx.equal('disc', out, want)


def windows(ctx, flt, w):
    m = ctx.mod(REC)
    ctx.equal('smoothing', m.make_smoothing_window(flt, w),
              list(smooth(flt, w)))
    if flt is None:
        ctx.equal('unknown names give no smoothing',
                  m.make_smoothing_window('other', w), [1.0] * w)


def radial_window(ctx, n):
    m = ctx.mod(UT)
    v = ctx.array('v', (n,))
    out = m.transform_1d_window_to_2d(v, order=1, mode='nearest')
    c = n // 2
    vl = ctx.list(v)
    want = []
    for y in range(n):
        r = []
        for x in range(n):
            q = min(math.hypot(x - c, y - c), c)
            p = c + q if y >= c and (y > c or x <= c) else c - q
            if y == c and x > c:
                p = c + q
            p = min(p, n - 1.0)
            k = int(math.floor(p + 1e-9))
            e = p - k
            r.append(vl[k] if e < 1e-9 else vl[k] * (1 - e) + vl[k + 1] * e)
        want.append(r)
    ctx.equal('radial', out, want)


A4 = (0.13, 0.9, 1.77, 2.6)
for method in ('fbp', 'bpf'):
    P.case(single, method=method, nrow=4, w=5, center=1.83, angles=A4)
    P.case(single, method=method, nrow=4, w=5, center=1.83, angles=A4,
           data='pos', gpu=True, block=(2, 4))
    P.case(single, method=method, nrow=4, w=4, center=1.37, angles=A4,
           data='holes', ratio=None, flt=None)
    P.case(single, method=method, nrow=3, w=7, center=3.21, ratio=0.0, pad=2,
           flt='hamming', three=True)
    P.case(single, method=method, nrow=4, w=5, center=2.1, angles=A4,
           ratio=0.7, pad=3, mode='mean', gpu=True, three=True, ncore=2)
    P.case(chunk, method=method, nrow=4, n=2, w=5, center=1.83, angles=A4)
    P.case(chunk, method=method, nrow=4, n=2, w=4, center=1.37, angles=A4,
           data='holes', ncore=2, ratio=None)
    P.case(chunk, method=method, nrow=3, n=3, w=4, center=1.3,
           data='pos', gpu=True, ncore=3, flt='parzen', ratio=0.0, pad=1)
    for fits in (False, True):
        P.case(given_window, method=method, nrow=3, w=5, center=2.2,
               flt='hann', fits=fits)
        P.case(given_window, method=method, nrow=3, w=5, center=2.2,
               flt='hann', fits=fits, three=True)
    P.case(dispatch, method=method, data='holes')
    P.case(single, method=method, nrow=5, w=8, center=3.83,
           angles=A4 + (0.4,), tier='thorough')
    P.case(chunk, method=method, nrow=4, n=3, w=7, center=2.83, angles=A4,
           data='pos', ncore=None, tier='thorough')
P.case(chunk, method='dfi', nrow=4, n=2, w=5, center=1.83)
P.case(chunk, method='dfi', nrow=5, n=3, w=4, center=1.6, ncore=2,
       ratio=None, flt=None)
P.case(chunk, method='dfi', nrow=4, n=2, w=5, center=2.2, data='pos',
       ncore=3, ratio=0.0)
P.case(chunk, method='dfi', nrow=4, n=1, w=5, center=2.2, ratio=0.8)
P.case(dfi_formula, nrow=4, w=5, center=1.83)
P.case(dfi_formula, nrow=5, w=7, center=3.0, rate=0.5, flt=None, ratio=None)
P.case(dfi_formula, nrow=3, w=6, center=2.7, flt='hamming', ratio=0.0,
       mode='mean')
P.case(dfi_formula, nrow=4, w=5, center=2.0, mode='edge', rate=0.4,
       data='pos')
P.case(dfi_linear, nrow=4, w=5, center=1.83)
P.case(dfi_linear, nrow=5, w=4, center=2.4, ratio=0.0, flt=None)
P.case(dfi_linear, nrow=5, w=5, center=2.1,
       angles=tuple(math.pi * i / 4 for i in range(5)))
P.case(dfi_angles, nrow=5, w=5, center=2.0)
P.case(dfi_angles, nrow=4, w=7, center=3.0)
for start in (1, 3, 4, 5, 7, -1):
    P.case(dfi_start, nrow=5, w=5, start=start, sign=1)
    P.case(dfi_start, nrow=5, w=5, start=start, sign=-1)
for start in (0, 1, 4, 8):
    P.case(dfi_start, nrow=4, w=5, start=start, sign=-1)
    P.case(dfi_start, nrow=4, w=5, start=start, sign=1, turns=2)
P.case(dfi_start, nrow=4, w=7, start=6, sign=-1, turns=2)
P.case(dfi_log, nrow=4, w=5, center=2.0)
P.case(dispatch, method='dfi', data='pos')
for ws, hs, wr in ((5, 4, 5), (7, 6, 7), (8, 5, 8), (6, 4, 7)):
    P.case(mapping_coordinates, ws=ws, hs=hs, wr=wr)
for method in ('fbp', 'bpf', 'dfi'):
    P.case(bad, method=method)
P.case(circle, w=5, lo=0.2, hi=1.3)
P.case(circle, w=6, lo=0.2, hi=1.0)
for flt in (None, 'hann', 'bartlett', 'blackman', 'hamming', 'nuttall',
             'parzen', 'triang'):
    P.case(windows, flt=flt, w=6)
    P.case(windows, flt=flt, w=9)
for n in (5, 6, 9):
    P.case(radial_window, n=n)
