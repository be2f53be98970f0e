"""Profile-based stripe removal: normalisation, regularisation, fitting,
Fourier and wavelet-Fourier."""
import math
import numpy as onp
from engine.registry import Prop
from props.common import (cols, ordered, ranks, pick, linmap, mean, srt,
                          gauss2d)

P = Prop('C11', ['prep.removal.remove_stripe_based_normalization',
                 'prep.removal.remove_stripe_based_regularization',
                 'prep.removal.remove_stripe_based_fitting',
                 'prep.removal.remove_stripe_based_fft',
                 'prep.removal.remove_stripe_based_wavelet_fft',
                 'util.utility.calculate_regularization_coefficient',
                 'util.utility.generate_fitted_image',
                 'util.utility.make_2d_butterworth_window',
                 'util.utility.make_2d_damping_window',
                 'util.utility.apply_wavelet_decomposition',
                 'util.utility.apply_wavelet_reconstruction',
                 'util.utility.apply_1d_regularizer',
                 'util.utility.apply_regularization_filter',
                 'util.utility.apply_filter_to_wavelet_component',
                 'util.utility.check_level'],
         'sinograms of 3x4 .. 7x6 pixels with every pixel symbolic (fitting '
         'and 32x32 wavelets: two or more symbolic pixels on a fixed '
         'background), 1..3 chunks, every order of a column when sorting',
         ['values sorted together differ by at least 0.05',
          'fitting: quotients are compared through equal operands'],
         'ties between sorted values, larger sinograms, wavelets other than '
         'the listed ones')
REM = 'algotom.prep.removal'
UT = 'algotom.util.utility'


def chunks(h, n):
    q, r = divmod(h, n)
    out, p = [], 0
    for i in range(n):
        s = q + (1 if i < r else 0)
        out.append((p, p + s))
        p += s
    return out


def per_chunk(m, n, f):
    """Add f(mean of the rows of a chunk) to those rows."""
    out = [None] * len(m)
    for b, e in chunks(len(m), n):
        mu = [mean([m[r][c] for r in range(b, e)])
              for c in range(len(m[0]))]
        co = f(mu)
        for r in range(b, e):
            out[r] = [v + k for v, k in zip(m[r], co)]
    return out


def with_sort(ctx, m, sort, f):
    if not sort:
        return f(m)
    c = cols(m)
    ordered(ctx, c)
    rk = [ranks(ctx, ln) for ln in c]
    s = cols(f(cols([srt(ctx, ln) for ln in c])))
    return cols([[pick(ctx, s[k], r) for r in rk[k]] for k in range(len(c))])


def normalization(ctx, h, w, sigma, num, sort, opt=None):
    """Every column of a chunk is shifted so that the mean profile becomes
    its smoothed version."""
    import scipy.ndimage as sn
    m = ctx.mod(REM)
    a = ctx.array('a', (h, w))
    keep = ctx.np.copy(a)
    al = ctx.nested(a)
    kw = {} if opt is None else {'opt': {'method': opt[0], 'para': opt[1]}}
    fil = (lambda b: sn.gaussian_filter(b, sigma)) if opt is None else (
        lambda b: getattr(sn, opt[0])(b, opt[1]))

    def f(mu):
        sm = linmap(lambda b: fil(b[0])[None], [mu], ('n', str(opt), sigma)
                    )[0]
        return [s - v for s, v in zip(sm, mu)]
    want = with_sort(ctx, al, sort, lambda s: per_chunk(s, num, f))
    out = m.remove_stripe_based_normalization(a, sigma, num, sort, **kw)
    ctx.equal('shifted to the smooth profile', out, want)
    ctx.equal('input untouched', a, keep)


def reg_matrix(n, alpha):
    tau = 2 * math.asinh(math.sqrt(alpha) / 2)
    k = -math.tanh(tau / 2) / (alpha * math.sinh(n * tau))
    return [[k * (math.cosh((n - 1 - abs(i - j)) * tau)
                  + math.cosh((n - i - j) * tau)) for j in range(n)]
            for i in range(n)]


def reg_coef(mu, alpha):
    n = len(mu)
    g = [mu[0] - mu[1]]
    for i in range(1, n - 1):
        g.append(mu[i] * 2.0 - mu[i - 1] - mu[i + 1])
    g.append(mu[-1] - mu[-2])
    M = reg_matrix(n, alpha)
    out = []
    for i in range(n):
        s = 0.0
        for j in range(n):
            s = s + g[j] * M[i][j]
        out.append(s)
    return out


def regularization(ctx, h, w, alpha, num, sort, log):
    m = ctx.mod(REM)
    np = ctx.np
    a = ctx.array('a', (h, w), 0.05 if log else -4, 4)
    keep = np.copy(a)
    if log:
        # what the log turns into -v
        al = ctx.nested(-np.log(a))
        if sort:
            # the order before and after the log is reversed
            ordered(ctx, cols(ctx.nested(a)))
    else:
        al = ctx.nested(a)
    if sort and log:
        src = ctx.nested(a)
        rk = [ranks(ctx, ln) for ln in cols(src)]
        s = ctx.nested(-np.log(np.asarray(cols(
            [srt(ctx, ln) for ln in cols(src)]))))
        res = cols(per_chunk(s, num, lambda mu: reg_coef(mu, alpha)))
        want = cols([[pick(ctx, res[k], r) for r in rk[k]]
                     for k in range(w)])
    else:
        want = with_sort(ctx, al, sort, lambda q: per_chunk(
            q, num, lambda mu: reg_coef(mu, alpha)))
    out = m.remove_stripe_based_regularization(a, alpha, num, log, sort)
    if log:
        want = np.exp(-np.asarray(want))
    ctx.equal('regularised profile added', out, want)
    ctx.equal('input untouched', a, keep)


def reg_nonpositive(ctx):
    """Pixels the logarithm cannot take are replaced by the mean size."""
    m = ctx.mod(REM)
    np = ctx.np
    a = ctx.array('a', (2, 3), 0.05, 4)
    z = ctx.real('z', -3, 0)
    a[1, 1] = z
    keep = np.copy(a)
    al = ctx.nested(a)
    mu = mean([ctx.ite(v < 0, -v, v) for r in al for v in r])
    b = np.copy(a)
    b[1, 1] = mu
    want = m.remove_stripe_based_regularization(b, 0.01, 1, True, False)
    out = m.remove_stripe_based_regularization(a, 0.01, 1, True, False)
    ctx.equal('non-positive pixel', out, want)
    ctx.equal('input untouched', a, keep)


def reg_filter(ctx, h, w, axis, nc):
    """The regulariser as a filter along one axis, line by line."""
    m = ctx.mod(UT)
    a = ctx.array('a', (h, w))
    keep = ctx.np.copy(a)
    al = ctx.nested(a)
    lines = al if axis == 1 else cols(al)
    want = [[v + c for v, c in zip(ln, reg_coef(ln, 0.02))] for ln in lines]
    if axis == 0:
        want = cols(want)
    ctx.equal('lines regularised', m.apply_regularization_filter(
        a, 0.02, axis=axis, ncore=nc), want)
    ctx.equal('input untouched', a, keep)


def _back(h, w, lo=1.0):
    return [[lo + ((7 * i + 5 * j + i * j * 13) % 13) / 13.0
             for j in range(w)] for i in range(h)]


def fitting(ctx, h, w, order, sigma, num, where, sort=False):
    """Fit along the angle, smooth the fit, scale the sinogram by the ratio,
    keeping the mean size of the fit."""
    import scipy.signal as sg
    m = ctx.mod(REM)
    np = ctx.np

    b = _back(h, w)
    x = ctx.array('x', (len(where),), 0.9, 2.2)
    xs = ctx.list(x)
    for k, (i, j) in enumerate(where):
        b[i][j] = xs[k]
    a = np.asarray(b)
    keep = np.copy(a)
    size = h // num
    ln = size if size % 2 else size - 1
    sy = max(10, min(60, int(0.1 * w)))
    pad = min(150, int(0.1 * h))

    def f(q):
        fit = linmap(lambda v: sg.savgol_filter(v, ln, order, axis=0,
                                                mode='mirror'), q,
                     ('sg', ln, order))
        sm = linmap(gauss2d(sigma, sy, pad), fit, ('gf', sigma, sy, pad))
        mf = np.mean(np.abs(np.asarray(fit)))
        sm = mf * np.asarray(sm) / np.mean(np.abs(np.asarray(sm)))
        return ctx.nested((np.asarray(q) / np.asarray(fit)) * sm)
    want = with_sort(ctx, b, sort, f)
    out = m.remove_stripe_based_fitting(a, order, sigma, sort, num)
    ctx.equal('scaled by smoothed fit', out, want)
    ctx.equal('input untouched', a, keep)


def fitted(ctx, h, w, order, axis, num):
    import scipy.signal as sg
    m = ctx.mod(UT)
    a = ctx.array('a', (h, w))
    n = (h if axis == 0 else w) // num
    n = n if n % 2 else n - 1
    ctx.equal('polynomial fit', m.generate_fitted_image(
        a, order, axis=axis, num_chunk=num), linmap(
            lambda v: sg.savgol_filter(v, n, order, axis=axis,
                                       mode='mirror'), ctx.nested(a)))


def butter(h, w, u, v, n):
    yc, xc = h // 2, w // 2         # where the zero frequency is
    return [[1.0 / (1.0 + ((x - xc) / u) ** (2 * n))
             if yc - v <= y <= yc + v else 1.0 for x in range(w)]
            for y in range(h)]


def fourier(ctx, h, w, u, n, v, sort):
    """Horizontal frequencies near zero vertical frequency are damped."""
    m = ctx.mod(REM)
    np = ctx.np
    a = ctx.array('a', (h, w))
    keep = np.copy(a)
    pad = min(150, int(0.1 * min(h, w)))
    al = ctx.nested(a)

    def op(part):
        def f(x):
            b = onp.pad(x, ((pad, pad), (0, 0)), mode='mean')
            b = onp.pad(b, ((0, 0), (pad, pad)), mode='edge')
            hh, ww = b.shape
            r = onp.fft.ifft2(onp.fft.ifftshift(onp.fft.fftshift(
                onp.fft.fft2(b)) * onp.asarray(butter(hh, ww, u, v, n))))
            return getattr(r, part)[pad:hh - pad, pad:ww - pad]
        return f
    want2 = None

    def sq(q):
        re = linmap(op('real'), q, ('fr', u, n, v))
        im = linmap(op('imag'), q, ('fi', u, n, v))
        return [[x * x + y * y for x, y in zip(r, s)]
                for r, s in zip(re, im)]
    want2 = with_sort(ctx, al, sort, sq)
    out = m.remove_stripe_based_fft(a, u, n, v, sort)
    ol = ctx.nested(out)
    ctx.equal('damped spectrum', [[x * x for x in r] for r in ol], want2)
    ctx.check('magnitude', ctx.all([x >= 0 for r in ol for x in r]))
    ctx.equal('input untouched', a, keep)


def windows(ctx, h, w):
    m = ctx.mod(UT)
    for u, v, n in ((2, 0, 1), (3, 1, 4), (1.5, 1, 2)):
        if v > h // 2:
            continue
        ctx.equal('Butterworth window', m.make_2d_butterworth_window(
            w, h, u, v, n), butter(h, w, u, v, n))
    xc = w // 2
    for s in (1, 2.5):
        ctx.equal('Gaussian damping', m.make_2d_damping_window(
            w, h, s), [[1 - math.exp(-(x - xc) ** 2 / (2.0 * s * s))
                        for x in range(w)]] * h)
        ctx.equal('Butterworth damping', m.make_2d_damping_window(
            w, h, s, 'butter'), [[1 - 1 / (1 + ((x - xc) / s) ** 2)
                                  for x in range(w)]] * h)


def _sym_pixels(ctx, base, where, lo=0.5, hi=2.5):
    x = ctx.list(ctx.array('x', (len(where),), lo, hi))
    b = [list(r) for r in base]
    for k, (i, j) in enumerate(where):
        b[i][j] = x[k]
    return b, x


def sparse(f, base, where, x):
    """Affine image of base with the listed pixels replaced."""
    b = onp.asarray(base, dtype=float)
    for i, j in where:
        b[i, j] = 0.0
    out = onp.asarray(f(b)).astype(object)
    z = onp.asarray(f(onp.zeros(b.shape)))
    for k, (i, j) in enumerate(where):
        e = onp.zeros(b.shape)
        e[i, j] = 1.0
        d = onp.asarray(f(e)) - z
        for p in onp.argwhere(onp.abs(d) > 1e-13):
            p = tuple(p)
            out[p] = x[k] * float(d[p]) + out[p]
    return out.tolist()


def damped(v, n, level, size, wav, win='gaussian', opt=None):
    import pywt
    import scipy.ndimage as sn
    p = min(150, int(0.1 * n))
    q = onp.pad(v, ((p, p), (0, 0)), mode='mean')
    q = onp.pad(q, ((0, 0), (p, p)), mode='edge')
    mx = int(math.floor(math.log2(q.shape[0] / 16.0)))
    lv = mx if level is None or level > mx or level < 1 else level
    c = [list(t) if i else t for i, t in enumerate(
        pywt.wavedec2(q, wav, level=lv))]
    for i in range(1, len(c)):
        h, w = c[i][1].shape
        if opt is not None:
            c[i][1] = getattr(sn, opt[0])(c[i][1], opt[1])
            continue
        k = onp.arange(h)[:, None] - h // 2     # signed frequency
        g = 1 - onp.exp(-k ** 2 / (2.0 * size ** 2)) \
            if win == 'gaussian' else 1 - 1 / (1 + (k / size) ** 2)
        c[i][1] = onp.fft.ifft2(onp.fft.ifftshift(onp.fft.fftshift(
            onp.fft.fft2(c[i][1])) * g)).real
    r = pywt.waverec2(c, wav)
    return r[p:n + p, p:n + p]


def wavelet(ctx, n, level, size, wav, win, where, opt=None):
    """The vertical detail of every level is damped near zero frequency."""
    m = ctx.mod(REM)
    base = _back(n, n)
    b, x = _sym_pixels(ctx, base, where)
    a = ctx.np.asarray(b)
    keep = ctx.np.copy(a)
    kw = {} if opt is None else {'opt': {'method': opt[0], 'para': opt[1]}}
    out = m.remove_stripe_based_wavelet_fft(a, level, size, wav, win, **kw)

    def f(v):
        return damped(v, n, level, size, wav, win, opt)
    ctx.equal('damped vertical detail', out, sparse(f, base, where, x))
    ctx.equal('input untouched', a, keep)


def wavelet_sorted(ctx, n, level, size, wav):
    """A symbolic level of the image does not change the order of values."""
    m = ctx.mod(REM)
    g = onp.random.RandomState(n)       # no two values of a column agree
    base = onp.asarray([1 + g.permutation(n) / float(n)
                        for _ in range(n)]).T
    t, u = ctx.real('t', -1, 1), ctx.real('u', -1, 1)
    row = onp.arange(n) % 3
    a = ctx.np.asarray([[float(v) + (t if row[j] else u)
                         for j, v in enumerate(r)] for r in base])
    keep = ctx.np.copy(a)
    order = onp.argsort(base, axis=0, kind='stable')
    parts = [onp.sort(base, axis=0), onp.ones((n, 1)) * (row > 0),
             onp.ones((n, 1)) * (row == 0)]
    res = []
    for q in parts:
        o = onp.zeros((n, n))
        onp.put_along_axis(o, order, damped(q, n, level, size, wav), 0)
        res.append(o)
    out = m.remove_stripe_based_wavelet_fft(a, level, size, wav, sort=True)
    ctx.equal('damped vertical detail of sorted columns', out,
              [[float(x) + t * float(y) + u * float(z)
                for x, y, z in zip(*r)] for r in zip(*res)])
    ctx.equal('input untouched', a, keep)


def wav_util(ctx, n, where):
    """Decompose, filter one component, reconstruct, ignore a level."""
    import pywt
    import scipy.ndimage as sn
    m = ctx.mod(UT)
    base = _back(n, n)
    b, x = _sym_pixels(ctx, base, where)
    a = ctx.np.asarray(b)
    mx = int(math.floor(math.log2(n / 16.0)))
    for level in (None, 1, mx + 1, 0):
        lv = mx if level is None or level > mx or level < 1 else level
        dec = m.apply_wavelet_decomposition(a, 'db2', level=level)
        ctx.check('levels', len(dec) == lv + 1)
    dec = m.apply_wavelet_decomposition(a, 'db2')
    keep = [ctx.np.copy(dec[0])] + [tuple(ctx.np.copy(v) for v in t)
                                    for t in dec[1:]]
    ctx.equal('round trip', m.apply_wavelet_reconstruction(
        dec, 'db2')[:n, :n], a)
    for order in (0, 1, 2):
        for lev in (None, 1, [mx]):
            r = m.apply_filter_to_wavelet_component(
                dec, level=lev, order=order, method='gaussian_filter',
                para=[(1, 2)])
            sel = range(1, mx + 1) if lev is None else (
                [lev] if isinstance(lev, int) else lev)
            ctx.equal('approximation', r[0], keep[0])
            for i in range(1, mx + 1):
                for k in range(3):
                    if i in sel and k == order:
                        def f(v, i=i, k=k):
                            return sn.gaussian_filter(pywt.wavedec2(
                                v, 'db2', level=mx)[i][k], (1, 2))
                        ctx.equal('filtered', r[i][k],
                                  sparse(f, base, where, x))
                    else:
                        ctx.equal('other components', r[i][k], keep[i][k])
    for i in range(1, mx + 1):
        for k in range(3):
            ctx.equal('input untouched', dec[i][k], keep[i][k])
    for ig in range(1, mx + 1):
        d = [dec[0]] + [tuple(t) for t in dec[1:]]
        r = m.apply_wavelet_reconstruction(d, 'db2', ignore_level=ig)

        def g(v, ig=ig):
            c = list(pywt.wavedec2(v, 'db2', level=mx))
            c[-ig] = tuple(onp.zeros_like(t) for t in c[-ig])
            return pywt.waverec2(c, 'db2')
        ctx.equal('ignored level', r, sparse(g, base, where, x))
    for bad in (0, mx + 1, [mx + 1], 'x'):
        ctx.raises('level', ValueError,
                   lambda: m.apply_filter_to_wavelet_component(
                       dec, level=bad))
    ctx.raises('method', ValueError,
               lambda: m.apply_filter_to_wavelet_component(
                   dec, method='nothing_like_it'))


def wrong(ctx):
    m = ctx.mod(REM)
    a = ctx.array('a', (5, 4), 1, 2)
    for f in (m.remove_stripe_based_normalization,
              m.remove_stripe_based_fitting):
        ctx.raises('unknown method', ValueError,
                   lambda: f(a, opt={'method': 'nothing_like_it'}))
        ctx.raises('not a dictionary', ValueError, lambda: f(a, opt=3))


for h, w, sigma, num, sort in ((4, 3, 1, 1, False), (5, 3, 2, 2, False),
                               (7, 3, 1, 3, False), (3, 3, 1, 1, True),
                               (4, 2, 1, 2, True), (4, 5, 15, 4, False)):
    P.case(normalization, h=h, w=w, sigma=sigma, num=num, sort=sort)
P.case(normalization, h=4, w=4, sigma=1, num=2, sort=False,
       opt=('uniform_filter1d', 3))
for h, w, al, num, sort, log in ((4, 3, 0.01, 1, False, False),
                                 (5, 4, 0.0005, 2, False, False),
                                 (3, 3, 0.1, 1, True, False),
                                 (4, 2, 0.1, 3, True, False),
                                 (3, 3, 0.01, 1, False, True),
                                 (4, 3, 0.01, 3, False, True),
                                 (2, 3, 0.01, 1, True, True),
                                 (3, 2, 0.01, 2, True, True)):
    P.case(regularization, h=h, w=w, alpha=al, num=num, sort=sort, log=log)
P.case(reg_nonpositive)
for h, w, axis, nc in ((3, 4, 1, 1), (4, 3, 0, 2), (2, 5, 1, None)):
    P.case(reg_filter, h=h, w=w, axis=axis, nc=nc)
for h, w, order, sigma, num, where, sort in (
        (5, 4, 2, 10, 1, ((1, 2),), False),
        (10, 4, 2, 3, 2, ((1, 2), (7, 0)), False),
        (5, 3, 1, 2, 1, ((0, 0), (1, 1), (4, 2)), False),
        (5, 3, 1, 2, 1, ((1, 1), (3, 2)), True),
        (9, 2, 2, 2, 3, ((1, 1),), True)):
    P.case(fitting, h=h, w=w, order=order, sigma=sigma, num=num,
           where=where, sort=sort)
for h, w, order, axis, num in ((5, 4, 2, 0, 1), (4, 6, 1, 1, 1),
                               (11, 2, 3, 0, 2), (2, 13, 2, 1, 3)):
    P.case(fitted, h=h, w=w, order=order, axis=axis, num=num)
for h, w, u, n, v, sort in ((4, 5, 2, 2, 1, False), (5, 4, 3, 1, 0, False),
                            (3, 3, 20, 8, 1, False), (6, 6, 1, 1, 2, False),
                            (3, 2, 1, 1, 0, True), (2, 4, 1, 1, 0, True),
                            (10, 11, 2, 1, 1, False), (6, 4, 1, 2, 0, False),
                            (4, 2, 1, 1, 0, True)):
    P.case(fourier, h=h, w=w, u=u, n=n, v=v, sort=sort)
for h, w in ((3, 4), (4, 5), (5, 5), (6, 3), (7, 8)):
    P.case(windows, h=h, w=w)
W = ((3, 4), (17, 20), (31, 0))
P.case(wavelet, n=32, level=1, size=1, wav='db2', win='gaussian', where=W)
P.case(wavelet, n=32, level=5, size=2, wav='db5', win='butter', where=W)
P.case(wavelet, n=60, level=2, size=1, wav='haar', win='gaussian',
       where=((10, 11), (45, 3)))
P.case(wavelet, n=60, level=None, size=1, wav='db2', win='gaussian',
       where=((10, 11),), tier='thorough')
P.case(wavelet, n=32, level=1, size=1, wav='db2', win='gaussian',
       where=((5, 6), (20, 9)), opt=('gaussian_filter', 2))
P.case(wavelet_sorted, n=32, level=1, size=1, wav='db2')
P.case(wavelet_sorted, n=33, level=2, size=2, wav='db1')
P.case(wavelet, n=40, level=1, size=1, wav='db1', win='gaussian',
       where=((5, 6), (20, 9)))
P.case(wav_util, n=33, where=W)
P.case(wav_util, n=64, where=((9, 9), (40, 11)))
P.case(wrong)
