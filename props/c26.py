"""Phase unwrapping, quality and weight maps."""
import math
import numpy as onp
from engine.registry import Prop
from props.common import linmap, mean, srt

P = Prop('C26', ['prep.phase._wrap_to_pi', 'prep.phase._make_window',
                 'prep.phase._forward_operator',
                 'prep.phase._backward_operator', 'prep.phase._double_image',
                 'prep.phase._make_cosine_window',
                 'prep.phase.get_quality_map', 'prep.phase.get_weight_mask',
                 'prep.phase.unwrap_phase_based_cosine_transform',
                 'prep.phase.unwrap_phase_based_fft',
                 'prep.phase.unwrap_phase_iterative_fft'],
         'phases of 2..4 x 2..5 pixels, all symbolic with neighbours closer '
         'than pi, wrapped by any whole number of turns in [-2, 2] per pixel; '
         'windows, weights, iterations 0..2 listed',
         ['float32 rounding', 'sine and cosine of a symbolic phase are '
          'uninterpreted functions', 'the iterative method is decided for '
          'any linear unwrapping in place of the Fourier one'],
         'phases with steps of pi or more between neighbours')
PH = 'algotom.prep.phase'
PI = math.pi


def wrapped(ctx, h, w, turns=2, gap=0.05):
    """A phase, its values wrapped by any number of turns."""
    p = ctx.nested(ctx.array('phase', (h, w), -6, 6))
    n = [[ctx.int('n%d_%d' % (i, j), -turns, turns) for j in range(w)]
         for i in range(h)]
    for i in range(h):
        for j in range(w):
            for q in ((i + 1, j), (i, j + 1)):
                if q[0] < h and q[1] < w:
                    d = p[q[0]][q[1]] - p[i][j]
                    ctx.assume(d < PI - gap)
                    ctx.assume(d > gap - PI)
    return p, ctx.np.asarray([[p[i][j] + n[i][j] * (2 * PI)
                               for j in range(w)] for i in range(h)])


def cosine(ctx, h, w, given=False):
    """A phase without steps of pi is recovered from its wrapped values up
    to a constant."""
    m = ctx.mod(PH)
    p, a = wrapped(ctx, h, w)
    keep = ctx.np.copy(a)
    k = {}
    if given:
        win = [[2 * (math.cos(PI * i / h) + math.cos(PI * j / w) - 2)
                if i or j else 1.0 for j in range(w)] for i in range(h)]
        k['window'] = ctx.np.asarray(win)
    out = m.unwrap_phase_based_cosine_transform(a, **k)
    mu = mean([v for r in p for v in r])
    ctx.equal('unwrapped', out, [[v - mu for v in r] for r in p])
    ctx.equal('input untouched', a, keep)


def dft(m, sign):
    """Complex DFT of (re, im) pairs."""
    H, W = len(m), len(m[0])
    out = []
    for f in range(H):
        row = []
        for g in range(W):
            re = im = 0.0
            for y in range(H):
                for x in range(W):
                    t = sign * 2 * PI * (f * y / H + g * x / W)
                    c, s = round(math.cos(t), 15), round(math.sin(t), 15)
                    a, b = m[y][x]
                    re = re + a * c - b * s
                    im = im + a * s + b * c
            row.append((re, im))
        out.append(row)
    return out


def scaled(m, win):
    H, W = len(m), len(m[0])
    return [[(m[f][g][0] * win[f][g], m[f][g][1] * win[f][g])
             for g in range(W)] for f in range(H)]


def laplace(H, W, back):
    """k^2 at the frequencies of the DFT (unit: half the range)."""
    out = []
    for f in range(H):
        r = []
        for g in range(W):
            v = (f if f < H // 2 else f - H) / (H // 2)
            u = (g if g < W // 2 else g - W) / (W // 2)
            q = u * u + v * v
            r.append((1.0 / q if q else 1.0) if back else q)
        out.append(r)
    return out


def mirrored(m):
    rows = [r + r[::-1] for r in m]
    return rows[::-1] + rows


def fft(ctx, h, w, given=False):
    """The Laplacian of the phase comes from the wave exp(i phase); the
    Poisson equation is solved on the mirrored image."""
    m = ctx.mod(PH)
    np = ctx.np
    a = ctx.array('phase', (h, w), -3, 3)
    keep = np.copy(a)
    c, s = ctx.nested(np.cos(a)), ctx.nested(np.sin(a))
    wave = mirrored([[(c[i][j], s[i][j]) for j in range(w)]
                     for i in range(h)])
    H, W = 2 * h, 2 * w
    wf, wb = laplace(H, W, False), laplace(H, W, True)
    k = {}
    if given:
        wf = [[1.0 + ((i * 3 + j) % 4) / 2 for j in range(W)]
              for i in range(H)]
        wb = [[2.0 + ((i + j * 2) % 3) / 4 for j in range(W)]
              for i in range(H)]
        k['win_for'] = np.asarray(
            [[wf[(i - h) % H][(j - w) % W] for j in range(W)]
             for i in range(H)])
        k['win_back'] = np.asarray(
            [[1 / wb[(i - h) % H][(j - w) % W] for j in range(W)]
             for i in range(H)])
    n = 1.0 / (H * W)
    z = scaled(dft(scaled(dft(wave, -1), wf), 1), [[n] * W] * H)
    q = [[(z[i][j][1] * wave[i][j][0] - z[i][j][0] * wave[i][j][1], 0.0)
          for j in range(W)] for i in range(H)]
    want = dft(scaled(dft(q, -1), wb), 1)
    want = [[want[i][j][0] * n for j in range(w)] for i in range(h, H)]
    ctx.equal('unwrapped', m.unwrap_phase_based_fft(a, **k), want)
    ctx.equal('input untouched', a, keep)


def flat_fft(ctx, h, w):
    """A constant phase has no Laplacian."""
    m = ctx.mod(PH)
    v = ctx.real('v', -3, 3)
    a = ctx.np.asarray([[v] * w for _ in range(h)])
    out = m.unwrap_phase_based_fft(a)
    ctx.equal('flat', out, [[0.0] * w for _ in range(h)])


def turn(ctx, v):
    return ctx.mod_(v + PI, 2 * PI) - PI if hasattr(ctx, 'mod_') else \
        (v + PI) % (2 * PI) - PI


def iterative(ctx, h, w, n, weight=False):
    """Every iteration adds the unwrapped difference between the phase and
    what has been found, whatever (linear) unwrapping is used."""
    m = ctx.mod(PH)
    np = ctx.np
    a = ctx.array('phase', (h, w), -PI, PI)
    keep = np.copy(a)
    wt = [[1.0 if not weight else 0.5 + ((i + 2 * j) % 3) / 4
           for j in range(w)] for i in range(h)]
    calls = []

    def lin(mat):
        v = ctx.nested(mat)
        return [[1.25 * v[i][j] + 0.5 * v[h - 1 - i][w - 1 - j]
                 + 0.125 * (i + 1) * v[0][j] for j in range(w)]
                for i in range(h)]

    def stand_in(mat, win_for=None, win_back=None):
        calls.append((win_for, win_back))
        return np.asarray(lin(mat))
    real = getattr(m, 'unwrap_phase_based_fft', None)
    if real is None:
        return
    m.unwrap_phase_based_fft = stand_in
    try:
        k = {'weight_map': np.asarray(wt)} if weight else {}
        out = m.unwrap_phase_iterative_fft(a, iteration=n, **k)
    finally:
        m.unwrap_phase_based_fft = real
    if not calls:
        return
    av = ctx.nested(a)
    grid = [(i, j) for i in range(h) for j in range(w)]
    res = lin(np.asarray([[av[i][j] * wt[i][j] for j in range(w)]
                          for i in range(h)]))
    for _ in range(n):
        d = [[av[i][j] - turn(ctx, res[i][j]) for j in range(w)]
             for i in range(h)]
        mu = mean([v for r in d for v in r])
        d = [[turn(ctx, d[i][j] - mu) * wt[i][j] for j in range(w)]
             for i in range(h)]
        s = lin(np.asarray(d))
        res = [[res[i][j] + s[i][j] for j in range(w)] for i in range(h)]
    ctx.equal('unwrapped', out, res)
    ctx.equal('input untouched', a, keep)
    for f, b in calls:
        if f is not None:
            ctx.equal('forward window', f, [
                [((j - w) / w) ** 2 + ((i - h) / h) ** 2
                 for j in range(2 * w)] for i in range(2 * h)])
        if b is not None:
            ctx.equal('backward window', b, [
                [((j - w) / w) ** 2 + ((i - h) / h) ** 2
                 if (i, j) != (h, w) else 1.0
                 for j in range(2 * w)] for i in range(2 * h)])


SEED = onp.random.RandomState(3).randint(-9, 10, (6, 7)) / 10.0


def spread(p, size):
    """Deviation of the differences of neighbours in a window from their
    mean; None where the window leaves the image."""
    h, w = len(p), len(p[0])
    r = size // 2
    n = (2 * r + 1) ** 2
    out = [[None] * w for _ in range(h)]
    for i in range(r + 1, h - r):
        for j in range(r + 1, w - r):
            tot = 0.0
            for dy, dx in ((0, 1), (1, 0)):
                d = [p[y - 1 + dy][x - 1 + dx] - p[y - 1][x - 1]
                     for y in range(i - r, i + r + 1)
                     for x in range(j - r, j + r + 1)]
                mu = sum(d) / n
                tot += math.sqrt(sum((v - mu) ** 2 for v in d))
            out[i][j] = tot / n
    return out


def quality(ctx, h, w, size, how):
    """Spread of the wrapped differences around every pixel; whole turns do
    not matter, a plane has none."""
    m = ctx.mod(PH)
    np = ctx.np
    if how == 'plane':
        a, b, c = ctx.real('a', -3, 3), ctx.real('b', -3, 3), ctx.real('c')
        mat = [[a * j + b * i + c for j in range(w)] for i in range(h)]
        want = [[0.0] * w for _ in range(h)]
    else:
        p = SEED[:h, :w].tolist()
        want = spread(p, size)
        if how == 'gain':
            g = ctx.real('g', 0.2, 1.5)
            mat = [[v * g for v in r] for r in p]
            want = [[v if v is None else v * g for v in r] for r in want]
        else:
            mat = [[v + 2 * PI * ctx.int('n%d_%d' % (i, j), -2, 2)
                    for j, v in enumerate(r)] for i, r in enumerate(p)]
    r = size // 2
    out = ctx.nested(m.get_quality_map(np.asarray(mat), size))
    ctx.check('shape', len(out) == h and len(out[0]) == w)
    for i in range(r + 1, h - r):
        for j in range(r + 1, w - r):
            ctx.check('quality', abs(out[i][j] - want[i][j]) < 1e-3)


def weights(ctx, h, w, where, snr):
    """One where the value is above the noise, judged from the sorted
    values."""
    import scipy.ndimage as sn
    m = ctx.mod(PH)
    np = ctx.np
    b = (SEED[:h, :w] ** 2 * 3 + 0.2).tolist()
    x = ctx.list(ctx.array('x', (len(where),), 0, 6)) if where else []
    for p, v in zip(where, x):
        b[p[0]][p[1]] = v
    if not where:
        g, o = ctx.real('g', 0.5, 3), ctx.real('o', -2, 2)
        b = [[v * g + o for v in r] for r in b]
    n = max(h, w)
    s = srt(ctx, [v for r in b for v in r])
    d = linmap(lambda q: sn.zoom(q[0], n / (h * w), mode='nearest')[None],
               [s])[0]
    k = int(0.25 * n)
    ix = list(range(k, n - k - 1))
    fit = linmap(lambda q: onp.polyfit(onp.asarray(ix, float), q[0], 1)[None],
                 [[d[i] for i in ix]])[0]
    end = fit[1] + fit[0] * (n - 1)
    thr = end + abs(fit[0] * (n - 1)) * snr * 0.5
    for r in b:
        for v in r:
            ctx.assume(abs(v - thr) > 1e-3)
    out = ctx.nested(m.get_weight_mask(np.asarray(b), snr=snr))
    ctx.equal('mask', out, [[ctx.ite(v > thr, 1.0, 0.0) for v in r]
                            for r in b])


def refused(ctx, h, w):
    m = ctx.mod(PH)
    np = ctx.np
    a = ctx.array('a', (h, w), -3, 3)
    for s in ((h + 1, w), (h, w - 1), (w, h), (2 * h, 2 * w)):
        if s != (h, w):
            ctx.raises('window', ValueError,
                       lambda: m.unwrap_phase_based_cosine_transform(
                           a, window=np.ones(s)))
    for s in ((h, w), (2 * h + 1, 2 * w), (2 * h, 2 * w - 2)):
        ctx.raises('window', ValueError, lambda: m.unwrap_phase_based_fft(
            a, win_for=np.ones(s)))
        ctx.raises('window', ValueError, lambda: m.unwrap_phase_based_fft(
            a, win_back=np.ones(s)))


for h, w in ((2, 2), (2, 3), (3, 3), (4, 3), (3, 4)):
    P.case(cosine, h=h, w=w)
P.case(cosine, h=3, w=3, given=True)
P.case(cosine, h=4, w=5, tier='thorough')
for h, w in ((1, 2), (2, 1), (2, 2)):
    P.case(fft, h=h, w=w)
    P.case(fft, h=h, w=w, given=True)
P.case(fft, h=2, w=3)
P.case(flat_fft, h=3, w=4)
for n in (0, 1, 2):
    P.case(iterative, h=2, w=2, n=n)
    P.case(iterative, h=1, w=3, n=n, weight=True)
P.case(iterative, h=2, w=3, n=1, weight=True)
for how in ('plane', 'gain', 'turns'):
    P.case(quality, h=5, w=6, size=3, how=how)
P.case(quality, h=6, w=7, size=5, how='gain')
P.case(quality, h=5, w=5, size=2, how='plane')
P.case(weights, h=5, w=6, where=(), snr=1.5)
P.case(weights, h=6, w=5, where=((2, 3),), snr=1.5)
P.case(weights, h=4, w=6, where=((1, 3),), snr=0.5)
P.case(refused, h=3, w=4)
